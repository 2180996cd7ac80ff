// AXI-MM over the NoC: real adapters + real BookSim, initiators and targets
// driven by every environment schedule within the deviation budget.
#include "hutil.hpp"
#include "noc_flits.hpp"
#include "noc_idle.hpp"
#include <cmath>
#include <deque>
#include <functional>
#include <design_context.hpp>
#include <radsim_config.hpp>
#include <radsim_module.hpp>
#include <radsim_noc.hpp>
#include <radsim_telemetry.hpp>
#include <set>
#include <systemc.h>

static std::string g_prop;
static bool want(const char *p) { return g_prop == "all" || g_prop == p; }
#define P03 want("P03")
#define P04 want("P04")
#define P05 want("P05")
#define P19 want("P19")
[[noreturn]] static void foreign() {
  ex::S->execs++;
  ex::finish_process(0);
}
#define FAIL(cond, ...)                                                                            \
  do {                                                                                             \
    if (cond)                                                                                      \
      ex::fail(__VA_ARGS__);                                                                       \
    else                                                                                           \
      foreign();                                                                                   \
  } while (0)

enum Chan { AR, AW, W, R, B, NCH };
static const char *CN[] = {"AR", "AW", "W", "R", "B"};
typedef sc_bv<AXI4_MAX_DATAW> data_t;

struct Beat { // one transfer on a channel
  Chan ch;
  int src, dst; // module indices
  int op, beat;
  uint64_t user, addr;
  int id, len, size, burst, resp;
  bool last;
  uint64_t dseed;
  uint64_t t_acc = 0;
  int flits = 0;
};
struct Mod {
  std::string name;
  bool init;
  int nops;
};
struct Spec {
  std::string place, clks;
  double period;
  int dataw, horizon, phases, extra;
  bool runahead, mesh, wearly, inorder;
  std::vector<Mod> mods;
  std::vector<int> sstalls, rstalls;
};
static Spec g_spec;
static RADSimDesignContext *g_ctx;
// expected transfers: (channel, src, dst)
static std::map<std::tuple<int, int, int>, std::deque<Beat>> g_exp;
static int g_pending = 0;   // accepted by or offered to the NoC, not yet delivered
static int g_ops_left = 0;  // transfers not yet offered
static int g_delivered = 0;
static long g_last = 0;
static uint64_t g_hist;
struct Obs {
  int ch, src, dst;
  uint64_t t_acc, t_rx;
};
static std::vector<Obs> g_obs;
static std::vector<uint64_t> g_base;
static int s_phase = 1;

static void activity(uint64_t h) {
  g_last = sc_time_stamp().value();
  g_hist = hmix(g_hist ^ h ^ (uint64_t)sc_time_stamp().value() * 131);
  ex::visit(g_hist);
}
static data_t data_of(uint64_t seed) {
  data_t d;
  d = 0;
  fill_pattern(d, g_spec.dataw, seed);
  return d;
}
static std::string portname(int m) { return g_spec.mods[m].name + ".p"; }

static int stall(const std::vector<int> &o, int n) {
  return n < g_spec.horizon ? o[ex::choose(o.size())] : 0;
}

// receive side of a channel: ready policy + valid/payload stability monitor
struct Rx {
  int st = -1, n = 0;
  bool pend = false;
  Beat held;
  data_t hd;
  bool armed = false;
};
struct Tx {
  std::deque<Beat> q;
  bool busy = false;
  int st = -1, n = 0;
};

static std::string show(const Beat &b) {
  char s[300];
  snprintf(s, sizeof s, "%s[%s->%s op %d beat %d]", CN[b.ch], g_spec.mods[b.src].name.c_str(),
           g_spec.mods[b.dst].name.c_str(), b.op, b.beat);
  return s;
}

// Called when a transfer completes at module `me` on channel ch.
static Beat deliver(int me, Beat got, const data_t &d) {
  for (auto &f : g_exp) {
    if (std::get<0>(f.first) != got.ch || std::get<2>(f.first) != me || f.second.empty())
      continue;
    for (size_t i = 0; i < f.second.size(); i++) {
      Beat &e = f.second[i];
      if (e.user != got.user || ((got.ch == W || got.ch == R) && data_of(e.dseed) != d))
        continue;
      if (i != 0 && g_spec.inorder)
        FAIL(P03, "order: %s received before %s", show(e).c_str(), show(f.second[0]).c_str());
      if (e.id != got.id)
        FAIL(P03, "intact: %s id %d received as %d", show(e).c_str(), e.id, got.id);
      if ((got.ch == AR || got.ch == AW) && e.addr != got.addr)
        FAIL(P03, "intact: %s address %#lx received as %#lx", show(e).c_str(), e.addr, got.addr);
      if ((got.ch == AR || got.ch == AW) &&
          (e.len != got.len || e.size != got.size || e.burst != got.burst))
        FAIL(P03, "intact: %s burst/size/len %d/%d/%d received as %d/%d/%d", show(e).c_str(), e.burst,
             e.size, e.len, got.burst, got.size, got.len);
      if ((got.ch == W || got.ch == R) && e.last != got.last)
        FAIL(P03, "intact: %s last flag %d received as %d", show(e).c_str(), e.last, got.last);
      if ((got.ch == B || got.ch == R) && e.resp != got.resp)
        FAIL(P03, "intact: %s resp %d received as %d", show(e).c_str(), e.resp, got.resp);
      Beat r = e;
      g_obs.push_back({e.ch, e.src, e.dst, e.t_acc, sc_time_stamp().value()});
      f.second.erase(f.second.begin() + i);
      g_pending--;
      g_delivered++;
      ex::S->events++;
      activity(r.ch * 1009 + r.src * 7919 + r.op * 13 + r.beat);
      return r;
    }
  }
  FAIL(P03 || P04,
       "delivery: %s received a %s transfer that was never sent to it, was altered, or was already delivered "
       "(user %#lx id %d addr %#lx)",
       g_spec.mods[me].name.c_str(), CN[got.ch], got.user, got.id, got.addr);
}
static void offered(Beat &b) {
  g_exp[{b.ch, b.src, b.dst}].push_back(b);
  g_pending++;
  g_ops_left--;
}
static void accepted(const Beat &b) {
  for (auto &e : g_exp[{b.ch, b.src, b.dst}])
    if (e.op == b.op && e.beat == b.beat && e.t_acc == 0) {
      e.t_acc = sc_time_stamp().value();
      break;
    }
  activity(b.ch * 31 + b.src * 977 + b.op);
}

template <class F> static void tx_step(Tx &t, bool fired, F drive, std::function<void(bool)> setvalid,
                                   bool allow = true) {
  if (t.busy && fired) {
    accepted(t.q.front());
    t.q.pop_front();
    t.busy = false;
    t.n++;
    t.st = -1;
    setvalid(false);
  }
  if (!t.busy && allow && !t.q.empty()) {
    if (t.st < 0)
      t.st = stall(g_spec.sstalls, t.n);
    if (t.st == 0) {
      offered(t.q.front());
      drive(t.q.front());
      setvalid(true);
      t.busy = true;
    } else
      t.st--;
  }
}
// returns true if a transfer completed
static bool rx_step(int me, Rx &r, bool v, bool rdy, Beat cur, const data_t &d) {
  if (r.pend && P04) {
    if (!v)
      ex::fail("handshake: %s at %s was valid, not accepted, and disappeared", CN[cur.ch],
               g_spec.mods[me].name.c_str());
    if (r.held.user != cur.user || r.held.id != cur.id || r.held.addr != cur.addr || r.held.len != cur.len ||
        r.held.last != cur.last || r.held.resp != cur.resp || r.held.size != cur.size ||
        r.held.burst != cur.burst || r.hd != d)
      ex::fail("handshake: %s at %s changed while waiting for ready", CN[cur.ch], g_spec.mods[me].name.c_str());
  }
  r.pend = v && !rdy;
  if (r.pend) {
    r.held = cur;
    r.hd = d;
  }
  bool done = v && rdy;
  if (done) {
    r.n++;
    r.st = -1;
  }
  return done;
}
static bool rx_ready(Rx &r) {
  if (r.st < 0)
    r.st = stall(g_spec.rstalls, r.n);
  if (r.st == 0)
    return true;
  r.st--;
  return false;
}

struct vmod : public RADSimModule {
  sc_in<bool> rst;
  RADSimDesignContext *ctx;
  int me;
  aximm_master_port *mpp = nullptr;
  aximm_slave_port *spp = nullptr;
  SC_HAS_PROCESS(vmod);
  vmod(const sc_module_name &n, RADSimDesignContext *c, int idx) : RADSimModule(n, c), ctx(c), me(idx) {
    if (g_spec.mods[me].init)
      mpp = new aximm_master_port;
    else
      spp = new aximm_slave_port;
    if (g_spec.mods[me].init) {
      SC_CTHREAD(RunI, clk.pos());
    } else {
      SC_CTHREAD(RunT, clk.pos());
    }
    reset_signal_is(rst, true);
    RegisterModuleInfo();
  }
  void RegisterModuleInfo() {
    std::string n = portname(me);
    if (g_spec.mods[me].init)
      RegisterAximmMasterPort(n, mpp, g_spec.dataw);
    else
      RegisterAximmSlavePort(n, spp, g_spec.dataw);
  }
  uint64_t tag(int op) { return g_base[me] | ((uint64_t)me << 20) | (op + 1); }
  int target(int k) {
    std::vector<int> t;
    for (size_t i = 0; i < g_spec.mods.size(); i++)
      if (!g_spec.mods[i].init)
        t.push_back(i);
    return t[k % t.size()];
  }
  Beat mk(Chan ch, int dst, int op, int beat) {
    Beat b;
    b.ch = ch;
    b.src = me;
    b.dst = dst;
    b.op = op;
    b.beat = beat;
    uint64_t h = hmix(me * 1000003 + op * 7919 + ch * 104729 + beat);
    b.user = tag(op);
    b.addr = 0;
    b.id = h & ((1 << AXI4_IDW) - 1);
    b.len = b.size = b.burst = b.resp = 0;
    b.last = false;
    b.dseed = h | 1;
    if (ch == AR || ch == AW) {
      b.addr = g_base[dst] | (hmix(h) >> (AXI4_NODE_ADDRW + 1));
      b.len = (h >> 8) & 255;
      b.size = (h >> 16) & 7;
      b.burst = (h >> 20) & 3;
    }
    return b;
  }
  void RunI() {
    auto &mp = *mpp;
    mp.Reset();
    Tx ar, aw, w;
    Rx r, b;
    int done_ops = 0;
    int aw_issued = 0, w_bursts = 0, aw_accepted = 0, aw_wait = -1;
    std::deque<std::vector<Beat>> wq; // bursts waiting for their turn
    wait();
    while (true) {
      ex::S->transitions++;
      // issue new operations
      while (done_ops < g_spec.mods[me].nops * s_phase) {
        int op = done_ops++;
        int kind = op % 4;
        if (op < g_spec.horizon)
          kind = (kind + ex::choose(4)) % 4;
        int tgt = target(me + (kind == 1 || kind == 2));
        int nb = kind >= 2 ? 2 : 1;
        if (kind % 2 == 0) {
          Beat x = mk(AR, tgt, op, nb);
          ar.q.push_back(x);
        } else {
          aw.q.push_back(mk(AW, tgt, op, nb));
          std::vector<Beat> burst;
          for (int i = 0; i < nb; i++) {
            Beat x = mk(W, tgt, op, i);
            x.last = i == nb - 1;
            burst.push_back(x);
          }
          wq.push_back(burst);
        }
      }
      // request channels
      bool far = mp.arvalid.read() && mp.arready.read();
      bool faw = mp.awvalid.read() && mp.awready.read();
      bool fw = mp.wvalid.read() && mp.wready.read();
      if (faw)
        aw_accepted++;
      if (fw && w.q.front().last)
        w_bursts++;
      // without run-ahead the next write address waits for the previous data
      bool aw_ok = g_spec.runahead || aw_accepted == w_bursts;
      if (g_spec.wearly) {
        // a write address may follow its data by any of these delays
        static const int D[] = {0, 1, 4, 40};
        if (faw)
          aw_wait = -1;
        bool next = aw.busy ? (faw && aw.q.size() > 1) : !aw.q.empty();
        if (aw_wait < 0 && next)
          aw_wait = aw_accepted < g_spec.horizon ? D[ex::choose(4)] : 0;
        aw_ok = aw_wait == 0;
        if (aw_wait > 0)
          aw_wait--;
      }
      tx_step(ar, far, [&](Beat &x) {
        mp.arid.write(x.id); mp.araddr.write(x.addr); mp.arlen.write(x.len); mp.arsize.write(x.size);
        mp.arburst.write(x.burst); mp.aruser.write(x.user);
      }, [&](bool v) { mp.arvalid.write(v); });
      tx_step(aw, faw, [&](Beat &x) {
        mp.awid.write(x.id); mp.awaddr.write(x.addr); mp.awlen.write(x.len); mp.awsize.write(x.size);
        mp.awburst.write(x.burst); mp.awuser.write(x.user);
      }, [&](bool v) { mp.awvalid.write(v); }, aw_ok);
      // write data of burst k may be offered once its address was accepted
      while (!wq.empty() && (g_spec.wearly || aw_issued < aw_accepted)) {
        for (auto &x : wq.front())
          w.q.push_back(x);
        wq.pop_front();
        aw_issued++;
      }
      tx_step(w, fw, [&](Beat &x) {
        mp.wid.write(x.id); mp.wdata.write(data_of(x.dseed)); mp.wlast.write(x.last); mp.wuser.write(x.user);
      }, [&](bool v) { mp.wvalid.write(v); });
      // response channels
      {
        Beat c = {};
        c.ch = R;
        c.user = mp.ruser.read().to_uint64();
        c.id = mp.rid.read().to_uint();
        c.resp = mp.rresp.read().to_uint();
        c.last = mp.rlast.read();
        data_t d = mp.rdata.read();
        if (rx_step(me, r, mp.rvalid.read(), mp.rready.read(), c, d))
          deliver(me, c, d);
        mp.rready.write(rx_ready(r));
      }
      {
        Beat c = {};
        c.ch = B;
        c.user = mp.buser.read().to_uint64();
        c.id = mp.bid.read().to_uint();
        c.resp = mp.bresp.read().to_uint();
        data_t d;
        if (rx_step(me, b, mp.bvalid.read(), mp.bready.read(), c, d))
          deliver(me, c, d);
        mp.bready.write(rx_ready(b));
      }
      wait();
    }
  }
  void RunT() {
    auto &sp = *spp;
    sp.Reset();
    Rx ar, aw, w;
    Tx r, b;
    wait();
    while (true) {
      ex::S->transitions++;
      bool fr = sp.rvalid.read() && sp.rready.read();
      bool fb = sp.bvalid.read() && sp.bready.read();
      Beat c = {};
      data_t d, nod;
      c.ch = AR;
      c.user = sp.aruser.read().to_uint64();
      c.id = sp.arid.read().to_uint();
      c.addr = sp.araddr.read().to_uint64();
      c.len = sp.arlen.read().to_uint();
      c.size = sp.arsize.read().to_uint();
      c.burst = sp.arburst.read().to_uint();
      if (rx_step(me, ar, sp.arvalid.read(), sp.arready.read(), c, nod)) {
        Beat g = deliver(me, c, nod);
        for (int i = 0; i < g.beat; i++) {
          Beat x = mk(R, g.src, g.src * 100 + g.op, i);
          x.op = g.op;
          x.user = g.user;
          x.resp = x.dseed >> 40 & 3;
          x.last = i == g.beat - 1;
          r.q.push_back(x);
        }
      }
      sp.arready.write(rx_ready(ar));
      c = {};
      c.ch = AW;
      c.user = sp.awuser.read().to_uint64();
      c.id = sp.awid.read().to_uint();
      c.addr = sp.awaddr.read().to_uint64();
      c.len = sp.awlen.read().to_uint();
      c.size = sp.awsize.read().to_uint();
      c.burst = sp.awburst.read().to_uint();
      if (rx_step(me, aw, sp.awvalid.read(), sp.awready.read(), c, nod))
        deliver(me, c, nod);
      sp.awready.write(rx_ready(aw));
      c = {};
      c.ch = W;
      c.user = sp.wuser.read().to_uint64();
      c.id = sp.wid.read().to_uint();
      c.last = sp.wlast.read();
      d = sp.wdata.read();
      if (rx_step(me, w, sp.wvalid.read(), sp.wready.read(), c, d)) {
        Beat g = deliver(me, c, d);
        if (g.last) {
          Beat x = mk(B, g.src, g.src * 100 + g.op, 0);
          x.op = g.op;
          x.user = g.user;
          x.resp = x.dseed >> 40 & 3;
          b.q.push_back(x);
        }
      }
      sp.wready.write(rx_ready(w));
      tx_step(r, fr, [&](Beat &x) {
        sp.rid.write(x.id); sp.rdata.write(data_of(x.dseed)); sp.rresp.write(x.resp); sp.rlast.write(x.last);
        sp.ruser.write(x.user);
      }, [&](bool v) { sp.rvalid.write(v); });
      tx_step(b, fb, [&](Beat &x) {
        sp.bid.write(x.id); sp.bresp.write(x.resp); sp.buser.write(x.user);
      }, [&](bool v) { sp.bvalid.write(v); });
      g_ops_left += 0;
      wait();
    }
  }
};

struct vtop : public sc_module {
  sc_in<bool> rst;
  vtop(const sc_module_name &n, RADSimDesignContext *c) : sc_module(n) {
    for (size_t i = 0; i < g_spec.mods.size(); i++) {
      vmod *v = new vmod(g_spec.mods[i].name.c_str(), c, i);
      v->rst(rst);
    }
    c->BuildDesignContext(g_spec.place, g_spec.clks);
    c->CreateSystemNoCs(rst);
    c->ConnectModulesToNoC();
    for (size_t i = 0; i < g_spec.mods.size(); i++) {
      std::string p = portname(i);
      g_base.push_back(c->GetPortBaseAddress(p));
    }
  }
};

static void read_spec(const std::string &f) {
  std::ifstream in(f);
  std::string line;
  g_spec = Spec();
  g_spec.place = "vtest.place";
  g_spec.clks = "vtest.clks";
  g_spec.dataw = 512;
  g_spec.horizon = 3;
  g_spec.phases = 2;
  g_spec.extra = 80;
  g_spec.runahead = false;
  g_spec.wearly = false;
  g_spec.inorder = true;
  g_spec.sstalls = {0, 1, 5};
  g_spec.rstalls = {0, 1, 3, 60};
  while (std::getline(in, line)) {
    auto t = split(line, ' ');
    if (t.empty())
      continue;
    if (t[0] == "period")
      g_spec.period = atof(t[1].c_str());
    else if (t[0] == "dataw")
      g_spec.dataw = atoi(t[1].c_str());
    else if (t[0] == "horizon")
      g_spec.horizon = atoi(t[1].c_str());
    else if (t[0] == "phases")
      g_spec.phases = atoi(t[1].c_str());
    else if (t[0] == "runahead")
      g_spec.runahead = t[1] == "1";
    else if (t[0] == "inorder")
      g_spec.inorder = t[1] == "1";
    else if (t[0] == "wearly")
      g_spec.wearly = t[1] == "1";
    else if (t[0] == "init")
      g_spec.mods.push_back({t[1], true, atoi(t[2].c_str())});
    else if (t[0] == "tgt")
      g_spec.mods.push_back({t[1], false, 0});
    else if (t[0] == "sstalls" || t[0] == "rstalls") {
      std::vector<int> v;
      for (size_t i = 1; i < t.size(); i++)
        v.push_back(atoi(t[i].c_str()));
      (t[0] == "sstalls" ? g_spec.sstalls : g_spec.rstalls) = v;
    }
  }
}

static void check_telemetry(bool mesh) {
  auto &tb = NoCTransactionTelemetry::trace_bookkeeping;
  if ((int)tb.size() != g_delivered)
    ex::fail("telemetry: %d traces for %d delivered transfers", (int)tb.size(), g_delivered);
  int n = radsim_config.GetIntVectorKnobPerRad("noc_num_nodes", 0, 0);
  int dim = 0;
  while (dim * dim < n)
    dim++;
  double node_ps = g_spec.period * 1000;
  std::map<std::tuple<int, int, int, int, long>, std::vector<long>> seen;
  for (auto &o : g_obs) {
    std::string sn = portname(o.src), dn = portname(o.dst);
    seen[{(int)g_ctx->GetPortDestinationID(sn), (int)g_ctx->GetPortDestinationID(dn), o.ch, g_spec.dataw,
          (long)o.t_acc}].push_back(o.t_rx);
  }
  for (auto &p : tb) {
    auto &t = p.second;
    auto it = seen.find({t.src_node, t.dest_node, t.transaction_type, t.dataw, lround(t.t_init * 1000)});
    bool ok = false;
    if (it != seen.end())
      for (auto &rx : it->second) {
        // delivery is recorded when the transfer is put on the port or when it is accepted
        double d = rx - t.t_recieve * 1000;
        if (rx >= 0 && d > -0.5) {
          ok = true;
          rx = -1;
          break;
        }
      }
    if (!ok)
      ex::fail("telemetry: trace %d (node %d to node %d, type %d, width %d, accepted %g ns, delivered %g ns) "
               "matches no transfer observed on the ports",
               p.first, t.src_node, t.dest_node, t.transaction_type, t.dataw, t.t_init, t.t_recieve);
    if (!(t.t_init <= t.t_packet && t.t_init <= t.t_inject && t.t_inject < t.t_eject &&
          t.t_eject <= t.t_depacket && t.t_depacket <= t.t_recieve))
      ex::fail("telemetry: timestamps of transfer %d out of order: init %g packet %g inject %g eject %g "
               "depacket %g receive %g",
               p.first, t.t_init, t.t_packet, t.t_inject, t.t_eject, t.t_depacket, t.t_recieve);
    if (fabs(t.total_latency_ns - (t.t_recieve - t.t_init)) > 1e-5)
      ex::fail("telemetry: latency of transfer %d is %g, receive-init is %g", p.first, t.total_latency_ns,
               t.t_recieve - t.t_init);
    if (mesh) {
      int man = abs(t.src_node / dim - t.dest_node / dim) + abs(t.src_node % dim - t.dest_node % dim);
      if (t.num_hops != man + 1)
        ex::fail("telemetry: transfer %d from node %d to node %d reports %d hops (XY path has %d routers)",
                 p.first, t.src_node, t.dest_node, t.num_hops, man + 1);
    }
  }
  (void)node_ps;
}

static void body(const std::string &root, bool mesh) {
  mute();
  std::string knobs = root + "/sim/radsim_knobs";
  radsim_config.ResizeAll(1);
  ParseRADSimKnobs(knobs);
  sim_log.SetLogSettings(0, root + "/sim.log");
  g_ctx = new RADSimDesignContext(0);
  static sc_signal<bool> rst_sig;
  vtop *top = new vtop("vtop", g_ctx);
  top->rst(rst_sig);
  double P = g_spec.period;
  rst_sig.write(true);
  FlitMon *flits = P19 ? FlitMon::create(0) : nullptr;
  sc_start(10 * P + 0.3, SC_NS);
  rst_sig.write(false);
  int nops = 0;
  for (auto &m : g_spec.mods)
    nops += m.nops;
  for (int ph = 1; ph <= g_spec.phases; ph++) {
    s_phase = ph;
    g_last = sc_time_stamp().value();
    long quiet = (long)(2000 * P * 1000);
    // every operation ends with its response; the phase is over when nothing moved for a while
    while (true) {
      sc_start(20 * P, SC_NS);
      if ((long)sc_time_stamp().value() - g_last > (long)(300 * P * 1000) && g_pending == 0)
        break;
      if ((long)sc_time_stamp().value() - g_last > quiet) {
        std::string u;
        for (auto &f : g_exp)
          if (!f.second.empty())
            u += show(f.second.front()) + (f.second.front().t_acc ? " accepted; " : " not accepted; ");
        FAIL(P03 || P04 || P05, "progress: no transfer for 2000 cycles with every port ready: %d pending, e.g. %s",
             g_pending, u.c_str());
      }
    }
    // all operations completed?
    int rs = 0, bs = 0;
    for (auto &o : g_obs) {
      rs += o.ch == R || o.ch == AR;
      bs += o.ch == B;
    }
    auto *noc = dynamic_cast<radsim_noc *>(sc_find_object("vtop.radsim_noc_0"));
    if (!noc)
      noc = dynamic_cast<radsim_noc *>(sc_find_object("radsim_noc_0"));
    if (noc && P05)
      check_credits_idle(noc, radsim_config.GetIntVectorKnobPerRad("noc_vcs", 0, 0), ph);
  }
  int ar = 0, b = 0;
  for (auto &o : g_obs) {
    ar += o.ch == AR;
    b += o.ch == B;
  }
  if (ar + b != nops * g_spec.phases)
    ex::fail("internal: %d operations completed of %d", ar + b, nops * g_spec.phases);
  if (want("P23")) {
    char d[] = "/tmp/vtelXXXXXX";
    if (!mkdtemp(d))
      ex::fail("internal: mkdtemp");
    std::string f = std::string(d) + "/stats.csv";
    NoCTransactionTelemetry::DumpStatsToFile(f);
    observe_file(f);
    unlink(f.c_str());
    rmdir(d);
  }
  if (P19)
    check_telemetry(mesh);
  if (flits)
    flits->check(mesh);
  ex::S->nontrivial++;
  std::string h;
  for (int i = 0; i < ex::g_ntrace && h.size() < 200; i++)
    h += std::to_string(ex::g_trace[i]);
  ex::sample("%s: choices %s -> %d transfers delivered, last at %lu ps", ex::g_scen, h.c_str(), g_delivered,
             (unsigned long)g_last);
}

int sc_main(int argc, char **argv) {
  Args a(argc, argv);
  g_prop = a.s("prop", "all");
  ex::g_maxproc = a.i("jobs", 8);
  if (a.kv.count("replay"))
    ex::set_replay(a.s("replay") == "default" ? "" : a.s("replay"));
  for (auto &s : split(a.s("scen"), ',')) {
    auto t = split(s, ':');
    std::string root = t[0];
    int budget = t.size() > 1 ? atoi(t[1].c_str()) : 1;
    bool mesh = t.size() > 2 ? t[2].find('m') != std::string::npos : true;
    read_spec(root + "/spec");
    long before = ex::S ? ex::S->execs.load() : 0;
    bool ok = ex::explore(root, budget, [&]() { body(root, mesh); });
    printf("@scen %s budget %d execs %ld\n", root.substr(root.rfind('/') + 1).c_str(), budget,
           ex::S->execs.load() - before);
    fflush(stdout);
    if (!ok)
      break;
  }
  int rc = ex::report();
  fflush(stdout);
  _exit(rc);
}
