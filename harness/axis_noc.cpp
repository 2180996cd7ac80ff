// AXI-S over the NoC, real adapters + real BookSim, every environment schedule
// within the deviation budget.
#include "hutil.hpp"
#include "noc_flits.hpp"
#include <design_context.hpp>
#include <radsim_config.hpp>
#include <radsim_module.hpp>
#include <radsim_noc.hpp>
#include <radsim_telemetry.hpp>
#include <cmath>
#include <deque>
#include <set>
#include <systemc.h>

static std::string g_prop;
static bool want(const char *p) { return g_prop == "all" || g_prop == p; }
// A violation that belongs to another property ends this execution quietly:
// that property's own check reports it.
[[noreturn]] static void foreign() {
  ex::S->cutoff += 0;
  ex::S->execs++;
  ex::finish_process(0);
}
#define FAIL(cond, ...)                                                                            \
  do {                                                                                             \
    if (cond)                                                                                      \
      ex::fail(__VA_ARGS__);                                                                       \
    else                                                                                           \
      foreign();                                                                                   \
  } while (0)
#define P01 want("P01")
#define P02 want("P02")
#define P05 want("P05")
#define P19 want("P19")

struct Msg {
  int src, dst, seq;
  uint64_t seed;
  uint64_t t_acc;
};
struct Obs {
  int src, dst; // port indices
  uint64_t t_acc, t_rx;
};
static std::vector<Obs> g_obs;
static uint64_t g_hist; // hash of the observable history
struct PortSpec {
  std::string mod, name; // name is "<mod>.<port>"
  bool master;
  int dataw, type;
  std::vector<int> dests; // indices of slave ports (masters only)
  int count;
};
struct Spec {
  std::string place, clks;
  std::vector<std::string> mods;
  std::vector<PortSpec> ports;
  double node_period;
  int extra;
  bool inorder;
  std::vector<int> send_stalls, recv_stalls;
  int choice_horizon; // first N messages of each port are choice points
  int phases;
};

static Spec g_spec;
static RADSimDesignContext *g_ctx;
static std::map<std::pair<int, int>, std::deque<Msg>> g_expect; // flow -> queue
static int g_outstanding = 0, g_to_send = 0, g_delivered = 0;
static long g_last_activity = 0;
static sc_signal<bool> *g_rst;

typedef sc_bv<AXIS_MAX_DATAW> data_t;
static data_t data_of(const Msg &m, int dataw) {
  data_t d;
  d = 0;
  fill_pattern(d, dataw, m.seed);
  return d;
}
static sc_bv<AXIS_USERW> user_of(const Msg &m) {
  sc_bv<AXIS_USERW> u;
  fill_pattern(u, AXIS_USERW, m.seed ^ 0xabcdef);
  return u;
}
static bool last_of(const Msg &m) { return hmix(m.seed ^ 77) & 1; }

struct vmod : public RADSimModule {
  sc_in<bool> rst;
  RADSimDesignContext *ctx;
  std::deque<axis_master_port> mports; // stable addresses
  std::deque<axis_slave_port> sports;
  std::vector<int> midx, sidx;
  std::vector<std::string> names;

  SC_HAS_PROCESS(vmod);
  vmod(const sc_module_name &n, RADSimDesignContext *c) : RADSimModule(n, c), ctx(c) {
    std::string me(this->module_name);
    for (size_t i = 0; i < g_spec.ports.size(); i++) {
      if (g_spec.ports[i].mod != me)
        continue;
      if (g_spec.ports[i].master) {
        mports.emplace_back();
        midx.push_back(i);
      } else {
        sports.emplace_back();
        sidx.push_back(i);
      }
    }
    SC_CTHREAD(Run, clk.pos());
    reset_signal_is(rst, true);
    RegisterModuleInfo();
  }
  void RegisterModuleInfo() {
    // registration order = spec order
    for (size_t k = 0; k < sidx.size(); k++) {
      std::string n = g_spec.ports[sidx[k]].name;
      RegisterAxisSlavePort(n, &sports[k], g_spec.ports[sidx[k]].dataw, g_spec.ports[sidx[k]].type);
    }
    for (size_t k = 0; k < midx.size(); k++) {
      std::string n = g_spec.ports[midx[k]].name;
      RegisterAxisMasterPort(n, &mports[k], g_spec.ports[midx[k]].dataw, g_spec.ports[midx[k]].type);
    }
  }
  static int opt_send(int seq) {
    if (seq >= g_spec.choice_horizon)
      return 0;
    return g_spec.send_stalls[ex::choose(g_spec.send_stalls.size())];
  }
  static int opt_recv(int seq) {
    if (seq >= g_spec.choice_horizon)
      return 0;
    return g_spec.recv_stalls[ex::choose(g_spec.recv_stalls.size())];
  }

  void Run() {
    size_t nm = midx.size(), ns = sidx.size();
    std::vector<int> sent(nm, 0), stall(nm, -1), rstall(ns, -1), rcount(ns, 0);
    std::vector<int> started(nm, 0);
    std::vector<bool> busy(nm, false);
    struct Held {
      bool pending = false;
      data_t d;
      sc_bv<AXIS_USERW> u;
      bool l;
      sc_bv<AXIS_DESTW> de;
      sc_bv<AXIS_IDW> id;
    };
    std::vector<Held> held(ns);
    for (auto &m : mports)
      m.Reset();
    for (auto &s : sports)
      s.tready.write(false);
    wait();
    while (true) {
      ex::S->transitions++;
      int nready = 0;
      // senders
      for (size_t k = 0; k < nm; k++) {
        const PortSpec &ps = g_spec.ports[midx[k]];
        if (busy[k]) {
          if (mports[k].tvalid.read() && mports[k].tready.read()) {
            busy[k] = false;
            for (auto &q : g_expect)
              if (q.first.first == midx[k])
                for (auto &m : q.second)
                  if (m.seq == sent[k])
                    m.t_acc = sc_time_stamp().value();
            g_hist = hmix(g_hist ^ (uint64_t)(midx[k] * 977 + sent[k]) ^ sc_time_stamp().value() * 31);
            ex::visit(g_hist);
            sent[k]++;
            g_to_send--;
            g_last_activity = sc_time_stamp().value();
            mports[k].tvalid.write(false);
            stall[k] = -1;
          }
        }
        if (!busy[k] && sent[k] < ps.count * g_spec.phases) {
          if (sent[k] >= ps.count * phase_limit())
            continue;
          if (stall[k] < 0)
            stall[k] = opt_send(sent[k]);
          if (stall[k] == 0) {
            Msg m;
            m.src = midx[k];
            m.seq = sent[k];
            int pick = 0;
            if (ps.dests.size() > 1) {
              int base = sent[k] % ps.dests.size();
              int o = sent[k] < g_spec.choice_horizon ? ex::choose(ps.dests.size()) : 0;
              pick = (base + o) % ps.dests.size();
            }
            m.dst = ps.dests[pick];
            m.t_acc = 0;
            m.seed = 1 + m.src * 1000003ull + m.seq * 7919ull;
            std::string dn = g_spec.ports[m.dst].name;
            unsigned dest = ctx->GetPortDestinationID(dn);
            unsigned intf = ctx->GetPortInterfaceID(dn);
            sc_bv<AXIS_DESTW> td;
            td = 0;
            DEST_LOCAL_NODE(td) = dest;
            DEST_REMOTE_NODE(td) = dest;
            DEST_RAD(td) = ctx->rad_id;
            mports[k].tdata.write(data_of(m, ps.dataw));
            mports[k].tuser.write(user_of(m));
            mports[k].tlast.write(last_of(m));
            mports[k].tdest.write(td);
            mports[k].tid.write(intf);
            mports[k].tvalid.write(true);
            busy[k] = true;
            g_expect[{m.src, m.dst}].push_back(m);
            g_outstanding++;
            ex::S->events++;
          } else
            stall[k]--;
        }
      }
      // receivers
      for (size_t k = 0; k < ns; k++) {
        int me = sidx[k];
        const PortSpec &ps = g_spec.ports[me];
        bool v = sports[k].tvalid.read(), r = sports[k].tready.read();
        if (held[k].pending) {
          if (!v)
            FAIL(P02, "handshake: %s dropped tvalid before tready", ps.name.c_str());
          if (held[k].d != sports[k].tdata.read() || held[k].u != sports[k].tuser.read() ||
              held[k].l != sports[k].tlast.read() || held[k].de != sports[k].tdest.read() ||
              held[k].id != sports[k].tid.read())
            FAIL(P02, "handshake: %s payload changed while waiting for tready", ps.name.c_str());
        }
        held[k].pending = v && !r;
        if (v && !r) {
          held[k].d = sports[k].tdata.read();
          held[k].u = sports[k].tuser.read();
          held[k].l = sports[k].tlast.read();
          held[k].de = sports[k].tdest.read();
          held[k].id = sports[k].tid.read();
        }
        if (v && r) {
          receive(me, sports[k]);
          rcount[k]++;
          rstall[k] = -1;
        }
        if (rstall[k] < 0)
          rstall[k] = opt_recv(rcount[k]);
        if (rstall[k] == 0)
          sports[k].tready.write(true);
        else {
          sports[k].tready.write(false);
          rstall[k]--;
        }
      }
      wait();
      // at most one slave interface of a NoC adapter may be granted; an
      // ungranted port must see tready low (no transfer happens on it)
    }
  }
  static int s_phase;
  static int phase_limit() { return s_phase; }

  void receive(int me, axis_slave_port &p) {
    g_last_activity = sc_time_stamp().value();
    const PortSpec &ps = g_spec.ports[me];
    data_t d = p.tdata.read();
    // find a flow whose pending messages contain this payload
    for (int pass = 0; pass < 2; pass++) // an exact match first, then a partial one
    for (auto &f : g_expect) {
      if (f.first.second != me)
        continue;
      auto &q = f.second;
      for (size_t i = 0; i < q.size(); i++) {
        Msg &m = q[i];
        int w = std::min(ps.dataw, g_spec.ports[m.src].dataw);
        bool same_data = data_of(m, w) == d, same_user = p.tuser.read() == user_of(m);
        if (pass == 0 ? !(same_data && same_user) : !(same_data || same_user))
          continue;
        if (!same_data)
          FAIL(P01, "intact: tdata corrupted on %s (message #%d of %s): %s", ps.name.c_str(), m.seq,
                   g_spec.ports[m.src].name.c_str(), d.to_string(SC_HEX).c_str());
        if (i != 0 && g_spec.inorder)
          FAIL(P01, "order: %s received message #%d of %s before #%d", ps.name.c_str(), m.seq,
                   g_spec.ports[m.src].name.c_str(), q[0].seq);
        if (!same_user)
          FAIL(P01, "intact: tuser corrupted on %s (message #%d of %s)", ps.name.c_str(), m.seq,
                   g_spec.ports[m.src].name.c_str());
        if (p.tlast.read() != last_of(m))
          FAIL(P01, "intact: tlast corrupted on %s (message #%d of %s)", ps.name.c_str(), m.seq,
                   g_spec.ports[m.src].name.c_str());
        std::string dn = ps.name;
        sc_bv<AXIS_DESTW> td = p.tdest.read();
        if (DEST_LOCAL_NODE(td).to_uint() != ctx->GetPortDestinationID(dn) ||
            DEST_REMOTE_NODE(td).to_uint() != ctx->GetPortDestinationID(dn) ||
            DEST_RAD(td).to_uint() != ctx->rad_id)
          FAIL(P01, "intact: tdest corrupted on %s: %s", ps.name.c_str(), td.to_string().c_str());
        if (p.tid.read().to_uint() != ctx->GetPortInterfaceID(dn))
          FAIL(P01, "intact: tid %u on %s (interface %u)", p.tid.read().to_uint(), ps.name.c_str(),
                   ctx->GetPortInterfaceID(dn));
        if (m.t_acc == 0)
          FAIL(P01, "delivery: %s received message #%d of %s before it was accepted", ps.name.c_str(),
               m.seq, g_spec.ports[m.src].name.c_str());
        g_obs.push_back({m.src, m.dst, m.t_acc, sc_time_stamp().value()});
        g_hist = hmix(g_hist ^ (uint64_t)(m.src * 7919 + m.dst * 104729 + m.seq) ^
                      sc_time_stamp().value() * 131);
        ex::visit(g_hist);
        q.erase(q.begin() + i);
        g_outstanding--;
        g_delivered++;
        ex::S->events++;
        return;
      }
    }
    FAIL(P01 || P02, "delivery: %s received a transaction that was never sent to it, was altered, or was "
             "already delivered (tdata %s)",
             ps.name.c_str(), d.to_string(SC_HEX).c_str());
  }
};
int vmod::s_phase = 1;

struct vtop : public sc_module {
  sc_in<bool> rst;
  std::vector<vmod *> mods;
  vtop(const sc_module_name &n, RADSimDesignContext *c) : sc_module(n) {
    for (auto &m : g_spec.mods) {
      vmod *v = new vmod(m.c_str(), c);
      v->rst(rst);
      mods.push_back(v);
    }
    c->BuildDesignContext(g_spec.place, g_spec.clks);
    c->CreateSystemNoCs(rst);
    c->ConnectModulesToNoC();
  }
};

static void read_spec(const std::string &f) {
  std::ifstream in(f);
  std::string line;
  g_spec = Spec();
  g_spec.extra = 60;
  g_spec.inorder = true;
  g_spec.send_stalls = {0, 1, 5};
  g_spec.recv_stalls = {0, 1, 4, 40};
  g_spec.choice_horizon = 6;
  g_spec.phases = 2;
  std::vector<std::pair<int, std::string>> dlist;
  while (std::getline(in, line)) {
    auto t = split(line, ' ');
    if (t.empty())
      continue;
    if (t[0] == "place")
      g_spec.place = t[1];
    else if (t[0] == "clks")
      g_spec.clks = t[1];
    else if (t[0] == "period")
      g_spec.node_period = atof(t[1].c_str());
    else if (t[0] == "mod")
      g_spec.mods.push_back(t[1]);
    else if (t[0] == "inorder")
      g_spec.inorder = t[1] == "1";
    else if (t[0] == "horizon")
      g_spec.choice_horizon = atoi(t[1].c_str());
    else if (t[0] == "phases")
      g_spec.phases = atoi(t[1].c_str());
    else if (t[0] == "sstalls" || t[0] == "rstalls") {
      std::vector<int> v;
      for (size_t i = 1; i < t.size(); i++)
        v.push_back(atoi(t[i].c_str()));
      (t[0] == "sstalls" ? g_spec.send_stalls : g_spec.recv_stalls) = v;
    } else if (t[0] == "m" || t[0] == "s") {
      PortSpec p;
      p.name = t[1];
      p.mod = t[1].substr(0, t[1].find('.'));
      p.master = t[0] == "m";
      p.dataw = atoi(t[2].c_str());
      p.type = atoi(t[3].c_str());
      p.count = 0;
      if (p.master) {
        p.count = atoi(t[4].c_str());
        dlist.push_back({(int)g_spec.ports.size(), t[5]});
      }
      g_spec.ports.push_back(p);
    }
  }
  for (auto &d : dlist)
    for (auto &n : split(d.second, ','))
      for (size_t i = 0; i < g_spec.ports.size(); i++)
        if (g_spec.ports[i].name == n)
          g_spec.ports[d.first].dests.push_back(i);
}

static bool near(double a, double b) { return a - b < 1e-5 && b - a < 1e-5; }
static std::vector<std::vector<std::string>> read_csv(const std::string &f) {
  std::ifstream in(f);
  std::string line;
  std::vector<std::vector<std::string>> r;
  while (std::getline(in, line)) {
    r.push_back({});
    for (auto &x : split(line, ','))
      r.back().push_back(x.substr(x.find_first_not_of(' ') == std::string::npos ? 0 : x.find_first_not_of(' ')));
  }
  return r;
}
static void check_telemetry(bool mesh) {
  auto &tb = NoCTransactionTelemetry::trace_bookkeeping;
  if ((int)tb.size() != g_delivered)
    ex::fail("telemetry: %d traces for %d delivered transactions", (int)tb.size(), g_delivered);
  int n = radsim_config.GetIntVectorKnobPerRad("noc_num_nodes", 0, 0);
  double noc_p = radsim_config.GetDoubleVectorKnobPerRad("noc_clk_period", 0, 0);
  int dim = 0;
  while (dim * dim < n)
    dim++;
  // (src node, dst node, type, width, accept time, delivery time) as seen on the ports
  std::map<std::tuple<int, int, int, int, long, long>, int> seen;
  std::map<std::pair<int, int>, long> bits, hops;
  for (auto &o : g_obs) {
    std::string sn = g_spec.ports[o.src].name, dn = g_spec.ports[o.dst].name;
    int s = g_ctx->GetPortDestinationID(sn), d = g_ctx->GetPortDestinationID(dn);
    seen[{s, d, g_spec.ports[o.src].type, g_spec.ports[o.src].dataw, (long)o.t_acc, (long)o.t_rx}]++;
    bits[{s, d}] += g_spec.ports[o.src].dataw;
  }
  for (auto &p : tb) {
    auto &t = p.second;
    long a = lround(t.t_init * 1000), r = lround(t.t_recieve * 1000);
    auto key = std::make_tuple(t.src_node, t.dest_node, t.transaction_type, t.dataw, a, r);
    auto it = seen.find(key);
    if (it == seen.end() || it->second == 0)
      ex::fail("telemetry: trace %d (node %d to node %d, type %d, width %d, accepted %g ns, delivered %g ns) "
               "matches no transfer observed on the ports",
               p.first, t.src_node, t.dest_node, t.transaction_type, t.dataw, t.t_init, t.t_recieve);
    it->second--;
    if (t.network_id != 0)
      ex::fail("telemetry: trace %d names NoC %d", p.first, t.network_id);
    if (!(t.t_init <= t.t_packet && t.t_init <= t.t_inject && t.t_inject < t.t_eject &&
          t.t_packet < t.t_eject && t.t_eject <= t.t_depacket && t.t_depacket < t.t_recieve))
      ex::fail("telemetry: timestamps of transaction %d out of order: init %g packet %g inject %g "
               "eject %g depacket %g receive %g",
               p.first, t.t_init, t.t_packet, t.t_inject, t.t_eject, t.t_depacket, t.t_recieve);
    if (!near(t.total_latency_ns, t.t_recieve - t.t_init))
      ex::fail("telemetry: latency of transaction %d is %g, receive-init is %g", p.first,
               t.total_latency_ns, t.t_recieve - t.t_init);
    if (t.t_eject - t.t_inject < t.num_hops * noc_p - 1e-6)
      ex::fail("telemetry: transaction %d crossed %d routers in %g ns (NoC period %g)", p.first, t.num_hops,
               t.t_eject - t.t_inject, noc_p);
    if (mesh) {
      int src = t.src_node, dst = t.dest_node;
      int h = CalculateXYGridHops(src, dst, dim);
      int man = abs(src / dim - dst / dim) + abs(src % dim - dst % dim);
      if (t.num_hops != man + 1 || h != man + 1)
        ex::fail("telemetry: transaction %d from node %d to node %d reports %d hops (XY path has %d "
                 "routers, CalculateXYGridHops says %d)",
                 p.first, src, dst, t.num_hops, man + 1, h);
    }
    hops[{t.src_node, t.dest_node}] = t.num_hops;
  }
  // the written files
  char d[] = "/tmp/vtelXXXXXX";
  if (!mkdtemp(d))
    ex::fail("internal: mkdtemp");
  std::string dir(d), f = dir + "/stats.csv";
  NoCTransactionTelemetry::DumpStatsToFile(f);
  auto csv = read_csv(f);
  unlink(f.c_str());
  const char *err = nullptr;
  int bad = -1;
  if (csv.size() != tb.size() + 1)
    err = "wrong number of rows";
  for (size_t i = 1; i < csv.size() && !err; i++) {
    auto &r = csv[i];
    if (r.size() != 13 || !tb.count(atoi(r[0].c_str()))) {
      err = "malformed row";
      break;
    }
    auto &t = tb[atoi(r[0].c_str())];
    double want[] = {(double)t.network_id, (double)t.src_node, (double)t.dest_node, (double)t.dataw,
                     (double)t.num_hops,   t.t_init,           t.t_packet,          t.t_inject,
                     t.t_eject,            t.t_depacket,       t.t_recieve,         t.total_latency_ns};
    for (int k = 0; k < 12; k++)
      if (fabs(atof(r[k + 1].c_str()) - want[k]) > 1e-4 * (1 + fabs(want[k]))) {
        err = "value differs from the trace";
        bad = k + 1;
      }
  }
  std::vector<double> agg;
  double cycles = 100, exp = 0;
  if (!err) {
    agg = NoCTransactionTelemetry::DumpTrafficFlows(dir + "/flows", cycles, g_ctx->GetNodeModuleNames(), 0);
    std::ifstream in(dir + "/flows_noc0.xml");
    std::string line;
    std::map<std::pair<std::string, std::string>, double> got, wantf;
    double per = radsim_config.GetDoubleKnobShared("sim_driver_period") / 1e9;
    auto names = g_ctx->GetNodeModuleNames();
    for (auto &b : bits) {
      std::string s = *names[0][b.first.first].begin(), dd = *names[0][b.first.second].begin();
      wantf[{s, dd}] = b.second / (cycles * per);
      exp += (hops[b.first] - 1) * (b.second / (cycles * per));
    }
    while (std::getline(in, line)) {
      size_t a = line.find("noc_router_"), c = line.find("noc_router_", a + 1), e = line.find("bandwidth=\"");
      if (a == std::string::npos || c == std::string::npos || e == std::string::npos)
        continue;
      std::string s = line.substr(a + 11, line.find(".*", a) - a - 11), t = line.substr(c + 11, line.find(".*", c) - c - 11);
      if (got.count({s, t}))
        err = "flow listed twice in traffic file";
      got[{s, t}] = atof(line.c_str() + e + 11);
    }
    in.close();
    unlink((dir + "/flows_noc0.xml").c_str());
    if (got.size() != wantf.size())
      err = "wrong number of flows in traffic file";
    for (auto &g : got)
      if (!wantf.count(g.first) || fabs(wantf[g.first] - g.second) > 1e-4 * wantf[g.first])
        err = "flow bandwidth in traffic file differs from the delivered bits";
    if (agg.size() != 1 || fabs(agg[0] - exp) > 1e-6 * (1 + exp))
      err = "aggregate bandwidth differs from the delivered bits times links";
  }
  rmdir(d);
  if (err)
    ex::fail("telemetry files: %s (column %d)", err, bad);
}

static void body(const std::string &root, bool telemetry_mesh, bool expect_complete) {
  mute();
  std::string knobs = root + "/sim/radsim_knobs";
  radsim_config.ResizeAll(1);
  ParseRADSimKnobs(knobs);
  sim_log.SetLogSettings(0, root + "/sim.log");
  g_ctx = new RADSimDesignContext(0);
  static sc_signal<bool> rst_sig;
  g_rst = &rst_sig;
  vtop *top = new vtop("vtop", g_ctx);
  top->rst(rst_sig);
  g_to_send = 0;
  double P = g_spec.node_period;
  rst_sig.write(true);
  FlitMon *flits = P19 ? FlitMon::create(0) : nullptr;
  sc_start(10 * P + 0.3, SC_NS);
  rst_sig.write(false);
  std::vector<double> done_at;
  for (int ph = 1; ph <= g_spec.phases; ph++) {
    vmod::s_phase = ph;
    for (auto &p : g_spec.ports)
      if (p.master)
        g_to_send += p.count;
    g_last_activity = sc_time_stamp().value();
    long quiet_limit = (long)(3000 * P * 1000); // ps
    while (g_to_send > 0 || g_outstanding > 0) {
      sc_start(10 * P, SC_NS);
      if ((long)sc_time_stamp().value() - g_last_activity > quiet_limit) {
        int u = 0;
        for (auto &f : g_expect)
          u += f.second.size();
        if (getenv("VERIF_VERBOSE"))
          if (auto *noc = dynamic_cast<radsim_noc *>(sc_find_object("vtop.radsim_noc_0")))
            for (auto *r : noc->GetNetwork()->GetRouters()) {
              std::cerr << "router " << r->GetID();
              for (int o = 0; o < r->NumOutputs(); o++)
                std::cerr << " out" << o << ":" << r->GetUsedCredit(o);
              for (int o = 0; o < r->NumInputs(); o++)
                std::cerr << " in" << o << ":" << r->GetBufferOccupancy(o);
              std::cerr << std::endl;
            }
        FAIL(P01 || P02 || P05, "progress: no transfer for %d cycles with every consumer ready: %d transactions "
                 "not accepted, %d accepted but never delivered (phase %d)",
                 3000, g_to_send, u, ph);
      }
    }
    // nothing may show up later
    sc_start(g_spec.extra * P, SC_NS);
    // all credits returned
    auto *noc = dynamic_cast<radsim_noc *>(sc_find_object("vtop.radsim_noc_0"));
    if (!noc)
      noc = dynamic_cast<radsim_noc *>(sc_find_object("radsim_noc_0"));
    if (noc && P05) {
      int vcs = radsim_config.GetIntVectorKnobPerRad("noc_vcs", 0, 0);
      for (int n = 0; n < noc->GetNumNodes(); n++) {
        BufferState *b = noc->GetBufferState(n);
        for (int v = 0; v < vcs; v++)
          if (!b->IsEmptyFor(v))
            ex::fail("credits: node %d VC %d: not all credits returned after the network drained "
                     "(phase %d)",
                     n, v, ph);
      }
      for (auto *r : noc->GetNetwork()->GetRouters())
        for (int o = 0; o < r->NumOutputs(); o++) {
          if (r->GetUsedCredit(o) != 0)
            ex::fail("credits: router %d output %d still counts %d used credits after drain",
                     r->GetID(), o, r->GetUsedCredit(o));
        }
    }
  }
  if (want("P23")) {
    char d[] = "/tmp/vtelXXXXXX";
    if (!mkdtemp(d))
      ex::fail("internal: mkdtemp");
    std::string f = std::string(d) + "/stats.csv";
    NoCTransactionTelemetry::DumpStatsToFile(f);
    observe_file(f);
    unlink(f.c_str());
    rmdir(d);
  }
  if (P19)
    check_telemetry(telemetry_mesh);
  if (flits)
    flits->check(telemetry_mesh);
  {
    std::string h;
    for (int i = 0; i < ex::g_ntrace && h.size() < 200; i++)
      h += std::to_string(ex::g_trace[i]);
    ex::sample("%s: choices %s -> %d transfers delivered, last at %lu ps", ex::g_scen, h.c_str(), g_delivered,
               (unsigned long)(g_obs.empty() ? 0 : g_obs.back().t_rx));
  }
  ex::S->nontrivial++;
  // digest of the delivery history = distinct outcomes
}

int sc_main(int argc, char **argv) {
  Args a(argc, argv);
  g_prop = a.s("prop", "all");
  ex::g_maxproc = a.i("jobs", 8);
  auto scen = split(a.s("scen"), ','); // root[:budget]
  if (a.kv.count("replay"))
    ex::set_replay(a.s("replay") == "default" ? "" : a.s("replay"));
  int rc = 0;
  for (auto &s : scen) {
    auto t = split(s, ':');
    std::string root = t[0];
    int budget = t.size() > 1 ? atoi(t[1].c_str()) : 1;
    bool mesh = t.size() > 2 ? t[2].find('m') != std::string::npos : true;
    read_spec(root + "/spec");
    long before = ex::S ? ex::S->execs.load() : 0;
    auto b = [&]() { body(root, mesh, true); };
    bool ok = ex::explore(root, budget, b);
    printf("@scen %s budget %d execs %ld\n", root.substr(root.rfind('/') + 1).c_str(), budget,
           ex::S->execs.load() - before);
    fflush(stdout);
    if (!ok)
      break;
  }
  rc = ex::report();
  fflush(stdout);
  _exit(rc);
}
