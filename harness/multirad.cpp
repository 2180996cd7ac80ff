// Several RADs joined by the real RADSimInterRad through the real portals;
// either the portals' NoC side is driven directly (mode direct) or each RAD has
// a real NoC with modules (mode noc).  Every injection / destination / stall
// schedule within the deviation budget.
#include "hutil.hpp"
#include <deque>
#include <design_context.hpp>
#include <design_system.hpp>
#include <design_top.hpp>
#include <radsim_cluster.hpp>
#include <radsim_config.hpp>
#include <radsim_inter_rad.hpp>
#include <radsim_module.hpp>
#include <radsim_telemetry.hpp>
#include <systemc.h>

static std::string g_prop;
[[noreturn]] static void foreign() {
  ex::S->execs++;
  ex::finish_process(0);
}
#define FAIL(p, ...)                                                                                                   \
  do {                                                                                                                 \
    if (g_prop == "all" || g_prop == p)                                                                                \
      ex::fail(__VA_ARGS__);                                                                                           \
    else                                                                                                               \
      foreign();                                                                                                       \
  } while (0)

typedef sc_bv<AXIS_MAX_DATAW> data_t;
typedef sc_bv<AXIS_USERW> user_t;

struct PortSpec {
  std::string mod, name;
  bool master;
  int count = 0;
  std::vector<std::pair<int, std::string>> dests; // (rad, port); rad -1: the next RAD
};
struct Spec {
  int rads = 2;
  bool noc = false;
  double period = 5;
  int latency = 1, accept = 1, total = 1, slots = 1000;
  int horizon = 4, phases = 2;
  std::vector<int> sstalls{0, 1, 5}, rstalls{0, 1, 4, 30};
  std::vector<PortSpec> ports;
  std::vector<std::string> mods;
} g_spec;

struct Msg {
  int srad, sport, drad, dport, seq;
  uint64_t seed;
  unsigned rnode, intf;
};
static std::vector<RADSimDesignContext *> g_ctx;
// end-to-end flows: (source rad, source port, destination rad, destination port)
static std::map<std::tuple<int, int, int, int>, std::deque<Msg>> g_expect;
static int g_to_send = 0, g_outstanding = 0, g_delivered = 0, g_phase = 1;
static long g_last = 0, g_limit = 0;
static uint64_t g_hist;
static bool g_remote_multi = false;

static data_t data_of(uint64_t seed) {
  data_t d;
  d = 0;
  fill_pattern(d, AXIS_MAX_DATAW, seed);
  return d;
}
static user_t user_of(uint64_t seed) {
  user_t u;
  u = 0;
  fill_pattern(u, AXIS_USERW, seed ^ 0xabcdef);
  return u;
}
static bool last_of(uint64_t seed) { return hmix(seed ^ 77) & 1; }
static void seen(uint64_t x) {
  g_hist = hmix(g_hist ^ x ^ sc_time_stamp().value() * 131);
  ex::visit(g_hist);
  g_last = sc_time_stamp().value();
}

struct Held {
  bool pending = false;
  data_t d;
  user_t u;
  bool l;
  sc_bv<AXIS_DESTW> de;
  template <class P> bool same(P &p) {
    return d == p.tdata.read() && u == p.tuser.read() && l == p.tlast.read() && de == p.tdest.read();
  }
  template <class P> void take(P &p) {
    d = p.tdata.read();
    u = p.tuser.read();
    l = p.tlast.read();
    de = p.tdest.read();
  }
};

// ------------------------------------------------------------------ endpoints
struct Agent { // the sending and receiving behaviour of one master / slave port
  int rad;
  struct Send {
    axis_master_port *p;
    int spec, sent = 0, stall = -1;
    bool busy = false;
    Msg m;
  };
  struct Recv {
    axis_slave_port *p;
    int spec, count = 0, stall = -1;
    Held h;
  };
  std::vector<Send> s;
  std::vector<Recv> r;
  void reset() {
    for (auto &x : s)
      x.p->Reset();
    for (auto &x : r)
      x.p->tready.write(false);
  }
  void step() {
    ex::S->transitions++;
    for (auto &x : s) {
      const PortSpec &ps = g_spec.ports[x.spec];
      if (x.busy && x.p->tvalid.read() && x.p->tready.read()) {
        x.busy = false;
        x.sent++;
        x.stall = -1;
        g_to_send--;
        x.p->tvalid.write(false);
        seen(rad * 97 + x.spec * 1009 + x.sent);
      }
      if (x.busy || x.sent >= ps.count * g_phase)
        continue;
      bool free_choice = x.sent < g_spec.horizon;
      if (x.stall < 0)
        x.stall = free_choice ? g_spec.sstalls[ex::choose(g_spec.sstalls.size())] : 0;
      if (x.stall > 0) {
        x.stall--;
        continue;
      }
      Msg &m = x.m;
      m.srad = rad;
      m.sport = x.spec;
      m.seq = x.sent;
      int nd = ps.dests.size();
      int pick = (x.sent + (free_choice ? ex::choose(nd) : 0)) % nd;
      m.drad = ps.dests[pick].first;
      if (m.drad < 0)
        m.drad = (rad + 1 + x.sent % (g_spec.rads - 1)) % g_spec.rads;
      if (!g_spec.noc && m.drad == rad) // a portal gets no transfers for its own RAD
        m.drad = (rad + 1) % g_spec.rads;
      m.seed = 1 + m.srad * 15485863ull + m.sport * 1000003ull + m.seq * 7919ull;
      if (g_spec.noc) {
        std::string dn = ps.dests[pick].second;
        for (size_t k = 0; k < g_spec.ports.size(); k++)
          if (g_spec.ports[k].name == dn)
            m.dport = k;
        m.rnode = g_ctx[m.drad]->GetPortDestinationID(dn);
        m.intf = g_ctx[m.drad]->GetPortInterfaceID(dn);
      } else {
        m.dport = 1;
        m.rnode = (m.seq * 7 + 1) & ((1 << AXIS_DEST_FIELDW) - 1);
        m.intf = 0;
      }
      sc_bv<AXIS_DESTW> td;
      td = 0;
      DEST_RAD(td) = m.drad;
      DEST_REMOTE_NODE(td) = m.rnode;
      // towards another RAD only the remote node counts
      DEST_LOCAL_NODE(td) = m.drad == rad ? m.rnode : (m.rnode + 1) & ((1 << AXIS_DEST_FIELDW) - 1);
      x.p->tdata.write(data_of(m.seed));
      x.p->tuser.write(user_of(m.seed));
      x.p->tlast.write(last_of(m.seed));
      x.p->tdest.write(td);
      x.p->tid.write(m.intf);
      x.p->tvalid.write(true);
      x.busy = true;
      g_outstanding++;
      ex::S->events++;
      g_expect[{m.srad, m.sport, m.drad, m.dport}].push_back(m);
    }
    for (auto &x : r) {
      bool v = x.p->tvalid.read(), rd = x.p->tready.read();
      if (x.h.pending && (!v || !x.h.same(*x.p)))
        FAIL("P15", "handshake: RAD %d %s: transfer %s before tready", rad, g_spec.ports[x.spec].name.c_str(),
             v ? "changed" : "withdrawn");
      x.h.pending = v && !rd;
      if (x.h.pending)
        x.h.take(*x.p);
      if (v && rd) {
        receive(x);
        x.count++;
        x.stall = -1;
      }
      if (x.stall < 0)
        x.stall = x.count < g_spec.horizon ? g_spec.rstalls[ex::choose(g_spec.rstalls.size())] : 0;
      x.p->tready.write(x.stall == 0);
      if (x.stall > 0)
        x.stall--;
    }
  }
  void receive(Recv &x) {
    axis_slave_port &p = *x.p;
    data_t d = p.tdata.read();
    user_t u = p.tuser.read();
    const char *pn = g_spec.ports[x.spec].name.c_str();
    for (int pass = 0; pass < 2; pass++)
      for (auto &f : g_expect) {
        if (std::get<2>(f.first) != rad || std::get<3>(f.first) != x.spec)
          continue;
        for (size_t i = 0; i < f.second.size(); i++) {
          Msg &m = f.second[i];
          bool sd = data_of(m.seed) == d, su = user_of(m.seed) == u;
          if (pass == 0 ? !(sd && su) : !(sd || su))
            continue;
          if (pass == 1)
            FAIL("P15", "intact: %s of message #%d from RAD %d altered at RAD %d %s", sd ? "tuser" : "tdata", m.seq,
                 m.srad, rad, pn);
          if (i)
            FAIL("P15", "order: RAD %d %s received message #%d of RAD %d %s before #%d", rad, pn, m.seq, m.srad,
                 g_spec.ports[m.sport].name.c_str(), f.second[0].seq);
          if (p.tlast.read() != last_of(m.seed))
            FAIL("P15", "intact: tlast of message #%d from RAD %d altered at RAD %d %s", m.seq, m.srad, rad, pn);
          sc_bv<AXIS_DESTW> td = p.tdest.read();
          if (DEST_RAD(td).to_uint() != (unsigned)rad || DEST_LOCAL_NODE(td).to_uint() != m.rnode)
            FAIL("P15", "intact: RAD %d %s received message #%d from RAD %d with tdest %s (rad %u, node %u)", rad, pn,
                 m.seq, m.srad, td.to_string().c_str(), rad, m.rnode);
          if (g_spec.noc && p.tid.read().to_uint() != m.intf)
            FAIL("P15", "intact: RAD %d %s received message #%d with tid %u", rad, pn, m.seq, p.tid.read().to_uint());
          seen(m.srad * 31 + m.seq * 7 + rad * 1000 + x.spec);
          f.second.erase(f.second.begin() + i);
          g_outstanding--;
          g_delivered++;
          return;
        }
      }
    FAIL("P15", "delivery: RAD %d %s received a transfer that was never sent to it or was already delivered (%s)", rad,
         pn, d.to_string(SC_HEX).c_str());
  }
};

struct vmod : public RADSimModule {
  sc_in<bool> rst;
  Agent a;
  std::deque<axis_master_port> mports;
  std::deque<axis_slave_port> sports;
  SC_HAS_PROCESS(vmod);
  vmod(const sc_module_name &n, RADSimDesignContext *c) : RADSimModule(n, c) {
    a.rad = c->rad_id;
    for (size_t i = 0; i < g_spec.ports.size(); i++) {
      if (g_spec.ports[i].mod != module_name)
        continue;
      if (g_spec.ports[i].master) {
        mports.emplace_back();
        a.s.push_back({&mports.back(), (int)i});
      } else {
        sports.emplace_back();
        a.r.push_back({&sports.back(), (int)i});
      }
    }
    SC_CTHREAD(Run, clk.pos());
    reset_signal_is(rst, true);
    if (g_spec.noc)
      RegisterModuleInfo();
  }
  void RegisterModuleInfo() {
    for (auto &x : a.r) {
      std::string n = g_spec.ports[x.spec].name;
      RegisterAxisSlavePort(n, x.p, AXIS_MAX_DATAW, 0);
    }
    for (auto &x : a.s) {
      std::string n = g_spec.ports[x.spec].name;
      RegisterAxisMasterPort(n, x.p, AXIS_MAX_DATAW, 0);
    }
  }
  void Run() {
    a.reset();
    wait();
    while (true) {
      a.step();
      wait();
    }
  }
};

struct vtop : public RADSimDesignTop {
  sc_in<bool> rst;
  std::vector<vmod *> mods;
  std::deque<axis_signal> sig;
  vtop(const sc_module_name &n, RADSimDesignContext *c, sc_clock *clk)
      : sc_module(n), RADSimDesignTop(c) {
    connectPortalReset(&rst);
    for (auto &m : g_spec.mods) {
      vmod *v = new vmod(m.c_str(), c);
      v->rst(rst);
      mods.push_back(v);
    }
    if (g_spec.noc) {
      c->BuildDesignContext("vtest.place", "vtest.clks");
      c->CreateSystemNoCs(rst);
      c->ConnectModulesToNoC();
    } else {
      portal_inst->clk(*clk);
      mods[0]->clk(*clk);
      sig.emplace_back();
      sig.back().Connect(mods[0]->mports[0], portal_inst->axis_portal_slave_interface);
      sig.emplace_back();
      sig.back().Connect(portal_inst->axis_portal_master_interface, mods[0]->sports[0]);
    }
  }
};
struct vsys : public RADSimDesignSystem {
  vtop *top;
  vsys(const sc_module_name &n, RADSimDesignContext *c, sc_clock *clk) : sc_module(n) {
    top = new vtop("dut", c, clk);
    design_dut_inst = top;
  }
};

// -------------------------------------------------- the inter-RAD boundary
struct Hop {
  int src, dst;
  long k;
  data_t d;
  user_t u;
  bool l;
  unsigned node;
  bool exact;
};
SC_MODULE(monitor) {
  sc_in<bool> clk;
  std::vector<RADSimDesignTop *> duts;
  std::map<std::pair<int, int>, std::deque<Hop>> flow;
  std::vector<long> inflight, lastk;
  std::vector<std::deque<bool>> acc, off; // per source: accepted / offered in each recent cycle
  std::vector<std::deque<bool>> roomy;
  std::vector<Held> held;
  std::vector<long> idle;
  long k = 0;
  SC_CTOR(monitor) { SC_CTHREAD(Run, clk.pos()); }
  void Run() {
    int n = g_spec.rads, T = g_spec.total;
    inflight.assign(n, 0);
    lastk.assign(n, -1000);
    acc.resize(n);
    off.resize(n);
    roomy.resize(n);
    held.resize(n);
    idle.assign(n, 0);
    while (true) {
      k++;
      long room = 1 << 30; // slots left in the fullest destination queue
      for (int j = 0; j < n; j++)
        room = std::min<long>(room, g_spec.slots - inflight[j]);
      for (int i = 0; i < n; i++) {
        auto &m = duts[i]->design_top_portal_axis_master;
        bool v = m.tvalid.read(), r = m.tready.read();
        // the portal's half of the handshake
        if (held[i].pending && (!v || !held[i].same(m)))
          FAIL("P15", "handshake: portal of RAD %d %s a transfer before tready", i, v ? "changed" : "withdrew");
        held[i].pending = v && !r;
        if (held[i].pending)
          held[i].take(m);
        idle[i] = v && !r ? idle[i] + 1 : 0;
        if (idle[i] > g_limit)
          FAIL("P14", "progress: the transfer offered by RAD %d was not accepted for %ld cycles", i, idle[i]);
        // bandwidth over every window of the configured length
        acc[i].push_back(v && r);
        off[i].push_back(v);
        roomy[i].push_back(room > 2 * n);
        if ((int)acc[i].size() > T) {
          acc[i].pop_front();
          off[i].pop_front();
          roomy[i].pop_front();
        }
        int na = 0;
        bool all = true;
        for (size_t q = 0; q < acc[i].size(); q++) {
          na += acc[i][q];
          all = all && off[i][q] && roomy[i][q];
        }
        if (na > g_spec.accept)
          FAIL("P14", "bandwidth: %d transfers accepted from RAD %d within %d cycles (%d configured)", na, i, T,
               g_spec.accept);
        if (all && (int)acc[i].size() == T && na < g_spec.accept)
          FAIL("P14", "bandwidth: only %d of %d configured transfers accepted from RAD %d in %d cycles although it "
                      "always offered one",
               na, g_spec.accept, i, T);
        if (v && r) {
          sc_bv<AXIS_DESTW> td = m.tdest.read();
          int dst = DEST_RAD(td).to_uint();
          if (dst < 0 || dst >= n || dst == i)
            FAIL("P15", "delivery: RAD %d sent a transfer for RAD %d to the inter-RAD network", i, dst);
          inflight[dst]++;
          flow[{i, dst}].push_back({i, dst, k, m.tdata.read(), m.tuser.read(), (bool)m.tlast.read(),
                                    DEST_REMOTE_NODE(td).to_uint(), inflight[dst] <= g_spec.slots - n});
          seen(i * 17 + dst);
        }
      }
      for (int j = 0; j < n; j++) {
        auto &s = duts[j]->design_top_portal_axis_slave;
        if (!(s.tvalid.read() && s.tready.read()))
          continue;
        data_t d = s.tdata.read();
        bool found = false;
        for (int i = 0; i < n && !found; i++) {
          auto &q = flow[{i, j}];
          for (size_t x = 0; x < q.size() && !found; x++) {
            Hop &h = q[x];
            if (h.d != d)
              continue;
            found = true;
            if (x)
              FAIL("P14", "order: RAD %d received a transfer of RAD %d before an earlier one", j, i);
            if (h.u != s.tuser.read() || h.l != s.tlast.read())
              FAIL("P14", "intact: %s altered between RAD %d and RAD %d", h.u != s.tuser.read() ? "tuser" : "tlast", i, j);
            sc_bv<AXIS_DESTW> td = s.tdest.read();
            if ((int)DEST_RAD(td).to_uint() != j || DEST_LOCAL_NODE(td).to_uint() != h.node)
              FAIL("P14", "intact: transfer from RAD %d for node %u of RAD %d arrived with tdest %s", i, h.node, j,
                   td.to_string().c_str());
            long lat = k - h.k;
            if (getenv("VERIF_VERBOSE"))
              std::cerr << "lat " << i << "->" << j << " " << lat << " at " << k << "\n";
            if (lat < g_spec.latency + 1)
              FAIL("P14", "latency: transfer from RAD %d to RAD %d took %ld cycles, %d configured", i, j, lat,
                   g_spec.latency);
            // the configured latency and the output register; one delivery per cycle and RAD
            long due = std::max(h.k + std::max(g_spec.latency, 1) + 1, lastk[j] + 1);
            if (h.exact && k > due)
              FAIL("P14", "latency: transfer from RAD %d to RAD %d took %ld cycles although its queue was free "
                          "(%d configured)",
                   i, j, lat, g_spec.latency);
            lastk[j] = k;
            inflight[j]--;
            q.erase(q.begin() + x);
            seen(i * 31 + j * 7 + 1000);
          }
        }
        if (!found)
          FAIL("P14", "delivery: RAD %d received a transfer that was not sent to it or was already delivered (%s)", j,
               d.to_string(SC_HEX).c_str());
      }
      wait();
    }
  }
  int undelivered(std::string &what) {
    int u = 0;
    for (auto &f : flow) {
      u += f.second.size();
      if (f.second.size())
        what += " " + std::to_string(f.first.first) + "->" + std::to_string(f.first.second);
    }
    return u;
  }
};

static void read_spec(const std::string &f) {
  std::ifstream in(f);
  std::string line;
  g_spec = Spec();
  while (std::getline(in, line)) {
    auto t = split(line, ' ');
    if (t.empty())
      continue;
    if (t[0] == "rads")
      g_spec.rads = atoi(t[1].c_str());
    else if (t[0] == "noc")
      g_spec.noc = true;
    else if (t[0] == "period")
      g_spec.period = atof(t[1].c_str());
    else if (t[0] == "net") { // latency accept total slots
      g_spec.latency = atoi(t[1].c_str());
      g_spec.accept = atoi(t[2].c_str());
      g_spec.total = atoi(t[3].c_str());
      g_spec.slots = atoi(t[4].c_str());
    } else if (t[0] == "horizon")
      g_spec.horizon = atoi(t[1].c_str());
    else if (t[0] == "phases")
      g_spec.phases = atoi(t[1].c_str());
    else if (t[0] == "sstalls" || t[0] == "rstalls") {
      std::vector<int> v;
      for (size_t i = 1; i < t.size(); i++)
        v.push_back(atoi(t[i].c_str()));
      (t[0] == "sstalls" ? g_spec.sstalls : g_spec.rstalls) = v;
    } else if (t[0] == "m" || t[0] == "s") {
      PortSpec p;
      p.name = t[1];
      p.mod = t[1].substr(0, t[1].find('.'));
      p.master = t[0] == "m";
      if (p.master) {
        p.count = atoi(t[2].c_str());
        for (auto &d : split(t[3], ',')) {
          auto e = d.find(':');
          p.dests.push_back({d[0] == '*' ? -1 : atoi(d.c_str()), d.substr(e + 1)});
        }
      }
      g_spec.ports.push_back(p);
      bool have = false;
      for (auto &m : g_spec.mods)
        have = have || m == p.mod;
      if (!have)
        g_spec.mods.push_back(p.mod);
    }
  }
}

static void body(const std::string &root) {
  mute();
  std::string knobs = root + "/sim/radsim_knobs";
  radsim_config.ResizeAll(g_spec.rads);
  ParseRADSimKnobs(knobs);
  radsim_config.AddIntKnobShared("inter_rad_latency_cycles", g_spec.latency);
  radsim_config.AddIntKnobShared("inter_rad_bw_accept_cycles", g_spec.accept);
  radsim_config.AddIntKnobShared("inter_rad_bw_total_cycles", g_spec.total);
  radsim_config.AddIntKnobShared("inter_rad_fifo_num_slots", g_spec.slots);
  sim_log.SetLogSettings(0, root + "/sim.log");
  double P = g_spec.period;
  g_limit = 200 + 40 * (g_spec.latency + g_spec.total);
  RADSimCluster *cluster = new RADSimCluster(g_spec.rads);
  g_ctx = cluster->all_rads;
  static sc_signal<bool> rst;
  monitor *mon = new monitor("monitor");
  for (int i = 0; i < g_spec.rads; i++) {
    sc_clock *c = new sc_clock("node_clk0", P, SC_NS);
    vsys *s = new vsys("vsys", cluster->all_rads[i], c);
    s->top->rst(rst);
    cluster->StoreSystem(s);
    mon->duts.push_back(s->top);
  }
  sc_clock *ic = new sc_clock("node_clk0", P, SC_NS);
  mon->clk(*ic);
  RADSimInterRad *box = new RADSimInterRad("inter_rad_box", ic, cluster);
  for (int i = 0; i < g_spec.rads; i++)
    box->ConnectClusterInterfaces(i);
  rst.write(true);
  sc_start(10 * P + 0.3, SC_NS);
  rst.write(false);
  for (g_phase = 1; g_phase <= g_spec.phases; g_phase++) {
    for (auto &p : g_spec.ports)
      if (p.master)
        g_to_send += p.count * g_spec.rads;
    g_last = sc_time_stamp().value();
    long quiet = (long)((1000 + g_limit) * P * 1000);
    while (g_to_send > 0 || g_outstanding > 0) {
      sc_start(10 * P, SC_NS);
      if ((long)sc_time_stamp().value() - g_last > quiet) {
        std::string w;
        int u = mon->undelivered(w);
        if (u)
          FAIL("P14", "lost: %d transfers accepted by the inter-RAD network were never delivered (%s )", u, w.c_str());
        FAIL("P15", "progress: %d transfers not accepted and %d never delivered (phase %d)", g_to_send, g_outstanding,
             g_phase);
      }
    }
    sc_start(60 * P, SC_NS);
  }
  if (g_prop == "P23") {
    char d[] = "/tmp/vtelXXXXXX";
    if (!mkdtemp(d))
      ex::fail("internal: mkdtemp");
    std::string f = std::string(d) + "/stats.csv";
    NoCTransactionTelemetry::DumpStatsToFile(f);
    observe_file(f);
    unlink(f.c_str());
    rmdir(d);
  }
  std::string h;
  for (int i = 0; i < ex::g_ntrace && h.size() < 120; i++)
    h += std::to_string(ex::g_trace[i]);
  ex::sample("%s: choices %s -> %d transfers delivered, simulated %.1f ns", ex::g_scen, h.c_str(), g_delivered,
             sc_time_stamp().to_seconds() * 1e9);
  ex::S->nontrivial++;
}

int sc_main(int argc, char **argv) {
  Args a(argc, argv);
  g_prop = a.s("prop", "all");
  ex::g_maxproc = a.i("jobs", 8);
  if (a.kv.count("replay"))
    ex::set_replay(a.s("replay") == "default" ? "" : a.s("replay"));
  for (auto &s : split(a.s("scen"), ',')) {
    auto t = split(s, ':');
    read_spec(t[0] + "/spec");
    long before = ex::S ? ex::S->execs.load() : 0;
    std::string root = t[0];
    int budget = t.size() > 1 ? atoi(t[1].c_str()) : 1;
    bool ok = ex::explore(root, budget, [&]() { body(root); });
    printf("@scen %s budget %d execs %ld\n", root.substr(root.rfind('/') + 1).c_str(), budget,
           ex::S->execs.load() - before);
    fflush(stdout);
    if (!ok)
      break;
  }
  int rc = ex::report();
  fflush(stdout);
  _exit(rc);
}
