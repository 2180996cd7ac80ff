// P16: every placement file / clock file of a bounded space is written, parsed
// by the real RADSimDesignContext, elaborated with the real NoC(s) and probed
// with traffic between every pair of ports.
#include "hutil.hpp"
#include <algorithm>
#include <deque>
#include <design_context.hpp>
#include <design_system.hpp>
#include <design_top.hpp>
#include <radsim_config.hpp>
#include <radsim_module.hpp>
#include <radsim_telemetry.hpp>
#include <set>
#include <sys/stat.h>
#include <systemc.h>

struct Port {
  std::string name;
  char kind; // S/M: AXI-S slave/master, s/m: AXI-MM slave/master
};
struct Mod {
  std::string name;
  std::vector<Port> ports;
  int aclk = 0, mclk = 0;
};
static std::vector<Mod> g_mods;
static std::vector<double> g_aper, g_mper;
static std::string g_bad; // the conflict this scenario writes, "" for a consistent file

struct Where {
  int noc, node;
};
static std::map<std::string, Where> g_at;      // the placement as written
static std::map<std::string, int> g_modof;     // port -> module
static std::map<std::string, char> g_kind;
static RADSimDesignContext *g_ctx;

static uint64_t tagof(const std::string &a, const std::string &b) {
  uint64_t h = 7;
  for (char c : a + ">" + b)
    h = hmix(h ^ c);
  return h | 1;
}

// ------------------------------------------------------------------- modules
struct Rec {
  std::string from, to;
  uint64_t t_sent = 0, t_got = 0;
};
static std::deque<Rec> g_script; // the transfer being probed is front()
static bool g_sent, g_got, g_resp;
static std::string g_err;

struct vmod : public RADSimModule {
  sc_in<bool> rst;
  int me;
  std::map<std::string, axis_slave_port *> S;
  std::map<std::string, axis_master_port *> M;
  std::map<std::string, aximm_slave_port *> s;
  std::map<std::string, aximm_master_port *> m;
  std::string sending;
  int bstate = 0;
  std::map<std::string, uint64_t> owed;
  SC_HAS_PROCESS(vmod);
  vmod(const sc_module_name &n, RADSimDesignContext *c, int idx) : RADSimModule(n, c), me(idx) {
    for (auto &p : g_mods[idx].ports) {
      if (p.kind == 'S')
        S[p.name] = new axis_slave_port;
      else if (p.kind == 'M')
        M[p.name] = new axis_master_port;
      else if (p.kind == 's')
        s[p.name] = new aximm_slave_port;
      else
        m[p.name] = new aximm_master_port;
    }
    SC_CTHREAD(Run, clk.pos());
    reset_signal_is(rst, true);
    RegisterModuleInfo();
  }
  void RegisterModuleInfo() {
    for (auto &p : g_mods[me].ports) {
      std::string n = p.name;
      if (p.kind == 'S')
        RegisterAxisSlavePort(n, S[n], 256, 0);
      else if (p.kind == 'M')
        RegisterAxisMasterPort(n, M[n], 256, 0);
      else if (p.kind == 's')
        RegisterAximmSlavePort(n, s[n], 256);
      else
        RegisterAximmMasterPort(n, m[n], 256);
    }
  }
  // the clock this module really gets
  long edges = 0;
  sc_time last;
  void tick() {
    if (edges > 1) {
      sc_time d = sc_time_stamp() - last, w(g_mper[g_mods[me].mclk], SC_NS);
      if (d != w && g_err.empty())
        g_err = "clock: module " + g_mods[me].name + " is clocked every " + d.to_string() + " instead of " + w.to_string();
    }
    last = sc_time_stamp();
    edges++;
  }
  void arrived(const std::string &port, uint64_t tag) {
    if (g_err.size())
      return;
    if (g_script.empty() || g_got) {
      g_err = "delivery: " + port + " received a transfer that nobody sent or received it twice";
      return;
    }
    Rec &r = g_script.front();
    if (tag != tagof(r.from, r.to))
      g_err = "delivery: " + port + " received an altered transfer while " + r.from + " was sending to " + r.to;
    else if (port != r.to)
      g_err = "delivery: the transfer " + r.from + " sent to " + r.to + " arrived at " + port;
    r.t_got = sc_time_stamp().value();
    g_got = true;
  }
  void Run() {
    for (auto &x : M)
      x.second->Reset();
    for (auto &x : m)
      x.second->Reset();
    for (auto &x : s)
      x.second->Reset();
    for (auto &x : S)
      x.second->tready.write(false);
    wait();
    while (true) {
      tick();
      for (auto &x : S) {
        auto &p = *x.second;
        if (p.tvalid.read() && p.tready.read())
          arrived(x.first, (uint64_t)p.tdata.read().range(63, 0).to_uint64());
        p.tready.write(true);
      }
      for (auto &x : M) {
        auto &p = *x.second;
        if (sending == x.first && p.tvalid.read() && p.tready.read()) {
          p.tvalid.write(false);
          sending = "";
        }
        if (sending.empty() && !g_sent && !g_script.empty() && g_script.front().from == x.first) {
          Rec &r = g_script.front();
          std::string to = r.to;
          sc_bv<AXIS_DESTW> td;
          unsigned node = g_ctx->GetPortDestinationID(to);
          td = 0;
          DEST_LOCAL_NODE(td) = node;
          DEST_REMOTE_NODE(td) = node;
          DEST_RAD(td) = 0;
          sc_bv<AXIS_MAX_DATAW> d;
          d = 0;
          d.range(63, 0) = tagof(r.from, r.to);
          p.tdata.write(d);
          p.tdest.write(td);
          p.tid.write(g_ctx->GetPortInterfaceID(to));
          p.tlast.write(true);
          p.tvalid.write(true);
          sending = x.first;
          g_sent = true;
          r.t_sent = sc_time_stamp().value();
        }
      }
      for (auto &x : s) {
        auto &p = *x.second;
        // answer a read with its own address, a write with an OK response
        if (p.rvalid.read() && p.rready.read())
          p.rvalid.write(false);
        if (p.bvalid.read() && p.bready.read())
          p.bvalid.write(false);
        if (p.arvalid.read() && p.arready.read()) {
          uint64_t a = p.araddr.read().to_uint64();
          uint64_t low = a & 0xffffff;
          Rec *r = g_script.empty() ? nullptr : &g_script.front();
          uint64_t want = r ? tagof(r->from, r->to) & 0xffffff : 0;
          arrived(x.first, low == want && r ? tagof(r->from, r->to) : 0);
          sc_bv<AXI4_MAX_DATAW> d;
          d = 0;
          d.range(63, 0) = low;
          p.rdata.write(d);
          p.rid.write(p.arid.read());
          p.rresp.write(0);
          p.rlast.write(true);
          p.ruser.write(p.aruser.read());
          p.rvalid.write(true);
        }
        p.arready.write(true);
        p.awready.write(true);
        p.wready.write(true);
        if (p.awvalid.read() && p.awready.read())
          owed["aw"] = p.awaddr.read().to_uint64();
        if (p.wvalid.read() && p.wready.read() && p.wlast.read()) {
          Rec *r = g_script.empty() ? nullptr : &g_script.front();
          bool ok = r && (uint64_t)p.wdata.read().range(63, 0).to_uint64() == tagof(r->from, r->to);
          arrived(x.first, ok ? tagof(r->from, r->to) : 0);
          p.bid.write(0);
          p.bresp.write(0);
          p.buser.write(p.wuser.read());
          p.bvalid.write(true);
        }
      }
      for (auto &x : m) {
        auto &p = *x.second;
        p.rready.write(true);
        p.bready.write(true);
        bool mine = !g_script.empty() && g_script.front().from == x.first;
        if (p.arvalid.read() && p.arready.read())
          p.arvalid.write(false);
        if (p.awvalid.read() && p.awready.read())
          p.awvalid.write(false);
        if (p.wvalid.read() && p.wready.read())
          p.wvalid.write(false);
        bool r1 = p.rvalid.read() && p.rready.read(), b1 = p.bvalid.read() && p.bready.read();
        if (r1 || b1) {
          if (!mine || g_resp)
            g_err = "delivery: " + x.first + " received a response it did not wait for";
          else if (r1 && (uint64_t)p.rdata.read().range(63, 0).to_uint64() !=
                             (tagof(g_script.front().from, g_script.front().to) & 0xffffff))
            g_err = "delivery: " + x.first + " received read data of another access";
          g_resp = true;
        }
        if (mine && !g_sent) {
          Rec &r = g_script.front();
          std::string to = r.to, self = x.first;
          uint64_t tag = tagof(r.from, r.to);
          uint64_t a = g_ctx->GetPortBaseAddress(to) | (tag & 0xffffff), u = g_ctx->GetPortBaseAddress(self);
          if (phase == 0) {
            p.araddr.write(a);
            p.arid.write(0);
            p.arlen.write(0);
            p.aruser.write(u);
            p.arvalid.write(true);
          } else {
            p.awaddr.write(a);
            p.awid.write(0);
            p.awlen.write(0);
            p.awuser.write(u);
            p.awvalid.write(true);
            sc_bv<AXI4_MAX_DATAW> d;
            d = 0;
            d.range(63, 0) = tag;
            p.wdata.write(d);
            p.wid.write(0);
            p.wlast.write(true);
            p.wuser.write(u);
            p.wvalid.write(true);
          }
          g_sent = true;
          r.t_sent = sc_time_stamp().value();
        }
      }
      ex::S->transitions++;
      wait();
    }
  }
  static int phase;
};
int vmod::phase = 0;

struct vtop : public RADSimDesignTop {
  sc_in<bool> rst;
  vtop(const sc_module_name &n, RADSimDesignContext *c, bool clash) : sc_module(n), RADSimDesignTop(c) {
    connectPortalReset(&rst);
    for (size_t i = 0; i < g_mods.size(); i++)
      (new vmod(g_mods[i].name.c_str(), c, i))->rst(rst);
    if (clash)
      (new vmod(g_mods[0].name.c_str(), c, 0))->rst(rst);
    c->BuildDesignContext("p.place", "p.clks");
    c->CreateSystemNoCs(rst);
    c->ConnectModulesToNoC();
  }
};

// ------------------------------------------------------------------ scenarios
struct Group { // one placement decision: a whole module or a single port
  std::string item;
  std::vector<std::string> ports;
  bool aximm;
};
struct Spec {
  std::vector<int> nodes; // nodes per NoC
  std::string mode;       // free: every placement; dev: deviations
  std::string conflict;
  bool clocks = false;
} g_spec;

static std::string g_dir;
static void put(const std::string &f, const std::string &t) {
  std::ofstream o(g_dir + "/" + f);
  o << t;
}

static void body(const std::string &root) {
  mute();
  vmod::phase = 0;
  radsim_config.ResizeAll(1);
  ParseRADSimKnobs(root + "/sim/radsim_knobs");
  sim_log.SetLogSettings(0, root + "/sim.log");
  g_aper = radsim_config.GetDoubleVectorKnobPerRad("noc_adapters_clk_period", 0);
  g_mper = radsim_config.GetDoubleVectorKnobPerRad("design_clk_periods", 0);
  int nn = g_spec.nodes.size();
  // 1. the form of every module's lines and the place of every item
  auto pick = [&](int n) { return g_spec.mode == "free" ? ex::branch(n) : ex::choose(n); };
  std::vector<Group> items;
  for (auto &m : g_mods) {
    bool split = pick(2);
    // a whole-module line places the ports of one protocol
    for (int mm = 0; mm < 2; mm++) {
      Group g{m.name, {}, mm == 1};
      for (auto &p : m.ports) {
        if ((p.kind == 's' || p.kind == 'm') != g.aximm)
          continue;
        if (split)
          items.push_back({p.name, {p.name}, g.aximm});
        else
          g.ports.push_back(p.name);
      }
      if (g.ports.size())
        items.push_back(g);
    }
  }
  std::map<std::pair<int, int>, int> used; // 1: axis, 2: aximm, with module clocks
  std::map<std::pair<int, int>, std::set<int>> owners;
  std::vector<std::string> lines;
  int total = 0;
  for (int n : g_spec.nodes)
    total += n;
  int idx = 0;
  for (auto &it : items) {
    std::vector<Where> ok;
    for (int c = 0; c < nn; c++)
      for (int n = 0; n < g_spec.nodes[c]; n++) {
        int u = used.count({c, n}) ? used[{c, n}] : 0;
        if (u == 2 || (u == 1 && it.aximm))
          continue;
        ok.push_back({c, n});
      }
    if (ok.empty())
      ex::finish_process(0);
    // the default spreads the items over the nodes
    int k = g_spec.mode == "free" ? ex::branch(ok.size()) : (ex::choose(ok.size()) + idx * 3) % ok.size();
    idx++;
    Where w = ok[k];
    used[{w.noc, w.node}] = it.aximm ? 2 : 1;
    for (auto &p : it.ports) {
      g_at[p] = w;
      owners[{w.noc, w.node}].insert(g_modof[p]);
    }
    lines.push_back(it.item + " " + std::to_string(w.noc) + " " + std::to_string(w.node) + " " +
                    (it.aximm ? "aximm" : "axis"));
  }
  // 2. the order of the lines
  if (lines.size() > 1) {
    int n = lines.size();
    int o = pick(n < 3 ? 2 : 4);
    if (o == 1)
      std::reverse(lines.begin(), lines.end());
    else if (o == 2)
      std::rotate(lines.begin(), lines.begin() + 1, lines.end());
    else if (o == 3)
      std::swap(lines[0], lines[n - 1]);
  }
  // 3. the clocks; modules that share a node share their clocks
  std::vector<int> comp(g_mods.size());
  for (size_t i = 0; i < comp.size(); i++)
    comp[i] = i;
  for (auto &o : owners)
    for (int a : o.second) {
      int x = comp[*o.second.begin()], y = comp[a];
      for (auto &c : comp)
        if (c == y)
          c = x;
    }
  std::vector<std::string> clks;
  for (size_t i = 0; i < g_mods.size(); i++) {
    if (comp[i] == (int)i) {
      // default: different clocks for different modules
      int na = g_aper.size(), nm = g_mper.size(), c = g_spec.clocks ? ex::choose(na * nm) : 0;
      c = (c + i * (na + 1)) % (na * nm);
      g_mods[i].aclk = c % na;
      g_mods[i].mclk = c / na;
    } else {
      g_mods[i].aclk = g_mods[comp[i]].aclk;
      g_mods[i].mclk = g_mods[comp[i]].mclk;
    }
    clks.push_back(g_mods[i].name + " " + std::to_string(g_mods[i].aclk) + " " + std::to_string(g_mods[i].mclk));
  }
  if (ex::choose(2))
    std::reverse(clks.begin(), clks.end());
  bool clash = false;
  if (!g_spec.conflict.empty()) {
    // break the consistent file in the requested way
    std::string what = g_spec.conflict;
    std::string mmnode;
    for (auto &l : lines)
      if (l.find("aximm") != std::string::npos)
        mmnode = l.substr(l.find(' ') + 1, l.rfind(' ') - l.find(' ') - 1);
    int n = lines.size();
    if (what == "axis_on_aximm") { // an AXI-S item moves to the node of an AXI-MM item
      int k = ex::branch(n), f = ex::branch(2);
      if (lines[k].find("aximm") != std::string::npos)
        ex::finish_process(0);
      std::string l = lines[k].substr(0, lines[k].find(' ')) + " " + mmnode + " axis";
      lines.erase(lines.begin() + k);
      lines.insert(f ? lines.begin() : lines.end(), l);
    } else if (what == "two_aximm") {
      int k = ex::branch(n), f = ex::branch(2);
      if (lines[k].find("aximm") == std::string::npos || lines[k].find(" " + mmnode + " ") != std::string::npos)
        ex::finish_process(0);
      std::string l = lines[k].substr(0, lines[k].find(' ')) + " " + mmnode + " aximm";
      lines.erase(lines.begin() + k);
      lines.insert(f ? lines.begin() : lines.end(), l);
    } else if (what == "missing") {
      lines.erase(lines.begin() + ex::branch(n));
    } else if (what == "unknown") {
      lines.insert(lines.begin() + ex::branch(n + 1), "ghost 0 0 axis");
    } else if (what == "same_name")
      clash = true;
  }
  std::string text, ctext;
  for (auto &l : lines)
    text += l + "\n";
  for (auto &l : clks)
    ctext += l + "\n";
  g_dir = root + "/run" + std::to_string(getpid());
  mkdir(g_dir.c_str(), 0755);
  put("p.place", text);
  put("p.clks", ctext);
  radsim_config.AddStringKnobPerRad("radsim_user_design_root_dir", g_dir, 0);
  auto cleanup = []() {
    unlink((g_dir + "/p.place").c_str());
    unlink((g_dir + "/p.clks").c_str());
    rmdir(g_dir.c_str());
  };
  std::string shown = text + "| " + ctext;
  for (auto &c : shown)
    if (c == '\n')
      c = ';';
  ex::visit(tagof(shown, ""));
  ex::S->events++;
  auto FAILX = [&](const std::string &m) {
    cleanup();
    ex::fail("%s [%s]", m.c_str(), shown.c_str());
  };

  if (!g_spec.conflict.empty()) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL})
        signal(s, SIG_DFL);
      ex::g_in_exec = false;
      RADSimDesignContext *c = new RADSimDesignContext(0);
      vtop *t = new vtop("dut", c, clash);
      (void)t;
      _exit(77);
    }
    int st;
    waitpid(p, &st, 0);
    cleanup();
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
      ex::fail("rejection: the inconsistent file (%s) was accepted [%s]", g_spec.conflict.c_str(), shown.c_str());
    if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT)
      ex::fail("rejection: the inconsistent file (%s) crashed the simulator with signal %d [%s]",
               g_spec.conflict.c_str(), WTERMSIG(st), shown.c_str());
    ex::S->nontrivial++;
    return;
  }

  g_ctx = new RADSimDesignContext(0);
  sc_signal<bool> *rst = new sc_signal<bool>;
  vtop *top = new vtop("dut", g_ctx, false);
  top->rst(*rst);
  cleanup();
  // 4. the queries
  std::map<std::tuple<int, int, int, bool>, std::string> who;
  std::map<std::tuple<int, int, bool>, std::set<int>> ids;
  std::map<uint64_t, std::string> base;
  std::vector<std::vector<std::set<std::string>>> names(nn);
  for (int c = 0; c < nn; c++)
    names[c].resize(g_spec.nodes[c]);
  std::map<std::tuple<int, bool, bool>, std::set<int>> adapters;
  for (auto &a : g_at) {
    std::string p = a.first;
    Where w = a.second;
    auto pl = g_ctx->GetPortPlacement(p);
    if ((int)std::get<0>(pl) != w.noc || (int)std::get<1>(pl) != w.node)
      FAILX("placement: " + p + " is reported at NoC " + std::to_string(std::get<0>(pl)) + " node " +
            std::to_string(std::get<1>(pl)));
    if (g_ctx->GetPortDestinationID(p) != (unsigned)w.node)
      FAILX("placement: the destination id of " + p + " is " + std::to_string(g_ctx->GetPortDestinationID(p)));
    unsigned i = g_ctx->GetPortInterfaceID(p);
    bool slave = g_kind[p] == 'S' || g_kind[p] == 's', mm = g_kind[p] == 's' || g_kind[p] == 'm';
    if (std::get<2>(pl) != i)
      FAILX("placement: two interface ids for " + p);
    auto key = std::make_tuple(w.noc, w.node, (int)i, slave);
    if (who.count(key))
      FAILX("placement: " + p + " and " + who[key] + " share an interface id on one node");
    who[key] = p;
    ids[{w.noc, w.node, slave}].insert(i);
    names[w.noc][w.node].insert(g_mods[g_modof[p]].name);
    adapters[{w.noc, mm, slave}].insert(w.node);
    if (mm) {
      uint64_t b = g_ctx->GetPortBaseAddress(p);
      if (base.count(b))
        FAILX("placement: " + p + " and " + base[b] + " have the same base address");
      base[b] = p;
    }
  }
  for (auto &s : ids)
    if (*s.second.rbegin() != (int)s.second.size() - 1)
      FAILX("placement: the interface ids of node " + std::to_string(std::get<1>(s.first)) + " are not contiguous");
  if (g_ctx->GetNodeModuleNames() != names)
    FAILX("placement: the module names per node differ from the placement file");
  for (int c = 0; c < nn; c++)
    for (int mm = 0; mm < 2; mm++) {
      // a slave port of a module is fed by a master adapter of the NoC
      if (g_ctx->GetNumNoCMasterAdapters(c, mm) != adapters[{c, (bool)mm, true}].size() ||
          g_ctx->GetNumNoCSlaveAdapters(c, mm) != adapters[{c, (bool)mm, false}].size())
        FAILX("placement: wrong number of adapters on NoC " + std::to_string(c));
    }
  // 5. traffic
  double slowest = 0;
  for (double x : g_mper)
    slowest = std::max(slowest, x);
  for (double x : g_aper)
    slowest = std::max(slowest, x);
  rst->write(true);
  sc_start(4 * slowest + 0.3, SC_NS);
  rst->write(false);
  sc_start(4 * slowest, SC_NS);
  int probes = 0;
  for (vmod::phase = 0; vmod::phase < 2; vmod::phase++)
    for (auto &a : g_at)
      for (auto &b : g_at) {
        bool ax = g_kind[a.first] == 'M' && g_kind[b.first] == 'S' && vmod::phase == 0;
        bool mm = g_kind[a.first] == 'm' && g_kind[b.first] == 's';
        if ((!ax && !mm) || a.second.noc != b.second.noc)
          continue;
        g_script.clear();
        g_sent = g_got = g_resp = false;
        Rec r;
        r.from = a.first;
        r.to = b.first;
        g_script.push_back(r);
        double t0 = sc_time_stamp().to_seconds() * 1e9;
        while (!(g_got && (ax || g_resp)) && g_err.empty()) {
          sc_start(slowest, SC_NS);
          if (sc_time_stamp().to_seconds() * 1e9 - t0 > 400 * slowest)
            FAILX(std::string("delivery: ") + (g_got ? "the response to " : "") + a.first + " -> " + b.first +
                  (g_sent ? " never arrived" : " was never accepted"));
        }
        sc_start(3 * slowest, SC_NS);
        if (g_err.size())
          FAILX(g_err);
        Rec &q = g_script.front();
        double lat = (q.t_got - q.t_sent) / 1000.0, pa = g_aper[g_mods[g_modof[a.first]].aclk],
               pb = g_aper[g_mods[g_modof[b.first]].aclk], ma = g_mper[g_mods[g_modof[a.first]].mclk],
               mb = g_mper[g_mods[g_modof[b.first]].mclk];
        if (getenv("VERIF_VERBOSE"))
          std::cerr << "lat " << a.first << "->" << b.first << " " << lat << " a " << pa << " " << pb << " m " << ma << " "
                    << mb << "\n";
        // every clock on the way shows up in the latency, and no other one
        double lo = getenv("VERIF_VERBOSE") ? 0 : 0.9 * (pa + pb), hi = getenv("VERIF_VERBOSE") ? 1e9 : 100 + 8 * (pa + pb) + 3 * (ma + mb);
        if (lat < lo || lat > hi)
          FAILX("clock: " + a.first + " -> " + b.first + " took " + std::to_string(lat) +
                " ns, which does not fit adapter clocks of " + std::to_string(pa) + " and " + std::to_string(pb) + " ns");
        probes++;
        ex::visit(tagof(shown, a.first + b.first));
      }
  g_script.clear();
  g_got = true;
  sc_start(20 * slowest, SC_NS);
  if (g_err.size())
    FAILX(g_err);
  if (probes)
    ex::S->nontrivial++;
  ex::sample("%s -> %d port pairs probed", shown.c_str(), probes);
}

static void read_spec(const std::string &f) {
  std::ifstream in(f);
  std::string line;
  g_spec = Spec();
  g_mods.clear();
  g_modof.clear();
  g_kind.clear();
  g_spec.mode = "free";
  while (std::getline(in, line)) {
    auto t = split(line, ' ');
    if (t.empty())
      continue;
    if (t[0] == "nodes")
      for (size_t i = 1; i < t.size(); i++)
        g_spec.nodes.push_back(atoi(t[i].c_str()));
    else if (t[0] == "mode")
      g_spec.mode = t[1];
    else if (t[0] == "clocks")
      g_spec.clocks = true;
    else if (t[0] == "conflict")
      g_spec.conflict = t[1];
    else if (t[0] == "mod") { // mod NAME port:kind ...
      Mod m;
      m.name = t[1];
      for (size_t i = 2; i < t.size(); i++) {
        auto e = t[i].find(':');
        m.ports.push_back({m.name + "." + t[i].substr(0, e), t[i][e + 1]});
        g_modof[m.ports.back().name] = g_mods.size();
        g_kind[m.ports.back().name] = m.ports.back().kind;
      }
      g_mods.push_back(m);
    }
  }
}

int sc_main(int argc, char **argv) {
  Args a(argc, argv);
  ex::g_maxproc = a.i("jobs", 8);
  if (a.kv.count("replay"))
    ex::set_replay(a.s("replay") == "default" ? "" : a.s("replay"));
  for (auto &s : split(a.s("scen"), ',')) {
    auto t = split(s, ':');
    std::string root = t[0];
    read_spec(root + "/spec");
    long before = ex::S ? ex::S->execs.load() : 0;
    int budget = t.size() > 1 ? atoi(t[1].c_str()) : 1;
    bool ok = ex::explore(root, budget, [&]() { body(root); });
    printf("@scen %s budget %d execs %ld\n", root.substr(root.rfind('/') + 1).c_str(), budget,
           ex::S->execs.load() - before);
    fflush(stdout);
    if (!ok)
      break;
  }
  int rc = ex::report();
  fflush(stdout);
  _exit(rc);
}
