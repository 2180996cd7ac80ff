// P20: environment for one module of an example design, without a NoC.  The
// module's AXI ports are bound to plain wires; the harness plays every other
// module, one clock cycle at a time, from sc_main.
#pragma once
#include "hutil.hpp"
#include <algorithm>
#include <aximm_interface.hpp>
#include <axis_interface.hpp>
#include <deque>
#include <design_context.hpp>
#include <functional>
#include <radsim_config.hpp>
#include <radsim_module.hpp>
#include <radsim_telemetry.hpp>
#include <sys/stat.h>
#include <systemc.h>

namespace de {
inline std::string g_root, g_dir;
inline RADSimDesignContext *g_ctx;
inline pid_t g_main;
inline std::vector<std::string> g_place, g_clks;
inline std::vector<std::string> g_files;
inline const double P = 5.0; // clock period of the modules

inline unsigned g_rad;
inline pid_t g_dirpid = 0;
// a scratch design directory for this process, which is also its cwd
inline void own_dir() {
  static int n = 0;
  g_dirpid = getpid();
  g_dir = g_root + "/run" + std::to_string(g_main) + "_" + std::to_string(getpid()) + "_" + std::to_string(n++);
  mkdir(g_dir.c_str(), 0755);
  if (chdir(g_dir.c_str()) != 0)
    ex::fail("harness: no scratch directory");
  radsim_config.AddStringKnobPerRad("radsim_user_design_root_dir", g_dir, g_rad);
  g_files.clear();
}
// a file of this execution (no other execution sees it)
inline void put(const std::string &name, const std::string &text) {
  if (g_dirpid != getpid())
    own_dir();
  std::string p = g_dir + "/" + name;
  for (size_t i = g_dir.size() + 1; i < p.size(); i++)
    if (p[i] == '/')
      mkdir(p.substr(0, i).c_str(), 0755);
  std::ofstream(p) << text;
  g_files.push_back(p);
}

inline void fresh(const std::string &root, unsigned rad = 0) {
  g_root = root;
  g_rad = rad;
  radsim_config.ResizeAll(2);
  ParseRADSimKnobs(root + "/sim/radsim_knobs");
  sim_log.SetLogSettings(0, root + "/sim.log");
  own_dir();
  g_ctx = new RADSimDesignContext(rad);
}
inline void cleanup(const std::string &root) { // once every execution has ended
  if (root.empty() || !g_main)
    return;
  std::string c = "rm -rf " + root + "/run" + std::to_string(g_main) + "_*";
  if (system(c.c_str()) != 0)
    return;
}

// a module that only exists so that the design can address its ports
struct stub : public RADSimModule {
  std::vector<std::pair<std::string, char>> names;
  stub(const std::string &n, const std::vector<std::pair<std::string, char>> &p)
      : RADSimModule(n.c_str(), g_ctx), names(p) {
    RegisterModuleInfo();
  }
  void RegisterModuleInfo() {
    _num_noc_axis_slave_ports = _num_noc_axis_master_ports = 0;
    _num_noc_aximm_slave_ports = _num_noc_aximm_master_ports = 0;
    for (auto &p : names) {
      std::string n = p.first;
      if (p.second == 'S')
        RegisterAxisSlavePort(n, nullptr, 32, 0);
      else if (p.second == 's')
        RegisterAximmSlavePort(n, nullptr, 32);
      else if (p.second == 'm')
        RegisterAximmMasterPort(n, nullptr, 32);
    }
  }
};
inline void add_stub(const std::string &mod, const std::vector<std::pair<std::string, char>> &ports, int &node) {
  new stub(mod, ports);
  g_clks.push_back(mod + " 0 0");
  for (auto &p : ports)
    g_place.push_back(p.first + " 0 " + std::to_string(node++) + " " + (p.second == 'S' ? "axis" : "aximm"));
}
inline void build() {
  std::string a, b;
  for (auto &l : g_place)
    a += l + "\n";
  for (auto &l : g_clks)
    b += l + "\n";
  put("d.place", a);
  put("d.clks", b);
  g_ctx->BuildDesignContext("d.place", "d.clks");
  for (auto &f : g_files) // everything has been read
    unlink(f.c_str());
  g_files.clear();
}

inline void bind(axis_master_port &m, axis_signal &w) {
  m.tvalid(w.tvalid), m.tready(w.tready), m.tdata(w.tdata), m.tstrb(w.tstrb), m.tkeep(w.tkeep), m.tlast(w.tlast);
  m.tid(w.tid), m.tdest(w.tdest), m.tuser(w.tuser);
}
inline void bind(axis_slave_port &m, axis_signal &w) {
  m.tvalid(w.tvalid), m.tready(w.tready), m.tdata(w.tdata), m.tstrb(w.tstrb), m.tkeep(w.tkeep), m.tlast(w.tlast);
  m.tid(w.tid), m.tdest(w.tdest), m.tuser(w.tuser);
}
inline void bind(aximm_master_port &m, aximm_signal &w) {
  m.awvalid(w.awvalid), m.awready(w.awready), m.awid(w.awid), m.awaddr(w.awaddr), m.awlen(w.awlen), m.awsize(w.awsize);
  m.awburst(w.awburst), m.awuser(w.awuser), m.wvalid(w.wvalid), m.wready(w.wready), m.wid(w.wid), m.wdata(w.wdata);
  m.wlast(w.wlast), m.wuser(w.wuser), m.bvalid(w.bvalid), m.bready(w.bready), m.bid(w.bid), m.bresp(w.bresp);
  m.buser(w.buser), m.arvalid(w.arvalid), m.arready(w.arready), m.arid(w.arid), m.araddr(w.araddr), m.arlen(w.arlen);
  m.arsize(w.arsize), m.arburst(w.arburst), m.aruser(w.aruser), m.rvalid(w.rvalid), m.rready(w.rready), m.rid(w.rid);
  m.rdata(w.rdata), m.rresp(w.rresp), m.rlast(w.rlast), m.ruser(w.ruser);
}

// One clock cycle: apply() writes the inputs, everything settles, look() reads
// the settled values that the next clock edge will see.
inline long g_cycle = 0;
template <class A, class L> void cycle(A apply, L look) {
  apply();
  sc_start(1, SC_NS);
  look();
  sc_start(P - 1, SC_NS);
  g_cycle++;
  ex::S->transitions++;
}
inline void start() { sc_start(1, SC_NS); }

// what a master may not do: change an offered transfer before it is accepted
struct AxisWatch {
  bool pend = false;
  std::string last;
  static std::string show(axis_signal &w) {
    return w.tdata.read().to_string() + "/" + w.tdest.read().to_string() + "/" + w.tuser.read().to_string() + "/" +
           w.tid.read().to_string() + (w.tlast.read() ? "/L" : "/-");
  }
  // returns true when a transfer is accepted at the coming edge
  bool look(axis_signal &w, const char *who) {
    bool v = w.tvalid.read(), r = w.tready.read();
    std::string now = v ? show(w) : "";
    if (pend && !v)
      ex::fail("%s withdrew an offered transfer before it was accepted (cycle %ld)", who, g_cycle);
    if (pend && now != last)
      ex::fail("%s changed an offered transfer before it was accepted (cycle %ld)", who, g_cycle);
    pend = v && !r;
    last = now;
    return v && r;
  }
};

// runs f in a process of its own: 0..255 exit status, 256+signal
inline int in_child(const std::function<void()> &f) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL})
      signal(s, SIG_DFL);
    ex::g_in_exec = false;
    f();
    _exit(77);
  }
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  return WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st);
}

inline int run(int argc, char **argv, const std::function<void(const std::string &kind, const std::string &root)> &body) {
  Args a(argc, argv);
  mute();
  g_main = getpid();
  ex::g_maxproc = a.i("jobs", 8);
  if (a.kv.count("replay"))
    ex::set_replay(a.s("replay") == "default" ? "" : a.s("replay"));
  std::vector<std::string> lines;
  for (auto &s : split(a.s("scen"), ',')) { // ROOT:BUDGET:KIND
    auto t = split(s, ':');
    long before = ex::S ? ex::S->execs.load() : 0;
    bool ok = ex::explore(t[0] + ":" + t[1] + ":" + t[2], atoi(t[1].c_str()), [&]() { body(t[2], t[0]); });
    cleanup(t[0]);
    lines.push_back("@scen " + t[2] + " budget " + t[1] + " execs " + std::to_string(ex::S->execs.load() - before));
    if (!ok)
      break;
  }
  unmute();
  for (auto &l : lines)
    printf("%s\n", l.c_str());
  int rc = ex::report();
  fflush(stdout);
  _exit(rc);
}
} // namespace de
