// Streams numbered messages between modules and checks what arrives.
// spec:  period <ns>
//        m <mod.port> <width> <type> <count> <dest,dest..> <gap,gap..>
//        s <mod.port> <width> <type> <stall,stall..>      (cycles not ready before each transfer)
#include "globals.hpp"
#include <axis_interface.hpp>
#include <deque>
#include <design_context.hpp>
#include <map>
#include <radsim_defines.hpp>
#include <radsim_module.hpp>
#include <radsim_noc.hpp>
#include <sstream>
#include <systemc.h>
#include <unistd.h>

struct P { std::string name, mod; bool m; int w, type, count; std::vector<std::string> dst; std::vector<int> pat; };
static std::vector<P> ports;
static std::vector<std::string> mods;
static double period = 5;
static std::map<std::pair<int, int>, std::deque<int>> sent; // (src,dst) -> numbers in flight
static int todo, errors;
static sc_time last;
#define BAD(...) do { printf("WRONG: " __VA_ARGS__); printf("\n"); errors++; } while (0)
static unsigned mixer(unsigned x) { x = (x ^ (x >> 15)) * 2246822519u; x = (x ^ (x >> 13)) * 3266489917u; return x ^ (x >> 16); }
template <int W> static sc_bv<W> pattern(int w, unsigned seed) {
  sc_bv<W> d; d = 0;
  for (int i = 0; i < w; i++) d[i] = bool((mixer(seed * 131 + i / 16) >> (i % 16)) & 1);
  if (w >= 8) d.range(7, 0) = seed & 255;
  return d;
}
static std::vector<std::string> cut(const std::string &s, char c) { std::vector<std::string> r; std::stringstream i(s); std::string x; while (std::getline(i, x, c)) if (x != "") r.push_back(x); return r; }

struct vmod : RADSimModule {
  sc_in<bool> rst;
  RADSimDesignContext *ctx;
  std::deque<axis_master_port> mp;
  std::deque<axis_slave_port> sp;
  std::vector<int> mi, si;
  SC_HAS_PROCESS(vmod);
  vmod(const sc_module_name &n, RADSimDesignContext *c) : RADSimModule(n, c), ctx(c) {
    for (size_t i = 0; i < ports.size(); i++)
      if (ports[i].mod == this->module_name) { if (ports[i].m) { mp.emplace_back(); mi.push_back(i); } else { sp.emplace_back(); si.push_back(i); } }
    SC_CTHREAD(Run, clk.pos());
    reset_signal_is(rst, true);
    RegisterModuleInfo();
  }
  void RegisterModuleInfo() {
    for (size_t k = 0; k < si.size(); k++) { std::string n = ports[si[k]].name; RegisterAxisSlavePort(n, &sp[k], ports[si[k]].w, ports[si[k]].type); }
    for (size_t k = 0; k < mi.size(); k++) { std::string n = ports[mi[k]].name; RegisterAxisMasterPort(n, &mp[k], ports[mi[k]].w, ports[mi[k]].type); }
  }
  static int id(int src, int seq) { return src * 1000 + seq + 1; }
  static int pdst(int src, int seq) { auto &p = ports[src]; for (size_t i = 0; i < ports.size(); i++) if (ports[i].name == p.dst[seq % p.dst.size()]) return i; return -1; }
  void Run() {
    std::vector<int> n(mi.size(), 0), gap(mi.size(), -1), rn(si.size(), 0), rg(si.size(), -1);
    std::vector<bool> busy(mi.size(), false), held(si.size(), false);
    std::vector<sc_bv<AXIS_MAX_DATAW>> hd(si.size());
    for (auto &m : mp) m.Reset();
    for (auto &s : sp) s.tready.write(false);
    wait();
    while (true) {
      for (size_t k = 0; k < mi.size(); k++) {
        P &p = ports[mi[k]];
        if (busy[k] && mp[k].tvalid.read() && mp[k].tready.read()) { busy[k] = false; n[k]++; gap[k] = -1; last = sc_time_stamp(); mp[k].tvalid.write(false); }
        if (!busy[k] && n[k] < p.count) {
          if (gap[k] < 0) gap[k] = p.pat[n[k] % p.pat.size()];
          if (gap[k]-- > 0) continue;
          int d = pdst(mi[k], n[k]), x = id(mi[k], n[k]);
          std::string dn = ports[d].name;
          sc_bv<AXIS_DESTW> td; td = 0;
          unsigned node = ctx->GetPortDestinationID(dn);
          DEST_LOCAL_NODE(td) = node; DEST_REMOTE_NODE(td) = node; DEST_RAD(td) = ctx->rad_id;
          mp[k].tdata.write(pattern<AXIS_MAX_DATAW>(p.w, x)); mp[k].tuser.write(pattern<AXIS_USERW>(AXIS_USERW, x ^ 4095));
          mp[k].tlast.write(x & 1); mp[k].tdest.write(td); mp[k].tid.write(ctx->GetPortInterfaceID(dn)); mp[k].tvalid.write(true);
          sent[{mi[k], d}].push_back(x);
          busy[k] = true;
        }
      }
      for (size_t k = 0; k < si.size(); k++) {
        P &p = ports[si[k]];
        bool v = sp[k].tvalid.read(), r = sp[k].tready.read();
        auto d = sp[k].tdata.read();
        if (held[k] && (!v || d != hd[k])) BAD("%s: transfer withdrawn or changed while it waited", p.name.c_str());
        held[k] = v && !r; hd[k] = d;
        if (v && r) {
          last = sc_time_stamp(); rn[k]++; rg[k] = -1; todo--;
          if (getenv("DEMO_SHOW")) printf("%s %s %s\n", p.name.c_str(), last.to_string().c_str(), d.to_string(SC_HEX).c_str());
          bool ok = false;
          for (auto &f : sent)
            if (f.first.second == si[k] && !f.second.empty() && !ok) {
              int x = f.second.front();
              if (sp[k].tuser.read() == pattern<AXIS_USERW>(AXIS_USERW, x ^ 4095) && d == pattern<AXIS_MAX_DATAW>(std::min(p.w, ports[f.first.first].w), x) && sp[k].tlast.read() == (x & 1)) { f.second.pop_front(); ok = true; }
            }
          if (!ok) BAD("%s received something that was not next in any flow to it (%s)", p.name.c_str(), d.to_string(SC_HEX).c_str());
        }
        if (rg[k] < 0) rg[k] = p.pat[rn[k] % p.pat.size()];
        sp[k].tready.write(rg[k] == 0);
        if (rg[k] > 0) rg[k]--;
      }
      wait();
    }
  }
};
struct vtop : sc_module {
  sc_in<bool> rst;
  vtop(const sc_module_name &n, RADSimDesignContext *c) : sc_module(n) {
    for (auto &m : mods) { auto *v = new vmod(m.c_str(), c); v->rst(rst); }
    c->BuildDesignContext("vtest.place", "vtest.clks");
    c->CreateSystemNoCs(rst);
    c->ConnectModulesToNoC();
  }
};
int sc_main(int argc, char **argv) {
  std::ifstream in("spec");
  std::string l;
  while (std::getline(in, l)) {
    auto t = cut(l, ' ');
    if (t.empty()) continue;
    if (t[0] == "period") period = atof(t[1].c_str());
    if (t[0] == "m" || t[0] == "s") {
      P p; p.name = t[1]; p.mod = cut(t[1], '.')[0]; p.m = t[0] == "m"; p.w = stoi(t[2]); p.type = stoi(t[3]); p.count = 0;
      if (p.m) { p.count = stoi(t[4]); p.dst = cut(t[5], ','); todo += p.count; }
      for (auto &x : cut(t.back(), ',')) p.pat.push_back(stoi(x));
      if (std::find(mods.begin(), mods.end(), p.mod) == mods.end()) mods.push_back(p.mod);
      ports.push_back(p);
    }
  }
  std::string knobs = "sim/radsim_knobs";
  radsim_config.ResizeAll(1);
  ParseRADSimKnobs(knobs);
  sim_log.SetLogSettings(0, "sim.log");
  auto *ctx = new RADSimDesignContext(0);
  sc_signal<bool> rst;
  auto *top = new vtop("vtop", ctx);
  top->rst(rst);
  rst.write(true);
  sc_start(10 * period + 0.3, SC_NS);
  rst.write(false);
  last = sc_time_stamp();
  while (todo > 0 && !errors) {
    sc_start(10 * period, SC_NS);
    if (sc_time_stamp() - last > sc_time(6000 * period, SC_NS)) { BAD("%d transfers never arrived", todo); break; }
  }
  sc_start(100 * period, SC_NS);
  if (todo < 0) BAD("%d transfers too many", -todo);
  auto *noc = dynamic_cast<radsim_noc *>(sc_find_object("vtop.radsim_noc_0"));
  if (noc && !errors)
    for (auto *r : noc->GetNetwork()->GetRouters())
      for (int o = 0; o < r->NumOutputs(); o++)
        if (r->GetUsedCredit(o)) BAD("router %d output %d counts %d credits in use in an idle network", r->GetID(), o, r->GetUsedCredit(o));
  printf("%s at %s\n", errors ? "FAILED" : "passed", sc_time_stamp().to_string().c_str());
  fflush(stdout);
  _exit(errors ? 1 : 0);
}
