// AXI-MM modules exchange reads and writes over the NoC; every transfer must arrive
// once, in order per channel and pair, with its fields unchanged, and stay valid until taken.
// spec: period <ns> / dataw <bits> / wearly 1 (write data may precede its address) / awdelay <cycles> / init <name> <ops> / tgt <name> / rready|bready|arready|awready|wready <stall,stall..>
#include "globals.hpp"
#include <deque>
#include <design_context.hpp>
#include <map>
#include <radsim_defines.hpp>
#include <radsim_module.hpp>
#include <radsim_noc.hpp>
#include <sstream>
#include <systemc.h>
#include <unistd.h>
enum { AR, AW, W, R, B };
static const char *N[] = {"AR", "AW", "W", "R", "B"};
typedef sc_bv<AXI4_MAX_DATAW> data_t;
struct X { int ch, src, dst, op, beat; uint64_t user = 0, addr = 0; int id = 0, len = 0, size = 0, burst = 0, resp = 0; bool last = false; unsigned seed = 0; };
struct M { std::string name; bool init; int n; };
static std::vector<M> mods;
static std::vector<uint64_t> base;
static std::map<std::string, std::vector<int>> stalls;
static double period = 5, last;
static int dataw = 512, wearly, awdelay, todo, errors;
static std::map<std::tuple<int, int, int>, std::deque<X>> wait_;
#define BAD(...) do { if (errors++ < 5) { printf("WRONG: " __VA_ARGS__); printf("\n"); } } while (0)
static unsigned mixer(unsigned x) { x = (x ^ (x >> 15)) * 2246822519u; x = (x ^ (x >> 13)) * 3266489917u; return x ^ (x >> 16); }
static data_t pat(unsigned s) { data_t d; d = 0; for (int i = 0; i < dataw; i++) d[i] = bool((mixer(s * 131 + i / 16) >> (i % 16)) & 1); return d; }
static void got(int me, X g, const data_t &d) {
  last = sc_time_stamp().to_double();
  for (auto &f : wait_) {
    if (std::get<0>(f.first) != g.ch || std::get<2>(f.first) != me || f.second.empty()) continue;
    X e = f.second.front();
    if (e.user != g.user || e.id != g.id || e.addr != g.addr || e.len != g.len || e.size != g.size || e.burst != g.burst || e.resp != g.resp || e.last != g.last) continue;
    if ((g.ch == W || g.ch == R) && pat(e.seed) != d) continue;
    f.second.pop_front();
    todo--;
    return;
  }
  BAD("%s received a %s transfer that is not the next one of any flow to it (user %lx addr %lx last %d)", mods[me].name.c_str(), N[g.ch], (long)g.user, (long)g.addr, g.last);
}
struct Tx { std::deque<X> q; bool busy = false; int wait = 0; };
struct Rx { int st = -1, n = 0; bool held = false; X h; data_t d; };
template <class D, class V> static void tx(Tx &t, bool fired, D drive, V valid, int delay = 0) {
  if (fired) t.wait = delay;
  else if (t.wait > 0) t.wait--;
  if (t.busy && fired) { t.q.pop_front(); t.busy = false; valid(false); last = sc_time_stamp().to_double(); }
  if (!t.busy && !t.q.empty() && t.wait <= 0) { X &x = t.q.front(); wait_[std::make_tuple(x.ch, x.src, x.dst)].push_back(x); drive(x); valid(true); t.busy = true; }
}
static bool rx(int me, Rx &r, bool v, bool rdy, const X &c, const data_t &d) {
  if (r.held && (!v || r.h.user != c.user || r.h.addr != c.addr || r.h.last != c.last || r.d != d)) BAD("%s at %s withdrawn or changed before it was accepted", N[c.ch], mods[me].name.c_str());
  r.held = v && !rdy; r.h = c; r.d = d;
  if (v && rdy) { r.n++; r.st = -1; return true; }
  return false;
}
static bool ready(Rx &r, const char *n) {
  auto &s = stalls[n];
  if (r.st < 0) r.st = s.empty() ? 0 : s[r.n % s.size()];
  return r.st == 0 || (r.st--, false);
}
struct vmod : RADSimModule {
  sc_in<bool> rst;
  int me;
  aximm_master_port *mp = nullptr;
  aximm_slave_port *sp = nullptr;
  SC_HAS_PROCESS(vmod);
  vmod(const sc_module_name &n, RADSimDesignContext *c, int i) : RADSimModule(n, c), me(i) {
    if (mods[me].init) mp = new aximm_master_port; else sp = new aximm_slave_port;
    if (mods[me].init) { SC_CTHREAD(I, clk.pos()); } else { SC_CTHREAD(T, clk.pos()); }
    reset_signal_is(rst, true);
    RegisterModuleInfo();
  }
  void RegisterModuleInfo() { std::string n = mods[me].name + ".p"; if (mp) RegisterAximmMasterPort(n, mp, dataw); else RegisterAximmSlavePort(n, sp, dataw); }
  X mk(int ch, int dst, int op, int beat) {
    X x; x.ch = ch; x.src = me; x.dst = dst; x.op = op; x.beat = beat;
    unsigned h = mixer(me * 100003 + op * 7919 + ch * 10729 + beat);
    x.id = h & ((1 << AXI4_IDW) - 1); x.seed = h;
    return x;
  }
  void I() {
    mp->Reset();
    Tx ar, aw, w; Rx r, b;
    std::deque<X> data;
    std::vector<int> t;
    for (size_t i = 0; i < mods.size(); i++) if (!mods[i].init) t.push_back(i);
    for (int op = 0; op < mods[me].n; op++) {
      int d = t[(me + op / 2) % t.size()], nb = 1 + op % 3;
      X x = mk(op % 2 ? AW : AR, d, op, nb);
      x.user = base[me] | (me << 16) | (op + 1);
      x.addr = base[d] | ((op * 0x10204081ull) & 0xffffffffffull);
      x.len = nb - 1; x.size = op % 7; x.burst = op % 3;
      (op % 2 ? aw : ar).q.push_back(x);
      if (op % 2) for (int k = 0; k < nb; k++) { X y = mk(W, d, op, k); y.user = x.user; y.last = k == nb - 1; (wearly ? w.q : data).push_back(y); }
    }
    wait();
    for (;; wait()) {
      tx(ar, mp->arvalid.read() && mp->arready.read(), [&](X &x) { mp->arid.write(x.id); mp->araddr.write(x.addr); mp->arlen.write(x.len); mp->arsize.write(x.size); mp->arburst.write(x.burst); mp->aruser.write(x.user); }, [&](bool v) { mp->arvalid.write(v); });
      bool faw = mp->awvalid.read() && mp->awready.read();
      if (faw) while (!data.empty() && data.front().op == aw.q.front().op) { w.q.push_back(data.front()); data.pop_front(); }
      tx(aw, faw, [&](X &x) { mp->awid.write(x.id); mp->awaddr.write(x.addr); mp->awlen.write(x.len); mp->awsize.write(x.size); mp->awburst.write(x.burst); mp->awuser.write(x.user); }, [&](bool v) { mp->awvalid.write(v); }, awdelay);
      tx(w, mp->wvalid.read() && mp->wready.read(), [&](X &x) { mp->wid.write(x.id); mp->wdata.write(pat(x.seed)); mp->wlast.write(x.last); mp->wuser.write(x.user); }, [&](bool v) { mp->wvalid.write(v); });
      X c; c.ch = R; c.user = mp->ruser.read().to_uint64(); c.id = mp->rid.read().to_uint(); c.resp = mp->rresp.read().to_uint(); c.last = mp->rlast.read();
      data_t d = mp->rdata.read();
      if (rx(me, r, mp->rvalid.read(), mp->rready.read(), c, d)) got(me, c, d);
      mp->rready.write(ready(r, "rready"));
      X e; e.ch = B; e.user = mp->buser.read().to_uint64(); e.id = mp->bid.read().to_uint(); e.resp = mp->bresp.read().to_uint();
      data_t n;
      if (rx(me, b, mp->bvalid.read(), mp->bready.read(), e, n)) got(me, e, n);
      mp->bready.write(ready(b, "bready"));
    }
  }
  int src(uint64_t user) { return (user >> 16) & 15; }
  void T() {
    sp->Reset();
    Rx ar, aw, w; Tx r, b;
    wait();
    for (;; wait()) {
      bool fr = sp->rvalid.read() && sp->rready.read(), fb = sp->bvalid.read() && sp->bready.read();
      data_t n;
      X c; c.ch = AR; c.user = sp->aruser.read().to_uint64(); c.id = sp->arid.read().to_uint(); c.addr = sp->araddr.read().to_uint64(); c.len = sp->arlen.read().to_uint(); c.size = sp->arsize.read().to_uint(); c.burst = sp->arburst.read().to_uint();
      if (rx(me, ar, sp->arvalid.read(), sp->arready.read(), c, n)) {
        got(me, c, n);
        for (int k = 0; k <= c.len; k++) { X x = mk(R, src(c.user), c.user & 65535, k + 50); x.user = c.user; x.resp = k & 3; x.last = k == c.len; r.q.push_back(x); }
      }
      sp->arready.write(ready(ar, "arready"));
      X a; a.ch = AW; a.user = sp->awuser.read().to_uint64(); a.id = sp->awid.read().to_uint(); a.addr = sp->awaddr.read().to_uint64(); a.len = sp->awlen.read().to_uint(); a.size = sp->awsize.read().to_uint(); a.burst = sp->awburst.read().to_uint();
      if (rx(me, aw, sp->awvalid.read(), sp->awready.read(), a, n)) got(me, a, n);
      sp->awready.write(ready(aw, "awready"));
      X e; e.ch = W; e.user = sp->wuser.read().to_uint64(); e.id = sp->wid.read().to_uint(); e.last = sp->wlast.read();
      data_t d = sp->wdata.read();
      if (rx(me, w, sp->wvalid.read(), sp->wready.read(), e, d)) {
        got(me, e, d);
        if (e.last) { X x = mk(B, src(e.user), e.user & 65535, 90); x.user = e.user; x.resp = e.user & 3; b.q.push_back(x); }
      }
      sp->wready.write(ready(w, "wready"));
      tx(r, fr, [&](X &x) { sp->rid.write(x.id); sp->rdata.write(pat(x.seed)); sp->rresp.write(x.resp); sp->rlast.write(x.last); sp->ruser.write(x.user); }, [&](bool v) { sp->rvalid.write(v); });
      tx(b, fb, [&](X &x) { sp->bid.write(x.id); sp->bresp.write(x.resp); sp->buser.write(x.user); }, [&](bool v) { sp->bvalid.write(v); });
    }
  }
};
struct vtop : sc_module {
  sc_in<bool> rst;
  vtop(const sc_module_name &n, RADSimDesignContext *c) : sc_module(n) {
    for (size_t i = 0; i < mods.size(); i++) { auto *v = new vmod(mods[i].name.c_str(), c, i); v->rst(rst); }
    c->BuildDesignContext("vtest.place", "vtest.clks");
    c->CreateSystemNoCs(rst);
    c->ConnectModulesToNoC();
    for (auto &m : mods) { std::string p = m.name + ".p"; base.push_back(c->GetPortBaseAddress(p)); }
  }
};
int sc_main(int argc, char **argv) {
  std::ifstream in("spec");
  std::string l, k, a;
  while (std::getline(in, l)) {
    std::stringstream s(l);
    s >> k;
    if (k == "period") s >> period;
    else if (k == "dataw") s >> dataw;
    else if (k == "wearly") s >> wearly;
    else if (k == "awdelay") s >> awdelay;
    else if (k == "init") { M m; m.init = true; s >> m.name >> m.n; mods.push_back(m); }
    else if (k == "tgt") { M m; m.init = false; s >> m.name; mods.push_back(m); }
    else { s >> a; std::stringstream t(a); std::string v; while (std::getline(t, v, ',')) stalls[k].push_back(stoi(v)); }
  }
  for (auto &m : mods)
    if (m.init)
      for (int op = 0; op < m.n; op++) todo += op % 2 ? 2 + 1 + op % 3 : 1 + 1 + op % 3;
  radsim_config.ResizeAll(1);
  ParseRADSimKnobs("sim/radsim_knobs");
  sim_log.SetLogSettings(0, "sim.log");
  auto *ctx = new RADSimDesignContext(0);
  sc_signal<bool> rst;
  auto *top = new vtop("vtop", ctx);
  top->rst(rst);
  rst.write(true);
  sc_start(10 * period + 0.3, SC_NS);
  rst.write(false);
  last = sc_time_stamp().to_double();
  while (todo > 0 && !errors) {
    sc_start(10 * period, SC_NS);
    if (sc_time_stamp().to_double() - last > sc_time(6000 * period, SC_NS).to_double()) { BAD("%d transfers never arrived", todo); break; }
  }
  sc_start(200 * period, SC_NS);
  if (todo < 0) BAD("%d transfers too many", -todo);
  printf("%s at %s\n", errors ? "FAILED" : "passed", sc_time_stamp().to_string().c_str());
  fflush(stdout);
  _exit(errors ? 1 : 0);
}
