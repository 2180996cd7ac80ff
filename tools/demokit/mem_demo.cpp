// Drives a mem_controller's AXI-MM ports and checks responses against a plain memory.
// spec: period <ns> / warm <cycles> / bstall a,b.. / rstall a,b..
//       op <W|R> <channel> <word> <beats> <wait>      wait=1: wait for everything before it
#include "globals.hpp"
#include <deque>
#include <design_context.hpp>
#include <map>
#include <mem_controller.hpp>
#include <radsim_module.hpp>
#include <sstream>
#include <systemc.h>
#include <unistd.h>
typedef sc_bv<AXI4_MAX_DATAW> data_t;
static int errors, ndone;
#define BAD(...) do { if (errors++ < 5) { printf("WRONG: " __VA_ARGS__); printf("\n"); } } while (0)
struct Op { char k; int ch; uint64_t word; int len, fence; int idx, user, rx = 0; bool addr = false, done = false; int wacc = 0; std::vector<int> lo; };
static std::vector<Op> ops;
static std::map<std::pair<int, uint64_t>, std::vector<int>> writes; // word -> op indices, in issue order
static std::map<std::pair<int, uint64_t>, int> seen;
static int wsz, wsize; // bytes per word, log2
static std::vector<int> bst = {0}, rst_ = {0};
static double last, tnow;
static data_t val(int op, int beat) { data_t d; d = 0; unsigned x = op * 977 + beat * 13 + 1; for (int i = 0; i < wsz * 8; i++) { if (i % 16 == 0) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; } d[i] = bool((x >> (i % 16)) & 1); } return d; }
static data_t valat(int op, uint64_t word) { return val(op, word - ops[op].word); }
struct drv : sc_module {
  sc_in<bool> clk, rst;
  sc_vector<aximm_master_port> tx;
  struct S { std::deque<int> aw, ar, b, r; std::deque<std::pair<int, int>> w; int bs = -1, rs = -1, nb = 0, nr = 0; bool rh = false, bh = false; data_t rd; uint64_t ru, bu; };
  std::vector<S> st;
  size_t next = 0;
  SC_HAS_PROCESS(drv);
  drv(const sc_module_name &n, int ch) : sc_module(n), tx("tx", ch), st(ch) { SC_CTHREAD(run, clk.pos()); reset_signal_is(rst, true); }
  void run() {
    for (auto &p : tx) { p.awvalid.write(false); p.wvalid.write(false); p.arvalid.write(false); p.bready.write(false); p.rready.write(false); }
    wait();
    for (;; wait()) {
      tnow = sc_time_stamp().to_double();
      while (next < ops.size()) {
        Op &o = ops[next];
        if (o.fence && ndone < (int)next) break;
        S &s = st[o.ch];
        if (o.k == 'W') { s.aw.push_back(next); s.b.push_back(next); for (int k = 0; k < o.len; k++) { s.w.push_back({(int)next, k}); writes[{o.ch, o.word + k}].push_back(next); } }
        else { s.ar.push_back(next); s.r.push_back(next); }
        next++;
      }
      for (size_t c = 0; c < st.size(); c++) {
        S &s = st[c];
        auto &p = tx[c];
        if (p.awvalid.read() && p.awready.read()) { ops[s.aw.front()].addr = true; s.aw.pop_front(); last = tnow; }
        if (!s.aw.empty()) { Op &o = ops[s.aw.front()]; p.awaddr.write(o.word * wsz); p.awlen.write(o.len - 1); p.awsize.write(wsize); p.awburst.write(1); p.awuser.write(o.user); }
        p.awvalid.write(!s.aw.empty());
        if (p.wvalid.read() && p.wready.read()) { ops[s.w.front().first].wacc++; s.w.pop_front(); last = tnow; }
        bool v = !s.w.empty() && ops[s.w.front().first].addr;
        if (v) { Op &o = ops[s.w.front().first]; p.wdata.write(val(o.idx, s.w.front().second)); p.wlast.write(s.w.front().second == o.len - 1); p.wuser.write(o.user); }
        p.wvalid.write(v);
        if (p.arvalid.read() && p.arready.read()) {
          Op &o = ops[s.ar.front()];
          o.addr = true;
          for (int k = 0; k < o.len; k++) { auto key = std::make_pair(o.ch, o.word + k); int lo = seen.count(key) ? seen[key] : -1; auto &w = writes[key]; for (size_t i = 0; i < w.size(); i++) if (ops[w[i]].done) lo = std::max(lo, (int)i); o.lo.push_back(lo); }
          s.ar.pop_front(); last = tnow;
        }
        if (!s.ar.empty()) { Op &o = ops[s.ar.front()]; p.araddr.write(o.word * wsz); p.arlen.write(o.len - 1); p.arsize.write(wsize); p.arburst.write(1); p.aruser.write(o.user); }
        p.arvalid.write(!s.ar.empty());
        uint64_t bu = p.buser.read().to_uint64(), ru = p.ruser.read().to_uint64();
        data_t d = p.rdata.read();
        if (s.bh && (!p.bvalid.read() || bu != s.bu)) BAD("write response withdrawn or changed");
        if (s.rh && (!p.rvalid.read() || ru != s.ru || d != s.rd)) BAD("read response withdrawn or changed");
        s.bh = p.bvalid.read() && !p.bready.read(); s.bu = bu;
        s.rh = p.rvalid.read() && !p.rready.read(); s.ru = ru; s.rd = d;
        if (p.bvalid.read() && p.bready.read()) {
          if (s.b.empty() || ops[s.b.front()].wacc < ops[s.b.front()].len) BAD("write response without a complete write");
          else { Op &o = ops[s.b.front()]; if (bu != (uint64_t)o.user) BAD("write response carries user %d instead of %d", (int)bu, o.user); o.done = true; ndone++; s.b.pop_front(); last = tnow; s.bs = -1; }
        }
        if (p.rvalid.read() && p.rready.read()) {
          if (s.r.empty() || !ops[s.r.front()].addr) BAD("read beat without a read");
          else {
            Op &o = ops[s.r.front()];
            if (ru != (uint64_t)o.user) BAD("read beat carries user %d instead of %d", (int)ru, o.user);
            if (p.rlast.read() != (o.rx == o.len - 1)) BAD("beat %d of %d has last=%d", o.rx, o.len, (int)p.rlast.read());
            auto key = std::make_pair(o.ch, o.word + o.rx);
            auto &w = writes[key];
            bool ok = false;
            for (int i = (int)w.size() - 1; i >= std::max(0, o.lo[o.rx]) && !ok; i--) if (d == valat(w[i], key.second)) { ok = true; seen[key] = std::max(seen.count(key) ? seen[key] : -1, i); }
            data_t z; z = 0;
            if (!ok && o.lo[o.rx] < 0 && d == z) ok = true;
            if (!ok) BAD("op %d beat %d: wrong data for channel %d word %ld", o.idx, o.rx, o.ch, (long)key.second);
            if (++o.rx == o.len) { o.done = true; ndone++; s.r.pop_front(); }
            last = tnow; s.rs = -1;
          }
        }
        if (s.bs < 0) s.bs = bst[s.nb++ % bst.size()];
        p.bready.write(s.bs == 0); if (s.bs > 0) s.bs--;
        if (s.rs < 0) s.rs = rst_[s.nr++ % rst_.size()];
        p.rready.write(s.rs == 0); if (s.rs > 0) s.rs--;
      }
    }
  }
};
static std::vector<int> list(const std::string &s) { std::vector<int> r; std::stringstream i(s); std::string x; while (std::getline(i, x, ',')) r.push_back(stoi(x)); return r; }
int sc_main(int argc, char **argv) {
  std::ifstream in("spec");
  std::string l, k;
  double period = 3.32;
  int warm = 0;
  while (std::getline(in, l)) {
    std::stringstream s(l);
    s >> k;
    std::string x;
    if (k == "period") s >> period;
    if (k == "warm") s >> warm;
    if (k == "bstall") { s >> x; bst = list(x); }
    if (k == "rstall") { s >> x; rst_ = list(x); }
    if (k == "op") { Op o; s >> o.k >> o.ch >> o.word >> o.len >> o.fence; o.idx = ops.size(); o.user = 5 + 3 * o.idx; ops.push_back(o); }
  }
  radsim_config.ResizeAll(1);
  ParseRADSimKnobs("sim/radsim_knobs");
  sim_log.SetLogSettings(0, "sim.log");
  auto *ctx = new RADSimDesignContext(0);
  static sc_signal<bool> rs("rs");
  static sc_clock clk("vclk", period, SC_NS), mclk("vmclk", period / 4, SC_NS);
  auto *dut = new mem_controller("mem", 0, ctx);
  int nch = dut->GetNumChannels();
  wsz = dut->GetAddressableWordSize();
  while ((1 << wsize) < wsz) wsize++;
  for (auto &o : ops) if (o.ch < 0) o.ch += nch;
  auto *d = new drv("drv", nch);
  sc_vector<aximm_signal> sig;
  sig.init(nch);
  dut->clk(clk); dut->mem_clk(mclk); dut->rst(rs); d->clk(clk); d->rst(rs);
  for (int c = 0; c < nch; c++) sig[c].Connect(d->tx[c], dut->mem_channels[c]);
  rs.write(true);
  sc_start(5 * period + 0.3, SC_NS);
  rs.write(false);
  sc_start(warm * period, SC_NS);
  last = sc_time_stamp().to_double();
  while (ndone < (int)ops.size() && !errors) {
    sc_start(20 * period, SC_NS);
    if (sc_time_stamp().to_double() - last > sc_time(8000 * period, SC_NS).to_double()) { BAD("%d operations never answered", (int)ops.size() - ndone); break; }
  }
  sc_start(100 * period, SC_NS);
  printf("%s, %d operations\n", errors ? "FAILED" : "passed", ndone);
  fflush(stdout);
  _exit(errors ? 1 : 0);
}
