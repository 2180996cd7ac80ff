// Memory controller + DRAMsim3 (both real), driven over its AXI-MM ports by
// every short program of read/write bursts and every stall schedule within
// the deviation budget.  Oracle: an acknowledgement-ordered memory.
#include "hutil.hpp"
#include <deque>
#include <design_context.hpp>
#include <map>
#include <mem_controller.hpp>
#include <radsim_config.hpp>
#include <radsim_module.hpp>
#include <systemc.h>

static std::string g_prop;
#define P09 (g_prop == "P09" || g_prop == "all")
#define P10 (g_prop == "P10" || g_prop == "all")
#define FAIL(cond, ...)                                                                            \
  do {                                                                                             \
    if (cond)                                                                                      \
      ex::fail(__VA_ARGS__);                                                                       \
    ex::S->execs++;                                                                                \
    ex::finish_process(0);                                                                         \
  } while (0)

typedef sc_bv<AXI4_MAX_DATAW> data_t;
struct OpT { // alphabet letter
  char kind;
  int ch;
  uint64_t addr;
  int len;
};
struct Spec {
  double period;
  int nops, warm, word, size, queue, init, tail;
  bool fences, runahead, allbits;
  std::vector<OpT> alpha;
  std::vector<std::vector<int>> fixed; // fixed programs (alphabet indices) instead of all of them
  std::vector<int> is, ws, rs;
  int horizon;
};
static Spec g;
static int g_nch;

struct Wr { // one written word
  uint64_t seed;
  int order;
  bool acc_aw = false, acc_w = false, acked = false;
};
struct Op {
  OpT t;
  int idx;
  uint64_t user;
  bool fence;
  // progress
  int beats_acc = 0, beats_rx = 0;
  bool addr_acc = false, done = false;
  std::vector<int> lower; // per read beat: index of the oldest admissible write (-1: initial)
};
struct WordHist {
  std::vector<Wr> w;
  int seen = -1;
};
static std::vector<Op> g_ops;
static std::map<std::pair<int, uint64_t>, WordHist> g_mem;
static std::map<std::pair<int, uint64_t>, uint64_t> g_init; // initial content seeds
static long g_last, g_cycle;
static int g_done;
static uint64_t g_hist = 1;
static data_t data_of(uint64_t seed) {
  data_t d;
  d = 0;
  if (seed)
    fill_pattern(d, g.word * 8, seed);
  return d;
}
static uint64_t seed_of(int op, int beat) { return 1000 + op * 64 + beat; }
static std::string show(const Op &o) {
  char b[120];
  snprintf(b, sizeof b, "op %d (%s channel %d address %#lx, %d beats)", o.idx, o.t.kind == 'W' ? "write" : "read",
           o.t.ch, (unsigned long)o.t.addr, o.t.len);
  return b;
}
static void ev(uint64_t h) {
  g_last = g_cycle;
  g_hist = hmix(g_hist ^ hmix(h) ^ (uint64_t)g_cycle * 131);
  ex::visit(g_hist);
  ex::S->transitions++;
}
static int stall(const std::vector<int> &o, int n) { return n < g.horizon ? o[ex::choose(o.size())] : 0; }

struct drv : public sc_module {
  sc_in<bool> clk;
  sc_in<bool> rst;
  sc_vector<aximm_master_port> tx;
  struct ChSt {
    std::deque<int> aw, ar, b, r; // op indices
    std::deque<std::pair<int, int>> w;
    int aws = -1, ars = -1, wst = -1, bst = -1, rst_ = -1, nb = 0, nr = 0;
    bool bheld = false, rheld = false;
    data_t rd;
    uint64_t bu = 0, ru = 0;
    bool rl = false;
  };
  std::vector<ChSt> st;
  size_t next = 0; // next op to issue
  SC_HAS_PROCESS(drv);
  drv(const sc_module_name &n, int nch) : sc_module(n), tx("tx", nch), st(nch) {
    SC_CTHREAD(run, clk.pos());
    reset_signal_is(rst, true);
  }
  void issue() {
    while (next < g_ops.size()) {
      Op &o = g_ops[next];
      if (o.fence)
        for (size_t i = 0; i < next; i++)
          if (!g_ops[i].done)
            return;
      ChSt &c = st[o.t.ch];
      if (o.t.kind == 'W') {
        c.aw.push_back(next);
        c.b.push_back(next);
        for (int k = 0; k < o.t.len; k++)
          c.w.push_back({(int)next, k});
        for (int k = 0; k < o.t.len; k++)
          g_mem[{o.t.ch, o.t.addr + k * g.word}].w.push_back({seed_of(o.idx, k), o.idx});
      } else {
        c.ar.push_back(next);
        c.r.push_back(next);
      }
      next++;
    }
  }
  void read_beat(Op &o, int k, const data_t &d) {
    uint64_t a = o.t.addr + k * g.word;
    WordHist &h = g_mem[{o.t.ch, a}];
    int lo = o.lower[k];
    for (int i = (int)h.w.size() - 1; i >= lo && i >= 0; i--)
      if (data_of(h.w[i].seed) == d) {
        if (!h.w[i].acc_aw || !h.w[i].acc_w)
          FAIL(P09, "data: %s beat %d returns data of a write that was not accepted yet", show(o).c_str(), k);
        h.seen = std::max(h.seen, i);
        return;
      }
    uint64_t ini = g_init.count({o.t.ch, a}) ? g_init[{o.t.ch, a}] : 0;
    if (lo < 0 && d == data_of(ini))
      return;
    // explain
    std::string what = "a value that was never written anywhere";
    if (d == data_of(ini))
      what = "the initial content";
    for (auto &x : g_mem)
      for (size_t i = 0; i < x.second.w.size(); i++)
        if (data_of(x.second.w[i].seed) == d)
          what = (x.first.first == o.t.ch && x.first.second == a)
                     ? "an older value"
                     : "the data of channel " + std::to_string(x.first.first) + " address " + std::to_string(x.first.second);
    for (auto &x : g_init)
      if (data_of(x.second) == d && !(x.first.first == o.t.ch && x.first.second == a))
        what = "the initial content of channel " + std::to_string(x.first.first) + " address " + std::to_string(x.first.second);
    FAIL(P09, "data: %s beat %d returns %s", show(o).c_str(), k, what.c_str());
  }
  void run() {
    for (int c = 0; c < g_nch; c++) {
      tx[c].awvalid.write(false);
      tx[c].wvalid.write(false);
      tx[c].arvalid.write(false);
      tx[c].bready.write(false);
      tx[c].rready.write(false);
    }
    wait();
    while (true) {
      g_cycle++;
      issue();
      for (int c = 0; c < g_nch; c++) {
        ChSt &s = st[c];
        auto &p = tx[c];
        // ---- address write
        if (p.awvalid.read() && p.awready.read()) {
          Op &o = g_ops[s.aw.front()];
          o.addr_acc = true;
          for (int k = 0; k < o.t.len; k++)
            for (auto &w : g_mem[{c, o.t.addr + k * g.word}].w)
              if (w.order == o.idx)
                w.acc_aw = true;
          s.aw.pop_front();
          s.aws = -1;
          ev(1);
        }
        if (!s.aw.empty() && s.aws < 0)
          s.aws = stall(g.is, s.aw.front());
        bool v = !s.aw.empty() && s.aws == 0;
        if (s.aws > 0)
          s.aws--;
        if (v) {
          Op &o = g_ops[s.aw.front()];
          p.awaddr.write(o.t.addr);
          p.awlen.write(o.t.len - 1);
          p.awsize.write(g.size);
          p.awburst.write(1);
          p.awid.write(o.idx & 3);
          p.awuser.write(o.user);
        }
        p.awvalid.write(v);
        // ---- write data
        if (p.wvalid.read() && p.wready.read()) {
          Op &o = g_ops[s.w.front().first];
          o.beats_acc++;
          for (auto &w : g_mem[{c, o.t.addr + s.w.front().second * g.word}].w)
            if (w.order == o.idx && w.seed == seed_of(o.idx, s.w.front().second))
              w.acc_w = true;
          s.w.pop_front();
          s.wst = -1;
          ev(2);
        }
        if (!s.w.empty() && s.wst < 0)
          s.wst = stall(g.ws, s.w.front().first);
        v = !s.w.empty() && s.wst == 0 && (g.runahead || g_ops[s.w.front().first].addr_acc);
        if (s.wst > 0)
          s.wst--;
        if (v) {
          Op &o = g_ops[s.w.front().first];
          p.wdata.write(data_of(seed_of(o.idx, s.w.front().second)));
          p.wlast.write(s.w.front().second == o.t.len - 1);
          p.wuser.write(o.user);
        }
        p.wvalid.write(v);
        // ---- address read
        if (p.arvalid.read() && p.arready.read()) {
          Op &o = g_ops[s.ar.front()];
          o.addr_acc = true;
          for (int k = 0; k < o.t.len; k++) {
            WordHist &h = g_mem[{c, o.t.addr + k * g.word}];
            int lo = h.seen;
            for (size_t i = 0; i < h.w.size(); i++)
              if (h.w[i].acked)
                lo = std::max(lo, (int)i);
            o.lower.push_back(lo);
          }
          s.ar.pop_front();
          s.ars = -1;
          ev(3);
        }
        if (!s.ar.empty() && s.ars < 0)
          s.ars = stall(g.is, s.ar.front());
        v = !s.ar.empty() && s.ars == 0;
        if (s.ars > 0)
          s.ars--;
        if (v) {
          Op &o = g_ops[s.ar.front()];
          p.araddr.write(o.t.addr);
          p.arlen.write(o.t.len - 1);
          p.arsize.write(g.size);
          p.arburst.write(1);
          p.arid.write(o.idx & 3);
          p.aruser.write(o.user);
        }
        p.arvalid.write(v);
        // ---- write response
        if (p.bvalid.read()) {
          uint64_t u = p.buser.read().to_uint64();
          if (s.bheld && s.bu != u)
            FAIL(P10, "hold: write response changed before it was accepted");
          if (p.bready.read()) {
            s.bheld = false;
            if (s.b.empty())
              FAIL(P10, "answers: write response on channel %d without a write", c);
            Op &o = g_ops[s.b.front()];
            if (o.beats_acc < o.t.len || !o.addr_acc)
              FAIL(P10, "answers: write response before the last data of %s was accepted", show(o).c_str());
            if (u != o.user)
              FAIL(P10, "return address: response to %s carries user %#lx, the request had %#lx", show(o).c_str(),
                   (unsigned long)u, (unsigned long)o.user);
            o.done = true;
            g_done++;
            for (int k = 0; k < o.t.len; k++)
              for (auto &w : g_mem[{c, o.t.addr + k * g.word}].w)
                if (w.order == o.idx)
                  w.acked = true;
            s.b.pop_front();
            s.bst = -1;
            ev(4);
          } else {
            s.bheld = true;
            s.bu = u;
          }
        } else if (s.bheld)
          FAIL(P10, "hold: write response withdrawn before it was accepted");
        if (s.bst < 0)
          s.bst = s.nb < (int)g.nops ? stall(g.rs, s.nb++) : 0;
        p.bready.write(s.bst == 0);
        if (s.bst > 0)
          s.bst--;
        // ---- read data
        if (p.rvalid.read()) {
          uint64_t u = p.ruser.read().to_uint64();
          data_t d = p.rdata.read();
          bool l = p.rlast.read();
          if (s.rheld && (s.ru != u || s.rd != d || s.rl != l))
            FAIL(P10, "hold: read response changed before it was accepted");
          if (p.rready.read()) {
            s.rheld = false;
            if (s.r.empty() || !g_ops[s.r.front()].addr_acc)
              FAIL(P10, "answers: read response on channel %d without a read", c);
            Op &o = g_ops[s.r.front()];
            if (u != o.user)
              FAIL(P10, "return address: read beat %d of %s carries user %#lx, the request had %#lx", o.beats_rx,
                   show(o).c_str(), (unsigned long)u, (unsigned long)o.user);
            if (l != (o.beats_rx == o.t.len - 1))
              FAIL(P10, "last: beat %d of %s has last=%d", o.beats_rx, show(o).c_str(), l);
            read_beat(o, o.beats_rx, d);
            if (++o.beats_rx == o.t.len) {
              o.done = true;
              g_done++;
              s.r.pop_front();
            }
            s.rst_ = -1;
            ev(5);
          } else {
            s.rheld = true;
            s.ru = u;
            s.rd = d;
            s.rl = l;
          }
        } else if (s.rheld)
          FAIL(P10, "hold: read response withdrawn before it was accepted");
        if (s.rst_ < 0)
          s.rst_ = s.nr < (int)g.nops ? stall(g.rs, s.nr++) : 0;
        p.rready.write(s.rst_ == 0);
        if (s.rst_ > 0)
          s.rst_--;
      }
      wait();
    }
  }
};

static void read_spec(const std::string &f) {
  std::ifstream in(f);
  std::string line;
  g = Spec();
  g.is = {0, 1, 4};
  g.ws = {0, 1, 6};
  g.rs = {0, 1, 2, 40};
  g.horizon = 8;
  g.tail = 60;
  auto ints = [](const std::vector<std::string> &t) {
    std::vector<int> r;
    for (size_t i = 1; i < t.size(); i++)
      r.push_back(atoi(t[i].c_str()));
    return r;
  };
  while (std::getline(in, line)) {
    auto t = split(line, ' ');
    if (t.empty())
      continue;
    if (t[0] == "period")
      g.period = atof(t[1].c_str());
    else if (t[0] == "nops")
      g.nops = atoi(t[1].c_str());
    else if (t[0] == "warm")
      g.warm = atoi(t[1].c_str());
    else if (t[0] == "init")
      g.init = atoi(t[1].c_str());
    else if (t[0] == "tail")
      g.tail = atoi(t[1].c_str());
    else if (t[0] == "horizon")
      g.horizon = atoi(t[1].c_str());
    else if (t[0] == "fences")
      g.fences = t[1] == "1";
    else if (t[0] == "runahead")
      g.runahead = t[1] == "1";
    else if (t[0] == "allbits")
      g.allbits = t[1] == "1";
    else if (t[0] == "is")
      g.is = ints(t);
    else if (t[0] == "ws")
      g.ws = ints(t);
    else if (t[0] == "rs")
      g.rs = ints(t);
    else if (t[0] == "prog")
      g.fixed.push_back(ints(t));
    else if (t[0] == "op")
      g.alpha.push_back({t[1][0], atoi(t[2].c_str()), strtoull(t[3].c_str(), 0, 0), atoi(t[4].c_str())});
  }
}

static void body(const std::string &root) {
  mute();
  radsim_config.ResizeAll(1);
  ParseRADSimKnobs(root + "/sim/radsim_knobs");
  sim_log.SetLogSettings(0, root + "/sim.log");
  auto *ctx = new RADSimDesignContext(0);
  static sc_signal<bool> rst_sig("rst_sig");
  static sc_clock clk("vclk", g.period, SC_NS), mclk("vmclk", g.period / 4, SC_NS);
  // initial contents: word k of every channel of the listed range
  std::string prefix;
  mem_controller *dut = new mem_controller("mem", 0, ctx, g.init ? root + "/init_0" : "");
  g_nch = dut->GetNumChannels();
  g.word = dut->GetAddressableWordSize();
  g.size = 0;
  while ((1 << g.size) < g.word)
    g.size++;
  if (g.init)
    for (int c = 0; c < g_nch; c++)
      for (int k = 0; k < g.init; k++)
        g_init[{c, (uint64_t)k * g.word}] = 500000 + c * 1000 + k;
  drv *d = new drv("drv", g_nch);
  sc_vector<aximm_signal> sig;
  sig.init(g_nch);
  dut->clk(clk);
  dut->mem_clk(mclk);
  dut->rst(rst_sig);
  d->clk(clk);
  d->rst(rst_sig);
  for (int c = 0; c < g_nch; c++)
    sig[c].Connect(d->tx[c], dut->mem_channels[c]);
  rst_sig.write(true);
  sc_start(5 * g.period + 0.3, SC_NS);
  rst_sig.write(false);
  if (g.warm)
    sc_start(g.warm * g.period, SC_NS);
  // the program
  std::vector<int> prog;
  if (g.allbits) { // every single-bit word address within the capacity, plus its neighbours
    uint64_t words = (uint64_t)dut->GetMemCapacity() * 1024 * 1024 / g.word / g_nch;
    if (words < 1024)
      ex::fail("internal: capacity of %lu words", (unsigned long)words);
    int ch = ex::branch(std::min(g_nch, 2)) ? g_nch - 1 : 0;
    int form = ex::branch(3); // 2^b, 2^b - 1, last - 2^b
    g.alpha.clear();
    for (uint64_t b = 1; b < words; b *= 2)
      g.alpha.push_back({'W', ch, form == 0 ? b : form == 1 ? b - 1 : words - 1 - b, 1});
    g.alpha.push_back({'W', ch, form == 0 ? 0 : words - 1, 1});
    if (form != 0)
      g.alpha.push_back({'R', g_nch - 1 - ch, words - 1, 1});
    for (size_t i = 0; i < g.alpha.size(); i++)
      prog.push_back(i);
  } else if (g.fixed.empty())
    for (int i = 0; i < g.nops; i++)
      prog.push_back(ex::branch(g.alpha.size()));
  else
    prog = g.fixed[ex::branch(g.fixed.size())];
  uint64_t fences = g.fences && prog.size() > 1 ? ex::branch(1 << (prog.size() - 1)) : 0;
  std::map<std::tuple<int, uint64_t>, int> touched;
  for (size_t i = 0; i < prog.size(); i++) {
    Op o;
    o.t = g.alpha[prog[i]];
    o.t.ch = o.t.ch < 0 ? g_nch + o.t.ch : o.t.ch;
    o.t.addr *= g.word;
    o.idx = i;
    o.user = 3 + 7 * i + (i == 1 ? 32 : 0);
    o.fence = i > 0 && ((fences >> (i - 1)) & 1);
    for (int k = 0; k < o.t.len; k++)
      touched[{o.t.ch, o.t.addr + k * g.word}]++;
    g_ops.push_back(o);
  }
  g.nops = prog.size();
  // final read-back of every touched word (and the word after each range)
  bool first = true;
  for (auto &t : touched) {
    Op o;
    o.t = {'R', std::get<0>(t.first), std::get<1>(t.first), 1};
    o.idx = g_ops.size();
    o.user = 3 + 7 * o.idx;
    o.fence = first;
    first = false;
    g_ops.push_back(o);
  }
  g_last = g_cycle;
  while (g_done < (int)g_ops.size()) {
    sc_start(20 * g.period, SC_NS);
    if (g_cycle - g_last > 8000) {
      std::string u;
      for (auto &o : g_ops)
        if (!o.done) {
          u = show(o);
          break;
        }
      FAIL(P10, "answers: no answer for 8000 cycles with every channel ready; first open: %s", u.c_str());
    }
  }
  sc_start(g.tail * g.period, SC_NS); // no spurious answers
  ex::S->nontrivial++;
  std::string h;
  for (int i = 0; i < ex::g_ntrace && h.size() < 200; i++)
    h += std::to_string(ex::g_trace[i]);
  ex::sample("%s: choices %s -> %d operations answered, last at cycle %ld", ex::g_scen, h.c_str(), g_done, g_last);
}

int sc_main(int argc, char **argv) {
  Args a(argc, argv);
  g_prop = a.s("prop", "all");
  ex::g_maxproc = a.i("jobs", 8);
  if (a.kv.count("replay"))
    ex::set_replay(a.s("replay") == "default" ? "" : a.s("replay"));
  for (auto &s : split(a.s("scen"), ',')) {
    auto t = split(s, ':');
    std::string root = t[0];
    int budget = t.size() > 1 ? atoi(t[1].c_str()) : 1;
    read_spec(root + "/spec");
    if (g.init) {
      for (int c = 0; c < 32; c++) {
        std::ofstream f(root + "/init_" + std::to_string(c) + ".dat");
        for (int k = 0; k < g.init; k++) {
          g.word = 64;
          f << k * a.i("word", 64) << " " << data_of(500000 + c * 1000 + k).to_string() << "\n";
        }
      }
    }
    long before = ex::S ? ex::S->execs.load() : 0;
    bool ok = ex::explore(root, budget, [&]() { body(root); });
    printf("@scen %s budget %d execs %ld\n", root.substr(root.rfind('/') + 1).c_str(), budget,
           ex::S->execs.load() - before);
    fflush(stdout);
    if (!ok)
      break;
  }
  int rc = ex::report();
  fflush(stdout);
  _exit(rc);
}
