// P20: the modules and drivers of the mlp, dlrm and dlrm_two_rad example designs.
#include "design_env.hpp"
#include <collector.hpp>
#include <fifo.hpp>
#include <mvm.hpp>
#ifdef DESIGN_MLP
#include <dispatcher.hpp>
#include <mlp_driver.hpp>
typedef sc_int<32> elem;
static const int EB = 32;
#define WEIGHTS "compiler/weight_mifs/"
#define WEXT ".mif"
static const unsigned SRC_RAD = 0, MVM_RAD = 0;
#else
#include <afifo.hpp>
#include <custom_feature_interaction.hpp>
#include <dlrm_driver.hpp>
#include <embedding_lookup.hpp>
typedef int16_t elem;
static const int EB = 16;
#define WEIGHTS "compiler/mvm_weights/"
#define WEXT ".dat"
#ifdef TWO_RAD
static const unsigned SRC_RAD = 0, MVM_RAD = 1;
#else
static const unsigned SRC_RAD = 0, MVM_RAD = 0;
#endif
#endif
using namespace de;
static const int NL = LANES;
typedef std::vector<int> ivec; // one value per lane
typedef sc_bv<AXIS_MAX_DATAW> bus;

static int wrap(uint64_t x) { return EB == 32 ? (int)(int32_t)x : (int)(int16_t)x; }
static ivec lanes(uint64_t seed, int kind) { // kind 0: mixed, 1: zeros, 2: all the same, 3: extremes
  ivec v(NL);
  for (int i = 0; i < NL; i++) {
    uint64_t h = hmix(seed * 64 + i);
    v[i] = kind == 1 ? 0 : kind == 2 ? 5 : wrap(kind == 3 ? (h & 1 ? ~0ull << (EB - 1) : (1ull << (EB - 1)) - 1 - (h >> 60)) : h % 3 ? h % 17 - 8 : h);
  }
  return v;
}
static bus to_bus(const ivec &v) {
  bus b;
  b = 0;
  for (int i = 0; i < NL; i++)
    b.range((i + 1) * EB - 1, i * EB) = sc_bv<EB>(sc_int<EB>(v[i]));
  return b;
}
static data_vector<elem> to_dv(const ivec &v) {
  data_vector<elem> d(NL);
  for (int i = 0; i < NL; i++)
    d[i] = v[i];
  return d;
}
static ivec from_bus(const bus &b) {
  ivec v(NL);
  for (int i = 0; i < NL; i++)
    v[i] = (int)sc_int<EB>(sc_bv<EB>(b.range((i + 1) * EB - 1, i * EB)));
  return v;
}
static ivec from_dv(data_vector<elem> d) {
  ivec v(d.size());
  for (unsigned i = 0; i < d.size(); i++)
    v[i] = (int)d[i];
  return v;
}
static std::string text(const ivec &v) {
  std::string s;
  for (size_t i = 0; i < v.size(); i++)
    s += (i ? " " : "") + std::to_string(v[i]);
  return s;
}

// ----------------------------------------------------------------- vector FIFO
struct VF {
  sc_signal<bool> clk, rst, wen, ren, full, afull, empty, aempty;
  sc_signal<data_vector<elem>> wd, rd;
  fifo<elem> f;
  VF(unsigned d, unsigned w, unsigned a, unsigned e) : f("f", d, w, a, e) {
    f.clk(clk), f.rst(rst), f.wen(wen), f.wdata(wd), f.ren(ren), f.rdata(rd), f.full(full), f.almost_full(afull),
        f.empty(empty), f.almost_empty(aempty);
  }
  void edge() {
    clk.write(true);
    sc_start(1, SC_NS);
    clk.write(false);
    sc_start(1, SC_NS);
    ex::S->transitions++;
  }
};
static void vfifo_body(int L) {
  static const unsigned cfg[][3] = {{2, 1, 0}, {3, 2, 1}, {4, 2, 1}};
  int c = ex::branch(3);
  const unsigned W = 3, D = cfg[c][0], AF = cfg[c][1], AE = cfg[c][2];
  VF r(D, W, AF, AE);
  auto val = [&](uint64_t s) {
    ivec v(W);
    for (unsigned i = 0; i < W; i++)
      v[i] = wrap(hmix(s * 8 + i));
    return v;
  };
  sc_start(1, SC_NS);
  std::set<std::pair<int, int>> tried;
  long total = 1;
  for (int i = 0; i < L; i++)
    total *= 4;
  for (long code = 0; code < total; code++) {
    r.rst.write(true), r.wen.write(false), r.ren.write(false);
    r.edge();
    r.rst.write(false);
    std::deque<ivec> m;
    std::string ops;
    long x = code;
    bool cut = false;
    for (int i = 0; i < L && !cut; i++, x /= 4) {
      bool w = x & 1, rd = x & 2;
      ops += "-WRB"[x & 3];
      bool illegal = (rd && m.empty()) || (w && m.size() - (rd && !m.empty()) == D);
      ivec v = val(code * 16 + i);
      data_vector<elem> dv(W);
      for (unsigned j = 0; j < W; j++)
        dv[j] = v[j];
      r.wen.write(w), r.ren.write(rd), r.wd.write(dv);
      if (illegal) {
        cut = true;
        if (tried.insert({(int)m.size(), (int)(x & 3)}).second) {
          int rc = in_child([&]() { r.edge(); });
          if (rc == 77)
            ex::fail("fifo: %s a FIFO with %zu of %u elements is not reported (operations %s)",
                     rd && m.empty() ? "reading" : "writing", m.size(), D, ops.c_str());
          if (rc >= 256)
            ex::fail("fifo: crash with signal %d (operations %s)", rc - 256, ops.c_str());
        }
        break;
      }
      r.edge();
      if (rd)
        m.pop_front();
      if (w)
        m.push_back(v);
      if (r.empty.read() != m.empty() || r.full.read() != (m.size() == D) || r.afull.read() != (m.size() >= AF) ||
          r.aempty.read() != (m.size() <= AE))
        ex::fail("fifo: flags empty/almost empty/almost full/full are %d/%d/%d/%d with %zu of %u stored (operations %s)",
                 r.empty.read(), r.aempty.read(), r.afull.read(), r.full.read(), m.size(), D, ops.c_str());
      ivec got = from_dv(r.rd.read());
      if (m.empty() ? got != ivec(W, 0) : got != m.front())
        ex::fail("fifo: the read port does not show %s (operations %s)", m.empty() ? "zeros when empty" : "the oldest element",
                 ops.c_str());
      ex::visit(hmix(c * 1000003 + std::hash<std::string>()(ops)));
    }
    if (!cut)
      ex::S->nontrivial++;
    ex::S->events++;
  }
  ex::sample("vector fifo of depth %u: %ld operation sequences of length %d", D, total, L);
}

#ifndef DESIGN_MLP
// ------------------------------------------- FIFO with different widths (dlrm)
static void afifo_body(int L) {
  static const unsigned cfg[][3] = {{4, 4, 2}, {6, 6, 2}, {4, 2, 4}, {6, 4, 2}, {6, 1, 3}}; // depth, in, out
  int c = ex::branch(5);
  const unsigned D = cfg[c][0], WI = cfg[c][1], WO = cfg[c][2], R = WI > WO ? WI / WO : WO / WI;
  sc_signal<bool> clk, rst, wen, ren, full, afull, empty;
  sc_signal<data_vector<int16_t>> wd, rd;
  afifo<int16_t> f("f", D, WI, WO, D - 1);
  f.clk(clk), f.rst(rst), f.wen(wen), f.wdata(wd), f.ren(ren), f.rdata(rd), f.full(full), f.almost_full(afull), f.empty(empty);
  auto edge = [&] {
    clk.write(true);
    sc_start(1, SC_NS);
    clk.write(false);
    sc_start(1, SC_NS);
    ex::S->transitions++;
  };
  sc_start(1, SC_NS);
  std::set<std::pair<int, int>> tried;
  long total = 1;
  for (int i = 0; i < L; i++)
    total *= 4;
  unsigned staged = 0; // narrow words waiting for a wide one; a reset keeps none
  for (long code = 0; code < total; code++) {
    // complete a pending wide word so that every sequence starts alike
    while (staged) {
      wen.write(true), ren.write(false), rst.write(false);
      edge();
      staged = (staged + 1) % R;
    }
    rst.write(true), wen.write(false), ren.write(false);
    edge();
    rst.write(false);
    std::deque<ivec> m;
    ivec part;
    std::string ops;
    long x = code;
    bool cut = false;
    for (int i = 0; i < L && !cut; i++, x /= 4) {
      bool w = x & 1, r = x & 2;
      ops += "-WRB"[x & 3];
      unsigned after = m.size() - (r && !m.empty());
      bool illegal = (r && m.empty()) || (w && (WI > WO ? after + R > D : part.size() + WI == WO && after == D));
      ivec v(WI);
      data_vector<int16_t> dv(WI);
      for (unsigned j = 0; j < WI; j++)
        dv[j] = v[j] = wrap(hmix(code * 99 + i * 8 + j));
      wen.write(w), ren.write(r), wd.write(dv);
      if (illegal) {
        cut = true;
        if (tried.insert({(int)m.size(), (int)(x & 3)}).second) {
          int rc = in_child([&]() { edge(); });
          if (rc == 77)
            ex::fail("afifo: %s a FIFO with %zu of %u words is not reported (operations %s)",
                     r && m.empty() ? "reading" : "writing", m.size(), D, ops.c_str());
          if (rc >= 256)
            ex::fail("afifo: crash with signal %d (operations %s)", rc - 256, ops.c_str());
        }
        break;
      }
      edge();
      if (r)
        m.pop_front();
      if (w && WI > WO)
        for (unsigned k = 0; k < R; k++)
          m.push_back(ivec(v.begin() + k * WO, v.begin() + (k + 1) * WO));
      else if (w) {
        part.insert(part.end(), v.begin(), v.end());
        staged = (staged + 1) % R;
        if (part.size() == WO)
          m.push_back(part), part.clear();
      }
      bool fl = WI > WO ? m.size() + R > D : m.size() == D;
      if (empty.read() != m.empty() || full.read() != fl)
        ex::fail("afifo: flags empty/full are %d/%d with %zu of %u words stored (operations %s)", empty.read(), full.read(),
                 m.size(), D, ops.c_str());
      if (fl && !afull.read())
        ex::fail("afifo: full but not almost full (operations %s)", ops.c_str());
      if (!m.empty()) {
        ivec got;
        data_vector<int16_t> o = rd.read();
        for (unsigned j = 0; j < o.size(); j++)
          got.push_back(o[j]);
        if (got != m.front())
          ex::fail("afifo: the read port does not show the oldest word (operations %s)", ops.c_str());
      }
      ex::visit(hmix(c * 1000003 + std::hash<std::string>()(ops)));
    }
    if (!cut)
      ex::S->nontrivial++;
    ex::S->events++;
  }
}
#endif

// -------------------------------------------------------- stalls of one receiver
static bool base_ready(int p, long t) { return p == 0 ? true : p == 1 ? t % 2 : p == 2 ? t % 5 == 0 : t >= 30; }
static const int WINDOW = 18; // cycles in which single deviations are tried

#ifdef DESIGN_MLP
// ------------------------------------------------------------------ dispatcher
static void disp_body(int N, bool longrun) {
  const int id = ex::branch(2);
  dispatcher d(("input_dispatcher" + std::to_string(id)).c_str(), id, g_ctx);
  g_place.push_back("input_dispatcher" + std::to_string(id) + " 0 3 axis");
  g_clks.push_back("input_dispatcher" + std::to_string(id) + " 0 0");
  int node = 5;
  for (int i = 0; i < 2; i++)
    add_stub("layer0_mvm" + std::to_string(i), {{"layer0_mvm" + std::to_string(i) + ".rx_interface", 'S'}}, node);
  sc_signal<bool> rst, rdy, wen;
  sc_signal<data_vector<elem>> wd;
  axis_signal w;
  d.rst(rst), d.data_fifo_rdy(rdy), d.data_fifo_wen(wen), d.data_fifo_wdata(wd);
  bind(d.tx_interface, w);
  build();
  std::string dst = "layer0_mvm" + std::to_string(id) + ".rx_interface";
  unsigned want = g_ctx->GetPortDestinationID(dst);
  int values = ex::branch(3), sink = longrun ? 0 : ex::branch(4), source = longrun ? 0 : ex::branch(3);
  long hold = longrun ? FIFO_SIZE + 40 : 0;
  auto item = [&](int i) { return values == 0 ? lanes(i + 1, 0) : values == 1 ? lanes(0, 1) : i % 2 ? lanes(0, 1) : lanes(i, 3); };
  AxisWatch aw;
  int in = 0, out = 0;
  bool allowed = false, saw_full = false;
  rst.write(true);
  start();
  for (int i = 0; i < 2; i++)
    cycle([] {}, [&] {
      if (w.tvalid.read())
        ex::fail("dispatcher: offers a transfer during reset");
    });
  rst.write(false);
  for (long t = 0; out < N; t++) {
    if (t > 12 * N + 60 + hold)
      ex::fail("dispatcher: stops after %d of %d vectors (%d written)", out, N, in);
    bool v = source == 0 ? true : source == 1 ? t % 2 == 0 : t % 5 < 2, r = t >= hold && base_ready(sink, t);
    if (t < 2 * N + 6) {
      if (ex::choose(2))
        v = !v;
      if (ex::choose(2))
        r = !r;
    }
    v = v && in < N && allowed;
    cycle(
        [&] {
          wen.write(v);
          wd.write(to_dv(v ? item(in) : lanes(900 + t, 0)));
          in += v;
          w.tready.write(r);
        },
        [&] {
          if (aw.look(w, "dispatcher")) {
            if (out >= in)
              ex::fail("dispatcher: sends vector %d which was not written yet", out);
            if (from_bus(w.tdata.read()) != item(out))
              ex::fail("dispatcher: vector %d of %d leaves altered, duplicated or out of order (cycle %ld)", out, N, t);
            sc_bv<AXIS_DESTW> td = w.tdest.read();
            if (DEST_LOCAL_NODE(td).to_uint() != want || DEST_RAD(td).to_uint() != 0)
              ex::fail("dispatcher: vector %d is addressed to node %u instead of %u", out, DEST_LOCAL_NODE(td).to_uint(), want);
            if (w.tuser.read().range(15, 13).to_uint() != 3)
              ex::fail("dispatcher: vector %d is not marked as an input vector", out);
            out++;
          }
          allowed = rdy.read();
          saw_full |= !allowed && in;
        });
    ex::visit(hmix((in * 2048 + out) * 4 + w.tvalid.read() * 2 + w.tready.read()) + values);
  }
  for (int i = 0; i < 4; i++)
    cycle([&] { wen.write(false), w.tready.write(true); }, [&] {
      if (aw.look(w, "dispatcher"))
        ex::fail("dispatcher: sends more vectors than were written");
    });
  if (longrun && !saw_full)
    ex::fail("harness: the dispatcher was never full");
  ex::S->events += out;
  ex::S->nontrivial++;
}
#endif

// ------------------------------------------------------------------- collector
static void coll_body(int N, bool longrun) {
  collector c("output_collector", g_ctx);
  g_place.push_back("output_collector 0 3 axis");
  g_clks.push_back("output_collector 0 0");
  sc_signal<bool> rst, rdy, ren;
  sc_signal<data_vector<elem>> rd;
  axis_signal w;
  c.rst(rst), c.data_fifo_rdy(rdy), c.data_fifo_ren(ren), c.data_fifo_rdata(rd);
  bind(c.rx_interface, w);
  build();
  int values = ex::branch(3), sink = longrun ? 0 : ex::branch(4), source = longrun ? 0 : ex::branch(3);
  long hold = longrun ? FIFO_SIZE + 40 : 0;
  auto item = [&](int i) { return values == 0 ? lanes(i + 1, 0) : values == 1 ? lanes(0, 1) : i % 2 ? lanes(0, 1) : lanes(i, 3); };
  int in = 0, out = 0;
  bool saw_full = false;
  rst.write(true);
  start();
  for (int i = 0; i < 2; i++)
    cycle([] {}, [&] {
      if (w.tready.read() || rdy.read())
        ex::fail("collector: active during reset");
    });
  rst.write(false);
  bool offered = false;
  for (long t = 0; out < N; t++) {
    if (t > 12 * N + 60 + hold)
      ex::fail("collector: stops after %d of %d vectors (%d accepted)", out, N, in);
    bool v = source == 0 ? true : source == 1 ? t % 2 == 0 : t % 5 < 2, r = t >= hold && base_ready(sink, t);
    if (t < 2 * N + 6) {
      if (ex::choose(2))
        v = !v;
      if (ex::choose(2))
        r = !r;
    }
    v = (v || offered) && in < N;
    cycle(
        [&] {
          w.tvalid.write(v);
          w.tdata.write(to_bus(v ? item(in) : lanes(900 + t, 0)));
          ren.write(r && rdy.read());
        },
        [&] {
          if (ren.read()) {
            if (out >= in)
              ex::fail("collector: vector %d appears before it was received", out);
            if (from_dv(rd.read()) != item(out))
              ex::fail("collector: vector %d of %d is altered, duplicated or out of order (cycle %ld)", out, N, t);
            out++;
          }
          if (v && w.tready.read())
            in++;
          offered = v && !w.tready.read();
          saw_full |= offered;
        });
    ex::visit(hmix((in * 2048 + out) * 4 + rdy.read() * 2 + w.tready.read()) + values);
  }
  for (int i = 0; i < 4; i++)
    cycle([&] { w.tvalid.write(false), ren.write(false); }, [&] {
      if (i && rdy.read())
        ex::fail("collector: shows more vectors than it received");
    });
  if (longrun && !saw_full)
    ex::fail("harness: the collector was never full");
  ex::S->events += out;
  ex::S->nontrivial++;
}

// ------------------------------------------------------------------------- MVM
struct Inst {
  bool en = true, jump = false, reduce = false;
  unsigned accum = 0;
  bool accum_en = false, release = false;
  unsigned raddr = 0;
  bool last = false;
  int dl = 0;
  unsigned dm = 0;
  std::string line() const {
    std::string s;
    for (int x : {(int)en, (int)jump, (int)reduce, (int)accum, (int)accum_en, (int)release, (int)raddr, (int)last, dl, (int)dm})
      s += (s.empty() ? "" : " ") + std::to_string(x);
    return s;
  }
};
struct Out {
  int dl;
  unsigned dm;
  ivec v;
};
static int weight_kind;
static ivec weight(int dot, int addr) { return lanes(7000 + dot * 64 + addr, weight_kind); }

// the reference: consumes inputs and reduction vectors, in order
struct Ref {
  std::vector<Inst> prog;
  unsigned pc = 0;
  std::map<unsigned, ivec> acc;
  std::deque<ivec> in, red;
  std::vector<Out> out;
  void run(unsigned maxout) {
    for (long guard = 0; guard < 100000 && out.size() < maxout; guard++) {
      Inst i = pc < prog.size() ? prog[pc] : Inst();
      if (pc >= prog.size() || !i.en)
        return;
      if (i.jump) {
        pc = i.raddr;
        continue;
      }
      if (in.empty() || (i.reduce && red.empty()))
        return;
      ivec r(NL);
      for (int d = 0; d < NL; d++) {
        ivec w = weight(d, i.raddr);
        uint64_t s = 0;
        for (int l = 0; l < NL; l++)
          s += (uint64_t)((int64_t)in.front()[l] * w[l]);
        if (i.reduce)
          s += (int64_t)red.front()[d];
        if (i.accum_en)
          s += (int64_t)acc[i.accum][d];
        r[d] = wrap(s);
      }
      acc[i.accum] = r;
      if (i.release)
        out.push_back({i.dl, i.dm, r});
      if (i.last)
        in.pop_front();
      if (i.reduce)
        red.pop_front();
      pc++;
    }
  }
};

static const int LAYER = 1, ID = 1; // the module under test is layer1_mvm1
// destinations: collector, another layer, same layer
static const int DL[] = {0, 3, 2};
static const unsigned DM[] = {0, 0, 0};

static std::vector<Inst> hand_program(int p) {
  auto I = [](int reduce, int accum, int aen, int rel, int raddr, int last, int dest) {
    Inst i;
    i.reduce = reduce, i.accum = accum, i.accum_en = aen, i.release = rel, i.raddr = raddr, i.last = last, i.dl = DL[dest],
    i.dm = DM[dest];
    return i;
  };
  Inst j;
  j.jump = true;
  switch (p) {
  case 0: // one matrix row block per input
    return {I(0, 0, 0, 1, 0, 1, 0), j};
  case 1: // a row block over two inputs
    return {I(0, 0, 0, 0, 0, 1, 0), I(0, 0, 1, 1, 1, 1, 1), j};
  case 2: // two row blocks per input, to different places
    return {I(0, 0, 0, 1, 0, 0, 0), I(0, 1, 0, 1, 1, 1, 2), j};
  case 3: // add the partial result of a neighbour
    return {I(1, 0, 0, 1, 0, 1, 2), j};
  default: // two row blocks over two inputs, one with a partial result of a neighbour
    return {I(0, 3, 0, 0, 0, 0, 0), I(0, 4, 0, 0, 1, 1, 0), I(0, 3, 1, 1, 2, 0, 1), I(1, 4, 1, 1, 3, 1, 2), j};
  }
}
// every program of n instructions that makes progress, by number; empty: not one
static std::vector<Inst> nth_program(long code, int n) {
  std::vector<Inst> p;
  std::set<unsigned> written;
  bool any_last = false, any_rel = false;
  for (int k = 0; k < n; k++) {
    Inst i;
    auto take = [&](int m) {
      int v = code % m;
      code /= m;
      return v;
    };
    i.reduce = take(2), i.last = take(2), i.release = take(2), i.accum_en = take(2), i.accum = take(2);
    int d = take(3);
    i.raddr = k;
    i.dl = i.release ? DL[d] : 0, i.dm = DM[d];
    if ((!i.release && d) || (i.accum_en && !written.count(i.accum)) || (k == 0 && i.accum))
      return {};
    written.insert(i.accum);
    any_last |= i.last, any_rel |= i.release;
    p.push_back(i);
  }
  if (!any_last || !any_rel)
    return {};
  Inst j;
  j.jump = true;
  p.push_back(j);
  return p;
}
static long num_programs(int n) {
  long t = 1;
  for (int i = 0; i < n; i++)
    t *= 2 * 2 * 2 * 2 * 2 * 3;
  return t;
}

static void mvm_rig(const std::vector<Inst> &prog, int NI, int NR, int values, bool load, long hold, int sink, int source,
                    int order, bool deviate, int window) {
  weight_kind = values == 1 ? 1 : values == 2 ? 3 : values == 3 ? 2 : 0;
  std::string me = "layer" + std::to_string(LAYER) + "_mvm" + std::to_string(ID);
  int dots = load ? 2 : NL; // how many weight files are left to the loader
  for (int d = 0; d < NL; d++) {
    std::string s;
    for (int a = 0; a < 4; a++)
      s += text(load && d < dots ? ivec(NL, 77) : weight(d, a)) + "\n";
    put(WEIGHTS + me + "_dot" + std::to_string(d) + WEXT, s);
  }
  std::string t;
  for (auto &i : prog)
    t += i.line() + "\n";
  put("m.inst", t);
  mvm m(me.c_str(), ID, LAYER, load ? "" : g_dir + "/m.inst", g_ctx);
  g_place.push_back(me + " 0 3 axis");
  g_clks.push_back(me + " 0 0");
  int node = 5;
  add_stub("output_collector", {{"output_collector.data_collect", 'S'}}, node);
  for (std::string s : {"layer2_mvm0", "layer1_mvm0", "layer0_mvm0"})
    add_stub(s, {{s + ".rx_interface", 'S'}}, node);
  sc_signal<bool> rst;
  axis_signal rx, tx;
  m.rst(rst);
#ifdef DESIGN_MLP
  bind(m.rx_interface, rx);
  bind(m.tx_interface, tx);
#else
  axis_signal rxr, txr;
  bind(m.rx_input_interface, rx);
  bind(m.tx_input_interface, tx);
  bind(m.rx_reduce_interface, rxr);
  bind(m.tx_reduce_interface, txr);
#endif
  build();
  // what goes in
  auto item = [&](int i, bool red) {
    int k = values == 0 ? 0 : values == 1 ? 1 : values == 2 ? 3 : i % 2;
    return lanes((red ? 5000 : 1) + i, k);
  };
  struct Msg {
    unsigned user;
    bus data;
  };
  std::deque<Msg> q, qr; // input interface; reduction interface (dlrm)
  Ref ref;
  ref.prog = prog;
  if (load) {
    for (size_t a = 0; a < prog.size(); a++) {
      mvm_inst x;
      const Inst &i = prog[a];
      x.en = i.en, x.jump = i.jump, x.reduce = i.reduce, x.accum = i.accum, x.accum_en = i.accum_en, x.release = i.release,
      x.raddr = i.raddr, x.last = i.last, x.dest_layer = i.dl, x.dest_mvm = i.dm;
      bus b = x.to_bv();
      for (int k = 34; k < AXIS_MAX_DATAW; k++)
        b[k] = false;
      q.push_back({(1u << 13) | (unsigned)a, b});
    }
    for (int d = 0; d < dots; d++)
      for (int a = 3; a >= 0; a--)
        q.push_back({(4u << 13) | (unsigned)d << 9 | (unsigned)a, to_bus(weight(d, a))});
  }
  int pi = 0, pr = 0; // order of inputs and reduction vectors on one interface
  while (pi < NI || pr < NR) {
    bool red = order == 0 ? pr < NR : order == 1 ? pi >= NI : (pi + pr) % 2 ? pr < NR : pi >= NI;
    ivec v = item(red ? pr : pi, red);
    (red ? ref.red : ref.in).push_back(v);
#ifdef DESIGN_MLP
    q.push_back({(red ? 2u : 3u) << 13, to_bus(v)});
#else
    (red ? qr : q).push_back({(red ? 2u : 3u) << 13, to_bus(v)});
#endif
    red ? pr++ : pi++;
  }
  ref.run(1 << 20);
  size_t n = ref.out.size(), out = 0;
  rst.write(true);
  rx.tuser.write(0);
  start();
  for (int i = 0; i < 2; i++)
    cycle([] {}, [&] {
      if (tx.tvalid.read())
        ex::fail("mvm: offers a transfer during reset");
    });
  rst.write(false);
  AxisWatch aw, awr;
  long after = 0;
  bool off = false, offr = false, saw_full = false;
  long accepted = 0;
  auto check = [&](axis_signal &w, bool reduce_if) {
    if (out >= n)
      ex::fail("mvm: sends more than the %zu results of its program (cycle %ld)", n, g_cycle);
    const Out &o = ref.out[out];
    bool same = o.dl - 1 == LAYER;
    std::string dn = o.dl == 0 ? std::string("output_collector.data_collect")
                               : "layer" + std::to_string(o.dl - 1) + "_mvm" + std::to_string(o.dm) + ".rx_interface";
    unsigned want = g_ctx->GetPortDestinationID(dn);
    sc_bv<AXIS_DESTW> td = w.tdest.read();
    if (DEST_LOCAL_NODE(td).to_uint() != want || DEST_RAD(td).to_uint() != MVM_RAD)
      ex::fail("mvm: result %zu is addressed to node %u of RAD %u instead of %s", out, DEST_LOCAL_NODE(td).to_uint(),
               DEST_RAD(td).to_uint(), dn.c_str());
    if (w.tuser.read().range(15, 13).to_uint() != (same ? 2u : 3u))
      ex::fail("mvm: result %zu is marked %u", out, w.tuser.read().range(15, 13).to_uint());
#ifndef DESIGN_MLP
    if (reduce_if != same)
      ex::fail("mvm: result %zu leaves on the wrong interface", out);
#endif
    ivec got = from_bus(w.tdata.read());
    if (got != o.v) {
      int l = 0;
      while (got[l] == o.v[l])
        l++;
      ex::fail("mvm: lane %d of result %zu is %d instead of %d (cycle %ld)", l, out, got[l], o.v[l], g_cycle);
    }
    out++;
  };
  for (long t = 0; after < 45; t++) {
    if (t > hold + 400 + 8 * (long)(NI + NR + n))
      ex::fail("mvm: stops after %zu of %zu results", out, n);
    bool v = source == 0 ? true : source == 1 ? t % 3 == 0 : t % 7 < 2, vr = source == 2 ? t > 40 : v;
    bool r = t >= hold && base_ready(sink, t);
    if (deviate && t < window) {
      if (ex::choose(2))
        v = !v;
      if (ex::choose(2))
        r = !r;
    }
    // results appear a pipeline's length later: a second window for the sink
    if (deviate && t >= COMPUTE_LATENCY + 4 && t >= window && t < COMPUTE_LATENCY + 4 + window && ex::choose(2))
      r = !r;
    v = (v || off) && !q.empty();
    vr = (vr || offr) && !qr.empty();
    if (out == n && q.empty() && qr.empty())
      after++;
    cycle(
        [&] {
          rx.tvalid.write(v);
          if (v)
            rx.tdata.write(q.front().data), rx.tuser.write(q.front().user);
          tx.tready.write(r);
#ifndef DESIGN_MLP
          rxr.tvalid.write(vr);
          if (vr)
            rxr.tdata.write(qr.front().data), rxr.tuser.write(qr.front().user);
          txr.tready.write(sink == 1 ? true : r);
#endif
        },
        [&] {
          if (aw.look(tx, "mvm"))
            check(tx, false);
#ifndef DESIGN_MLP
          if (awr.look(txr, "mvm"))
            check(txr, true);
          if (tx.tvalid.read() && txr.tvalid.read())
            ex::fail("mvm: one result is offered on both interfaces (cycle %ld)", g_cycle);
          if (vr && rxr.tready.read())
            qr.pop_front(), accepted++;
          offr = vr && !rxr.tready.read() && !qr.empty();
#endif
          bool acc = v && rx.tready.read();
          if (acc)
            q.pop_front(), accepted++;
          off = v && !acc;
          saw_full |= off;
        });
    ex::visit(hmix((out * 2048 + accepted) * 4 + tx.tvalid.read() * 2 + tx.tready.read()) + values);
  }
  if (out != n)
    ex::fail("mvm: %zu of %zu results", out, n);
  if (hold > FIFO_SIZE && !saw_full)
    ex::fail("harness: the mvm was never full");
  ex::S->events += n;
  ex::S->nontrivial++;
}

// schedules of the characteristic programs
static void mvm_sched(int N) {
  int p = ex::branch(5), values = ex::branch(4), sink = ex::branch(4), source = ex::branch(3), order = ex::branch(p >= 3 ? 3 : 1);
  int NR = p == 3 ? N : p == 4 ? N / 2 : 0;
  mvm_rig(hand_program(p), N, NR, values, false, 0, sink, source, order, true, WINDOW);
}
static void mvm_load(int N) {
  int p = ex::branch(5), values = ex::branch(2) * 2, source = ex::branch(3);
  mvm_rig(hand_program(p), N, p == 3 ? N : p == 4 ? N / 2 : 0, values, true, 0, 0, source, 2, true, 16);
}
static void mvm_progs(int n) { // every program of n instructions
  std::vector<Inst> p = nth_program(ex::branch(num_programs(n)), n);
  if (p.empty())
    return;
  int sink = ex::branch(2);
  int red = 0;
  for (auto &i : p)
    red += i.reduce;
  mvm_rig(p, 3, red ? 6 : 0, 0, false, 0, sink * 3, 0, 2, false, 0);
}
static void mvm_long(int) {
  int p = ex::branch(3);
  mvm_rig(hand_program(p == 2 ? 3 : 0), FIFO_SIZE * (p == 1 ? 5 : 4) / 2 + 50, p == 2 ? FIFO_SIZE * 2 + 50 : 0, 0, false,
          FIFO_SIZE * (p == 2 ? 5 : 3) + 200, 0, 0, 2, false, 0);
}

#ifndef DESIGN_MLP
// ------------------------------------------------------------- embedding lookup
static void elk_body(int N) {
  std::vector<unsigned> chans = {1, 2};
  const int NC = 3;
  unsigned depth = ex::branch(2) ? 16 : 6;
  embedding_lookup e("embedding_lookup_inst", 512, chans, depth, g_ctx);
  int node = 5;
  std::vector<std::pair<std::string, char>> fi;
  for (int k = 0; k < NC; k++) {
    g_place.push_back("embedding_lookup_inst.aximm_req_interface_" + std::to_string(k) + " 0 " + std::to_string(node++) + " aximm");
    fi.push_back({"feature_interaction_inst.aximm_interface_" + std::to_string(k), 'm'});
  }
  g_clks.push_back("embedding_lookup_inst 0 0");
  add_stub("feature_interaction_inst", fi, node);
  add_stub("ext_mem_0", {{"ext_mem_0.mem_channel_0", 's'}}, node);
  add_stub("ext_mem_1", {{"ext_mem_1.mem_channel_0", 's'}, {"ext_mem_1.mem_channel_1", 's'}}, node);
  static const char *mem[] = {"ext_mem_0.mem_channel_0", "ext_mem_1.mem_channel_0", "ext_mem_1.mem_channel_1"};
  sc_signal<bool> rst, valid, ready;
  sc_signal<data_vector<uint64_t>> idx, base;
  sc_signal<data_vector<unsigned>> tgt;
  e.rst(rst), e.lookup_indecies_data(idx), e.lookup_indecies_target_channels(tgt), e.lookup_indecies_base_addresses(base),
      e.lookup_indecies_valid(valid), e.lookup_indecies_ready(ready);
  aximm_signal w[NC];
  for (int k = 0; k < NC; k++)
    bind(e.aximm_req_interface[k], w[k]);
  build();
  uint64_t mb[NC], fb[NC];
  for (int k = 0; k < NC; k++) {
    std::string a = mem[k], b = "feature_interaction_inst.aximm_interface_" + std::to_string(k);
    mb[k] = g_ctx->GetPortBaseAddress(a), fb[k] = g_ctx->GetPortBaseAddress(b);
  }
  // the lookups of input i: one to three, all channels or the same one
  int spread = ex::branch(3), sink = ex::branch(4), source = ex::branch(2);
  auto lookups = [&](int i) {
    std::vector<std::array<uint64_t, 3>> v; // index, channel, table base
    for (int k = 0; k < (spread == 2 ? 1 + i % 3 : 3); k++)
      v.push_back({hmix(i * 8 + k) % 4096 * 64, (uint64_t)(spread == 1 ? i % NC : k), (uint64_t)(spread == 1 ? 0x100000 * k : 0x200000)});
    return v;
  };
  struct Req {
    uint64_t addr, user;
  };
  std::deque<Req> want[NC];
  unsigned cnt[NC] = {0, 0, 0};
  bool pend[NC] = {false, false, false};
  uint64_t last[NC] = {0, 0, 0};
  int in = 0;
  long sent = 0, total = 0;
  for (int i = 0; i < N; i++)
    total += lookups(i).size();
  rst.write(true);
  start();
  for (int i = 0; i < 2; i++)
    cycle([] {}, [&] {
      for (int k = 0; k < NC; k++)
        if (w[k].arvalid.read())
          ex::fail("embedding_lookup: sends a request during reset");
    });
  rst.write(false);
  bool offered = false;
  long idle = 0;
  for (long t = 0; idle < 5; t++) {
    if (t > 14 * total + 100)
      ex::fail("embedding_lookup: stops after %ld of %ld requests", sent, total);
    bool v = source == 0 ? true : t % 4 == 0, r[NC];
    for (int k = 0; k < NC; k++)
      r[k] = base_ready((sink + k * (sink > 1)) % 4, t + k);
    if (t < 14) {
      if (ex::choose(2))
        v = !v;
      for (int k = 0; k < NC; k++)
        if (ex::choose(2))
          r[k] = !r[k];
    }
    v = (v || offered) && in < N;
    if (sent == total)
      idle++;
    cycle(
        [&] {
          valid.write(v);
          if (v) {
            auto l = lookups(in);
            data_vector<uint64_t> a(l.size()), b(l.size());
            data_vector<unsigned> c(l.size());
            for (size_t k = 0; k < l.size(); k++)
              a[k] = l[k][0], c[k] = l[k][1], b[k] = l[k][2];
            idx.write(a), tgt.write(c), base.write(b);
          }
          for (int k = 0; k < NC; k++)
            w[k].arready.write(r[k]);
        },
        [&] {
          for (int k = 0; k < NC; k++) {
            bool av = w[k].arvalid.read();
            uint64_t a = av ? w[k].araddr.read().to_uint64() : 0;
            if (w[k].awvalid.read() || w[k].wvalid.read())
              ex::fail("embedding_lookup: starts a write");
            if (!w[k].rready.read())
              ex::fail("embedding_lookup: refuses a response");
            if (pend[k] && (!av || a != last[k]))
              ex::fail("embedding_lookup: withdraws or changes a request before it is accepted (cycle %ld)", t);
            if (av && r[k]) {
              if (want[k].empty())
                ex::fail("embedding_lookup: channel %d: a request that was not asked for, or twice (request %u, cycle %ld)", k,
                         cnt[k], t);
              if (a != want[k].front().addr)
                ex::fail("embedding_lookup: request %u of channel %d has address %llx instead of %llx", cnt[k], k,
                         (unsigned long long)a, (unsigned long long)want[k].front().addr);
              if (w[k].aruser.read().to_uint64() != want[k].front().user)
                ex::fail("embedding_lookup: request %u of channel %d is answered to %llx", cnt[k], k,
                         (unsigned long long)w[k].aruser.read().to_uint64());
              if (w[k].arid.read().to_uint() != (cnt[k] & ((1u << AXI4_IDW) - 1)))
                ex::fail("embedding_lookup: request %u of channel %d has id %u", cnt[k], k, w[k].arid.read().to_uint());
              want[k].pop_front();
              cnt[k]++;
              sent++;
            }
            pend[k] = av && !r[k];
            last[k] = a;
          }
          bool acc = v && ready.read();
          if (acc) {
            for (auto &l : lookups(in))
              want[l[1]].push_back({mb[l[1]] + l[2] + l[0], fb[l[1]]});
            in++;
          }
          offered = v && !acc;
        });
    ex::visit(hmix(((in * 64 + cnt[0]) * 64 + cnt[1]) * 64 + cnt[2]) + spread * 8 + r[0]);
  }
  ex::S->events += total;
  ex::S->nontrivial++;
}

// ---------------------------------------------------- custom feature interaction
struct Step {
  unsigned fifo, s, e;
  bool pop;
};
static std::vector<std::vector<Step>> cfi_program(long code, int n, int nfifo) {
  std::vector<std::vector<Step>> p;
  bool pops = false;
  for (int i = 0; i < n; i++) {
    std::vector<Step> v;
    auto take = [&](int m) {
      int x = code % m;
      code /= m;
      return x;
    };
    int f1 = take(nfifo) + 1, f2 = take(nfifo + 1), p1 = take(2), p2 = take(2), split = take(2);
    // first group from a memory, second from a memory or zeros
    unsigned cut = split ? 7 : 15;
    v.push_back({(unsigned)f1, split ? 3u : 0u, (split ? 3u : 0u) + cut, (bool)p1});
    v.push_back({(unsigned)f2, split ? 2u : 16u, (split ? 2u : 16u) + (31 - cut - 1), (bool)p2});
    if (f1 == f2 && p1) // only the last use may pop
      return {};
    if (f2 == 0 && p2)
      return {};
    pops |= p1 || p2;
    p.push_back(v);
  }
  if (!pops)
    return {};
  return p;
}
static void cfi_body(int n, int NV, bool progs) {
  const int NC = 2;
  static const long pick[] = {0, 1, 2, 3, 4};
  (void)pick;
  const long per = NC * (NC + 1) * 2 * 2 * 2;
  long count = 1;
  for (int i = 0; i < n; i++)
    count *= per;
  std::vector<std::vector<Step>> prog;
  if (progs) {
    prog = cfi_program(ex::branch(count), n, NC);
    if (prog.empty())
      return;
  } else {
    switch (ex::branch(3)) {
    case 0: // both memories side by side
      prog = {{{1, 0, 15, true}, {2, 0, 15, true}}};
      break;
    case 1: // one word split over two outputs, padded with zeros
      prog = {{{1, 0, 15, false}, {0, 0, 15, false}}, {{1, 16, 31, true}, {2, 4, 19, true}}};
      break;
    default: // whole words in turn
      prog = {{{2, 0, 31, true}}, {{1, 0, 31, true}}, {{2, 0, 31, true}}};
    }
  }
  const int NO = 1 + ex::branch(2);
  std::string t;
  for (auto &v : prog) {
    for (auto &s : v)
      t += std::to_string(s.fifo) + " " + std::to_string(s.s) + " " + std::to_string(s.e) + " " + std::to_string((int)s.pop) + " ";
    t.back() = '\n';
  }
  put("fi.inst", t);
  put("compiler/embedding_indecies.in", "2 " + std::to_string(NV) + "\n");
  std::string file = g_dir + "/fi.inst";
  unsigned depth = progs ? 16 : 8;
  custom_feature_interaction c("feature_interaction_inst", 512, 16, NC, depth, NO, file, g_ctx);
  int node = 5;
  for (int k = 0; k < NC; k++)
    g_place.push_back("feature_interaction_inst.aximm_interface_" + std::to_string(k) + " 0 " + std::to_string(node++) + " aximm");
  for (int k = 0; k < NO; k++)
    g_place.push_back("feature_interaction_inst.axis_interface_" + std::to_string(k) + " 0 " + std::to_string(node++) + " axis");
  g_clks.push_back("feature_interaction_inst 0 0");
  for (int k = 0; k < NO; k++)
    add_stub("layer0_mvm" + std::to_string(k), {{"layer0_mvm" + std::to_string(k) + ".rx_interface", 'S'}}, node);
  sc_signal<bool> rst;
  sc_signal<unsigned> nresp;
  c.rst(rst), c.received_responses(nresp);
  aximm_signal m[NC];
  axis_signal w[NO];
  for (int k = 0; k < NC; k++)
    bind(c.aximm_interface[k], m[k]);
  for (int k = 0; k < NO; k++)
    bind(c.axis_interface[k], w[k]);
  build();
  auto word = [&](int ch, int i) { return lanes(100 * ch + i + 1, i % 3 == 2 ? 1 : 0); };
  // reference
  std::vector<ivec> out;
  {
    std::vector<std::deque<ivec>> q(NC + 1);
    for (int k = 0; k < NC; k++)
      for (int i = 0; i < NV; i++)
        q[k + 1].push_back(word(k, i));
    for (size_t pc = 0; out.size() < 400; pc = (pc + 1) % prog.size()) {
      bool ok = true;
      for (auto &s : prog[pc])
        ok &= s.fifo == 0 || !q[s.fifo].empty();
      if (!ok)
        break;
      ivec o(NL, 0);
      int e = 0;
      for (auto &s : prog[pc]) {
        for (unsigned x = s.s; x <= s.e; x++)
          o[e++] = s.fifo ? q[s.fifo].front()[x] : 0;
        if (s.fifo && s.pop)
          q[s.fifo].pop_front();
      }
      out.push_back(o);
    }
  }
  if (out.size() >= 400)
    return; // never runs dry
  int sink = progs ? ex::branch(2) * 3 : ex::branch(4), source = progs ? 0 : ex::branch(3);
  int in[NC] = {0, 0};
  bool off[NC] = {false, false};
  size_t got = 0;
  std::vector<size_t> per_ch(NO, 0);
  AxisWatch aw[NO];
  rst.write(true);
  start();
  for (int i = 0; i < 2; i++)
    cycle([] {}, [&] {
      for (int k = 0; k < NO; k++)
        if (w[k].tvalid.read())
          ex::fail("feature_interaction: offers a transfer during reset");
    });
  rst.write(false);
  long idle = 0;
  for (long t = 0; idle < 8; t++) {
    if (t > 14 * (long)out.size() + 14 * NV + 100)
      ex::fail("feature_interaction: stops after %zu of %zu vectors", got, out.size());
    bool v[NC], r[NO];
    for (int k = 0; k < NC; k++)
      v[k] = source == 0 ? true : source == 1 ? (t + k) % 3 == 0 : k == 0 || t > 25;
    for (int k = 0; k < NO; k++)
      r[k] = base_ready(sink == 2 ? 2 * k : sink, t + k);
    if (!progs && t < 16) {
      for (int k = 0; k < NC; k++)
        if (ex::choose(2))
          v[k] = !v[k];
      for (int k = 0; k < NO; k++)
        if (ex::choose(2))
          r[k] = !r[k];
    }
    if (got == out.size())
      idle++;
    int total_in = in[0] + in[1];
    cycle(
        [&] {
          for (int k = 0; k < NC; k++) {
            v[k] = (v[k] || off[k]) && in[k] < NV;
            m[k].rvalid.write(v[k]);
            if (v[k]) {
              sc_bv<AXI4_MAX_DATAW> d;
              d = 0;
              ivec x = word(k, in[k]);
              for (int l = 0; l < NL; l++)
                d.range(l * EB + EB - 1, l * EB) = sc_bv<EB>(sc_int<EB>(x[l]));
              m[k].rdata.write(d);
            }
          }
          for (int k = 0; k < NO; k++)
            w[k].tready.write(r[k]);
        },
        [&] {
          if ((int)nresp.read() > total_in)
            ex::fail("feature_interaction: counts %u responses, %d were given", nresp.read(), total_in);
          for (int k = 0; k < NO; k++)
            if (aw[k].look(w[k], "feature_interaction")) {
              size_t i = per_ch[k]++ * NO + k;
              if (i >= out.size())
                ex::fail("feature_interaction: channel %d sends more vectors than the program makes", k);
              ivec g = from_bus(w[k].tdata.read());
              if (g != out[i])
                ex::fail("feature_interaction: vector %zu (channel %d) is wrong (cycle %ld)", i, k, t);
              std::string dn = "layer0_mvm" + std::to_string(k) + ".rx_interface";
              sc_bv<AXIS_DESTW> td = w[k].tdest.read();
              if (DEST_LOCAL_NODE(td).to_uint() != g_ctx->GetPortDestinationID(dn) || DEST_RAD(td).to_uint() != MVM_RAD)
                ex::fail("feature_interaction: vector %zu is addressed to node %u of RAD %u", i, DEST_LOCAL_NODE(td).to_uint(),
                         DEST_RAD(td).to_uint());
#ifdef TWO_RAD
              if (DEST_REMOTE_NODE(td).to_uint() != g_ctx->GetPortDestinationID(dn))
                ex::fail("feature_interaction: vector %zu is addressed to remote node %u", i, DEST_REMOTE_NODE(td).to_uint());
#endif
              if (w[k].tuser.read().range(15, 13).to_uint() != 3)
                ex::fail("feature_interaction: vector %zu is not marked as an input vector", i);
              got++;
            }
          for (int k = 0; k < NC; k++) {
            bool acc = v[k] && m[k].rready.read();
            in[k] += acc;
            off[k] = v[k] && !acc;
          }
        });
    ex::visit(hmix(((in[0] * 64 + in[1]) * 64 + got) * 4 + w[0].tvalid.read() * 2 + r[0]));
  }
  if (got == out.size() && in[0] == NV && in[1] == NV && (int)nresp.read() != 2 * NV)
    ex::fail("feature_interaction: counts %u of %d responses", nresp.read(), 2 * NV);
  ex::S->events += got;
  ex::S->nontrivial++;
}
#endif

// --------------------------------------------------------------------- drivers
static void driver_body(int) {
  const int NO = 3, NIN = 4;
  auto golden = [&](int i) { return lanes(40 + i, i == 1 ? 1 : 0); };
  std::string out;
  for (int i = 0; i < NO; i++)
    out += text(golden(i)) + "\n";
  int node = 5;
  add_stub("output_collector", {{"output_collector.data_collect", 'S'}}, node);
  sc_clock clk("clk", P, SC_NS);
  sc_signal<bool> rst, rdy, ren;
  sc_signal<data_vector<elem>> rd;
#ifdef DESIGN_MLP
  const int ND = 1 + ex::branch(2);
  put("compiler/layer_mvm_config", "2 " + std::to_string(ND) + " 1\n");
  auto input = [&](int d, int i) { return lanes(d * 100 + i + 1, i == 2 ? 1 : 0); };
  for (int d = 0; d < ND; d++) {
    std::string s;
    for (int i = 0; i < NIN; i++)
      s += text(input(d, i)) + "\n";
    put("compiler/input_mifs/inputs_mvm" + std::to_string(d) + ".mif", s);
  }
  put("compiler/golden_outputs.mif", out);
  mlp_driver d("driver", g_ctx);
  sc_vector<sc_signal<bool>> drdy("drdy", ND), dwen("dwen", ND);
  sc_vector<sc_signal<data_vector<elem>>> dw("dw", ND);
  for (int k = 0; k < ND; k++)
    d.dispatcher_fifo_rdy[k](drdy[k]), d.dispatcher_fifo_wen[k](dwen[k]), d.dispatcher_fifo_wdata[k](dw[k]);
  std::vector<int> in(ND, 0);
  std::vector<bool> allowed(ND, false);
#else
  const int ND = 1;
  std::vector<int> in(1, 0);
  std::string s = "3 " + std::to_string(NIN) + "\n";
  auto input = [&](int row, int i) { // row 0: indices, 1: channels, 2: bases
    std::vector<uint64_t> v;
    for (int k = 0; k < 3; k++)
      v.push_back(row == 1 ? (i + k) % 5 : hmix(row * 100 + i * 4 + k) % 100000);
    return v;
  };
  for (int i = 0; i < NIN; i++)
    for (int row = 0; row < 3; row++) {
      auto v = input(row, i);
      s += std::to_string(v[0]) + " " + std::to_string(v[1]) + " " + std::to_string(v[2]) + "\n";
    }
  put("compiler/embedding_indecies.in", s);
  put("compiler/feature_interaction.out", std::to_string(NO) + "\n" + out);
  put("compiler/mlp.out", std::to_string(NO) + "\n" + out);
  dlrm_driver d("driver", g_ctx);
  sc_signal<data_vector<uint64_t>> idx, base;
  sc_signal<data_vector<unsigned>> tgt;
  sc_signal<bool> valid, ready;
  sc_signal<unsigned> nresp;
  d.lookup_indecies_data(idx), d.lookup_indecies_target_channels(tgt), d.lookup_indecies_base_addresses(base),
      d.lookup_indecies_valid(valid), d.lookup_indecies_ready(ready), d.received_responses(nresp);
#endif
  d.clk(clk), d.rst(rst), d.collector_fifo_rdy(rdy), d.collector_fifo_ren(ren), d.collector_fifo_rdata(rd);
  build();
  // what the design answers: right, or wrong in one element of one output
  int bad = ex::branch(1 + NO * 3), base_in = ex::branch(2), base_out = ex::branch(3);
  auto answer = [&](int i) {
    ivec v = golden(i);
    if (bad && (bad - 1) / 3 == i) {
      int l = (bad - 1) % 3 == 0 ? 0 : (bad - 1) % 3 == 1 ? NL / 2 : NL - 1;
      v[l] = wrap((uint64_t)v[l] ^ (1ull << (i == 2 ? EB - 1 : i)));
    }
    return v;
  };
  start();
  int given = 0;
  long after = 0;
  bool shown = false;
  for (long t = 0; after < 20; t++) {
    if (t > 160)
      ex::fail("driver: stops (%d of %d inputs sent, %d of %d outputs taken)", in[0], NIN, given, NO);
    bool r = base_in == 0 || t % 2, o = base_out == 0 ? t > 8 : base_out == 1 ? t > 4 && t % 3 == 0 : t > 30;
    if (t < 12 && ex::choose(2))
      r = !r;
    if (t >= 4 && t < 14 && ex::choose(2))
      o = !o;
    o = (o || shown) && given < NO;
    bool all = given == NO;
    for (int k = 0; k < ND; k++)
      all &= in[k] == NIN;
    after += all;
    cycle(
        [&] {
#ifdef DESIGN_MLP
          for (int k = 0; k < ND; k++)
            drdy[k].write(k ? !r || base_in == 0 : r);
#else
          ready.write(r);
#endif
          rdy.write(o);
          rd.write(o ? to_dv(answer(given)) : to_dv(ivec(NL, 0)));
        },
        [&] {
#ifdef DESIGN_MLP
          for (int k = 0; k < ND; k++) {
            if (dwen[k].read() && !rst.read()) {
              if (!allowed[k])
                ex::fail("driver: writes to dispatcher %d which was not ready (cycle %ld)", k, t);
              if (in[k] >= NIN)
                ex::fail("driver: sends more than the %d inputs of dispatcher %d", NIN, k);
              if (from_dv(dw[k].read()) != input(k, in[k]))
                ex::fail("driver: input %d of dispatcher %d is wrong", in[k], k);
              in[k]++;
            }
            allowed[k] = drdy[k].read();
          }
#else
          if (!rst.read() && valid.read() && ready.read()) {
            if (in[0] >= NIN)
              ex::fail("driver: sends more than the %d inputs", NIN);
            for (int k = 0; k < 3; k++) {
              data_vector<uint64_t> a = idx.read(), b = base.read();
              data_vector<unsigned> c = tgt.read();
              if (a[k] != input(0, in[0])[k] || c[k] != input(1, in[0])[k] || b[k] != input(2, in[0])[k])
                ex::fail("driver: input %d is wrong", in[0]);
            }
            in[0]++;
          }
#endif
          if (ren.read() != o)
            ex::fail("driver: %s an output (cycle %ld)", o ? "does not take" : "takes a missing", t);
          if (given < NO && g_ctx->is_rad_done())
            ex::fail("driver: finishes after %d of %d outputs", given, NO);
          given += o;
          shown = false;
        });
    ex::visit(hmix((in[0] * 16 + given) * 4 + r * 2 + o) + bad);
  }
  bool failed = g_ctx->GetSimExitCode() != 0;
  if (!g_ctx->is_rad_done())
    ex::fail("driver: does not finish after the last output");
  if (!bad && failed)
    ex::fail("driver: reports a failure although every output is right");
  if (bad && !failed)
    ex::fail("driver: a wrong output (vector %d) is not reported", (bad - 1) / 3);
  ex::S->events += NIN + NO;
  ex::S->nontrivial++;
}

int sc_main(int argc, char **argv) {
  return run(argc, argv, [](const std::string &k, const std::string &root) {
    size_t p = k.find_first_of("0123456789");
    std::string w = k.substr(0, p);
    int n = p == std::string::npos ? 0 : atoi(k.c_str() + p);
    fresh(root, w[0] == 'm' || w == "coll" || w == "colllong" ? MVM_RAD : SRC_RAD);
    if (w == "vfifo")
      vfifo_body(n);
    else if (w == "coll")
      coll_body(n, false);
    else if (w == "colllong")
      coll_body(n, true);
    else if (w == "msched")
      mvm_sched(n);
    else if (w == "mload")
      mvm_load(n);
    else if (w == "mprog")
      mvm_progs(n);
    else if (w == "mlong")
      mvm_long(n);
#ifdef DESIGN_MLP
    else if (w == "disp")
      disp_body(n, false);
    else if (w == "displong")
      disp_body(n, true);
#else
    else if (w == "afifo")
      afifo_body(n);
    else if (w == "elk")
      elk_body(n);
    else if (w == "cfi")
      cfi_body(0, n, false);
    else if (w == "cfiprog")
      cfi_body(n, 5, true);
#endif
    else if (w == "driver")
      driver_body(n);
    else
      ex::fail("harness: unknown scenario %s", k.c_str());
  });
}
