// P20: the modules and the driver of the mlp_int8 example design.
#include "design_env.hpp"
#include <collector.hpp>
#include <dispatcher.hpp>
#include <fifo.hpp>
#include <inst_loader.hpp>
#include <mlp_driver.hpp>
#include <sysc_mvm.hpp>
#include <weight_loader.hpp>
using namespace de;
typedef sc_int<IPRECISION> elem;
typedef data_vector<elem> dvec;
typedef std::vector<int> ivec;
typedef sc_bv<AXIS_MAX_DATAW> bus;
static const int NL = LANES, EB = IPRECISION;

static int wrap8(long x) { return (int)(int8_t)x; }
static ivec lanes(uint64_t seed, int kind) { // kind 0: mixed, 1: zeros, 2: all the same, 3: extremes
  ivec v(NL);
  for (int i = 0; i < NL; i++) {
    uint64_t h = hmix(seed * 64 + i);
    v[i] = kind == 1 ? 0 : kind == 2 ? 5 : kind == 3 ? (h & 1 ? -128 : 127) : h % 3 ? (int)(h % 17) - 8 : wrap8(h >> 8);
  }
  return v;
}
static bus to_bus(const ivec &v) {
  bus b;
  b = 0;
  for (int i = 0; i < NL; i++)
    b.range((i + 1) * EB - 1, i * EB) = sc_bv<EB>(sc_int<EB>(v[i]));
  return b;
}
static dvec to_dv(const ivec &v) {
  dvec d(v.size());
  for (size_t i = 0; i < v.size(); i++)
    d[i] = v[i];
  return d;
}
static ivec from_bus(const bus &b) {
  ivec v(NL);
  for (int i = 0; i < NL; i++)
    v[i] = (int)sc_int<EB>(sc_bv<EB>(b.range((i + 1) * EB - 1, i * EB)));
  return v;
}
static ivec from_dv(dvec d) {
  ivec v(d.size());
  for (unsigned i = 0; i < d.size(); i++)
    v[i] = (int)d[i];
  return v;
}
static std::string text(const ivec &v) {
  std::string s;
  for (size_t i = 0; i < v.size(); i++)
    s += (i ? " " : "") + std::to_string(v[i]);
  return s;
}
static bool base_ready(int p, long t) { return p == 0 ? true : p == 1 ? t % 2 : p == 2 ? t % 5 == 0 : t >= 30; }

// an instruction as the header documents it
struct Ins {
  int op = 0, dest = 0, rf = 0, acc = 0, last = 0, rel = 0, aen = 0, red = 0;
  uint32_t bits() const {
    return (uint32_t)op << 31 | dest << 22 | rf << 13 | acc << 4 | last << 3 | rel << 2 | aen << 1 | red;
  }
  mvm_inst real() const {
    mvm_inst i;
    i.release_op = op, i.release_dest = dest, i.rf_raddr = rf, i.accum_raddr = acc, i.last = last, i.release = rel, i.accum_en = aen,
    i.reduce = red;
    return i;
  }
  std::string line() const {
    char b[80];
    snprintf(b, sizeof b, "%d %d %d %d %d %d %d %d", op, dest, rf, acc, last, rel, aen, red);
    return b;
  }
};

// ------------------------------------------------------------------------ FIFO
static void fifo_body(int L) {
  static const unsigned cfg[][2] = {{1, 1}, {2, 1}, {3, 2}, {4, 3}};
  int c = ex::branch(4);
  const unsigned D = cfg[c][0], AF = cfg[c][1];
  sc_signal<bool> clk, rst, push, pop, full, afull, empty;
  sc_signal<uint8_t> id, od;
  fifo<uint8_t> f("f", D, AF);
  f.clk(clk), f.rst(rst), f.push(push), f.pop(pop), f.idata(id), f.odata(od), f.full(full), f.almost_full(afull), f.empty(empty);
  auto edge = [&] {
    clk.write(true);
    sc_start(1, SC_NS);
    clk.write(false);
    sc_start(1, SC_NS);
    ex::S->transitions++;
  };
  sc_start(1, SC_NS);
  std::set<std::pair<int, int>> tried;
  long total = 1;
  for (int i = 0; i < L; i++)
    total *= 4;
  for (long code = 0; code < total; code++) {
    rst.write(true), push.write(false), pop.write(false);
    edge();
    rst.write(false);
    std::deque<uint8_t> m;
    std::string ops;
    long x = code;
    bool cut = false;
    for (int i = 0; i < L && !cut; i++, x /= 4) {
      bool w = x & 1, r = x & 2;
      ops += "-WRB"[x & 3];
      bool illegal = (r && m.empty()) || (w && m.size() - (r && !m.empty()) == D);
      uint8_t v = hmix(code * 16 + i);
      push.write(w), pop.write(r), id.write(v);
      if (illegal) {
        cut = true;
        if (tried.insert({(int)m.size(), (int)(x & 3)}).second) {
          int rc = in_child([&]() { edge(); });
          if (rc == 77)
            ex::fail("fifo: %s a FIFO with %zu of %u elements is not reported (operations %s)", r && m.empty() ? "reading" : "writing",
                     m.size(), D, ops.c_str());
          if (rc >= 256)
            ex::fail("fifo: crash with signal %d (operations %s)", rc - 256, ops.c_str());
        }
        break;
      }
      edge();
      if (r)
        m.pop_front();
      if (w)
        m.push_back(v);
      if (empty.read() != m.empty() || full.read() != (m.size() == D) || afull.read() != (m.size() >= AF))
        ex::fail("fifo: flags empty/almost full/full are %d/%d/%d with %zu of %u stored (operations %s)", empty.read(), afull.read(),
                 full.read(), m.size(), D, ops.c_str());
      if (!m.empty() && od.read() != m.front())
        ex::fail("fifo: the read port does not show the oldest element (operations %s)", ops.c_str());
      ex::visit(hmix(c * 1000003 + std::hash<std::string>()(ops)));
    }
    if (!cut)
      ex::S->nontrivial++;
    ex::S->events++;
  }
}

// ----------------------------------------------------------- matrix-vector engine
struct Msg {
  int op; // 0 instruction, 1 reduction, 2 input, 3 weight
  bus data;
  sc_bv<AXIS_USERW> user;
};
struct Want {
  ivec v;
  int dest, op;
};
static const int NA = 3; // register-file addresses in use
static ivec weight(int a, int d, bool sparse) {
  static const int own[] = {0, 1, 31, 62, 63};
  if (sparse && std::find(std::begin(own), std::end(own), d) == std::end(own))
    return lanes(7000 + a, 0);
  return lanes(5000 + a * 64 + d, d == 31 ? 3 : 0);
}
static void load_weights(std::vector<Msg> &q, bool sparse) {
  for (int a = 0; a < NA; a++) {
    if (sparse) { // one word for every row, then the rows that differ
      Msg m{3, to_bus(lanes(7000 + a, 0)), 0};
      m.user = 0;
      m.user.range(8, 0) = a;
      m.user.range(10, 9) = 3;
      for (int d = 0; d < (int)DPES; d++)
        m.user[11 + d] = true;
      q.push_back(m);
    }
    for (int d = 0; d < (int)DPES; d++) {
      if (sparse && weight(a, d, true) == lanes(7000 + a, 0))
        continue;
      Msg m{3, to_bus(weight(a, d, sparse)), 0};
      m.user = 0;
      m.user.range(8, 0) = a;
      m.user.range(10, 9) = 3;
      m.user[11 + d] = true;
      q.push_back(m);
    }
  }
}
static void load_program(std::vector<Msg> &q, const std::vector<Ins> &p) {
  for (auto &i : p) {
    Msg m{0, 0, 0};
    m.data = 0;
    m.data.range(31, 0) = i.bits();
    m.user = 0;
    q.push_back(m);
  }
}
// inputs and reductions for `iters` rounds of the program, and what must come out
static std::vector<Want> feed(std::vector<Msg> &q, const std::vector<Ins> &p, int iters, int order, int kind, bool sparse) {
  std::vector<Msg> in, red;
  std::vector<Want> w;
  std::vector<std::vector<int32_t>> acc(512, std::vector<int32_t>(DPES, 0));
  auto data = [&](int op, const ivec &v) {
    Msg m{op, to_bus(v), 0};
    m.user = 0;
    m.user.range(10, 9) = op;
    return m;
  };
  int ni = 0, nr = 0;
  ivec cur = lanes(ni + 1, kind);
  for (int it = 0; it < iters; it++)
    for (auto &i : p) {
      ivec r(NL, 0);
      if (i.red) {
        r = lanes(300 + nr++, kind == 1 ? 2 : kind);
        red.push_back(data(1, r));
      }
      Want o{ivec(NL), i.dest, i.op};
      for (int d = 0; d < (int)DPES; d++) {
        ivec wv = weight(i.rf, d, sparse);
        long s = i.red ? r[d] : 0;
        for (int l = 0; l < NL; l++)
          s += (long)cur[l] * wv[l];
        acc[i.acc][d] = (i.aen ? acc[i.acc][d] : 0) + (int32_t)s;
        o.v[d] = wrap8(acc[i.acc][d]);
      }
      if (i.rel)
        w.push_back(o);
      if (i.last) {
        in.push_back(data(2, cur));
        ni++;
        cur = lanes(ni + 1, kind == 3 && ni % 2 ? 1 : kind);
      }
    }
  size_t a = 0, b = 0;
  while (a < in.size() || b < red.size()) {
    bool t = order == 0 ? a < in.size() : order == 1 ? b >= red.size() : a * red.size() <= b * in.size() && a < in.size();
    if (!t && b >= red.size())
      t = true;
    q.push_back(t ? in[a++] : red[b++]);
  }
  return w;
}
static void mvm_run(const std::vector<Ins> &prog, int iters, int order, int kind, bool sparse, int sink, int source, long hold, long win) {
  sysc_mvm m("layer0_mvm0", 0, 0, g_ctx);
  g_place.push_back("layer0_mvm0 0 3 axis");
  g_clks.push_back("layer0_mvm0 0 0");
  sc_signal<bool> rst;
  axis_signal rx, tx;
  m.rst(rst);
  bind(m.rx_interface, rx);
  bind(m.tx_interface, tx);
  build();
  std::vector<Msg> q;
  load_weights(q, sparse);
  load_program(q, prog);
  size_t setup = q.size();
  auto want = feed(q, prog, iters, order, kind, sparse);
  AxisWatch aw;
  size_t in = 0, out = 0;
  bool off = false, saw = false;
  long pause = 0, idle = 0;
  rst.write(true);
  start();
  for (int i = 0; i < 2; i++)
    cycle([] {}, [&] {
      if (tx.tvalid.read() || rx.tready.read())
        ex::fail("mvm: active during reset");
    });
  rst.write(false);
  long t0 = -1;
  for (long t = 0; idle < 24; t++) {
    if (t > (long)(q.size() + want.size()) * 14 + 200 + hold)
      ex::fail("mvm: stops after %zu of %zu vectors (%zu of %zu messages taken)", out, want.size(), in, q.size());
    bool loading = in < setup;
    if (in == setup && pause < 6) // weights and instructions are in place before the first vector
      pause++;
    if (!loading && pause >= 6 && t0 < 0)
      t0 = t;
    long u = t0 < 0 ? -1 : t - t0;
    bool v = loading || (u >= 0 && (source == 0 ? true : source == 1 ? u % 2 == 0 : u % 5 < 2));
    bool r = u >= hold && base_ready(sink, u < 0 ? 0 : u);
    if (u >= 0 && u < win) {
      if (ex::choose(2))
        v = !v;
      if (u >= win / 2 || ex::g_in_exec) {
        if (ex::choose(2))
          r = !r;
      }
    }
    v = (v || off) && in < q.size();
    if (in == q.size() && out == want.size())
      idle++;
    cycle(
        [&] {
          rx.tvalid.write(v);
          if (v)
            rx.tdata.write(q[in].data), rx.tuser.write(q[in].user);
          else { // anything may be on the wires of an idle channel
            sc_bv<AXIS_USERW> x;
            x = 0;
            x.range(10, 9) = t % 4;
            rx.tdata.write(to_bus(lanes(900 + t, 0))), rx.tuser.write(x);
          }
          tx.tready.write(r);
        },
        [&] {
          if (aw.look(tx, "mvm")) {
            if (out >= want.size())
              ex::fail("mvm: sends more than the %zu vectors of its program", want.size());
            if (from_bus(tx.tdata.read()) != want[out].v)
              ex::fail("mvm: vector %zu of %zu is wrong (cycle %ld)", out, want.size(), t);
            if (tx.tdest.read().to_uint() != (unsigned)want[out].dest)
              ex::fail("mvm: vector %zu is addressed to %u instead of %d", out, tx.tdest.read().to_uint(), want[out].dest);
            if (tx.tuser.read().range(10, 9).to_uint() != (want[out].op ? 2u : 1u))
              ex::fail("mvm: vector %zu is marked %u", out, tx.tuser.read().range(10, 9).to_uint());
            out++;
          }
          bool acc = v && rx.tready.read();
          saw |= v && !acc && !loading;
          in += acc;
          off = v && !acc;
        });
    ex::visit(hmix(((in * 512 + out) * 4 + tx.tvalid.read() * 2 + r) * 8 + sink) + prog[0].bits());
  }
  if (hold && !saw)
    ex::fail("harness: the engine never refused an input");
  ex::S->events += out;
  ex::S->nontrivial++;
  std::string h;
  for (auto &i : prog)
    h += "[" + i.line() + "] ";
  ex::sample("int8 mvm: %s%d rounds -> %zu vectors", h.c_str(), iters, out);
}
static void mvm_progs(int n) {
  std::vector<Ins> p(n);
  int any = 0;
  for (int k = 0; k < n; k++) {
    int c = ex::branch(32);
    p[k].red = c & 1, p[k].aen = c >> 1 & 1, p[k].rel = c >> 2 & 1, p[k].last = c >> 3 & 1, p[k].acc = c >> 4 & 1 ? 511 : 0;
    p[k].rf = (k + 1) % NA, p[k].dest = 3 + 40 * k, p[k].op = (k + p[k].red) & 1;
    any |= p[k].rel;
  }
  if (!p[n - 1].last || !any) // a round leaves an input half used, or never shows anything
    return;
  mvm_run(p, 3, p[0].red + p[0].aen, 0, true, (p[0].last + p[0].rel) % 3, 0, 0, 0);
}
static const std::vector<std::vector<Ins>> &fixed_progs() {
  auto I = [](int op, int dest, int rf, int acc, int last, int rel, int aen, int red) {
    Ins i;
    i.op = op, i.dest = dest, i.rf = rf, i.acc = acc, i.last = last, i.rel = rel, i.aen = aen, i.red = red;
    return i;
  };
  static const std::vector<std::vector<Ins>> p = {
      {I(1, 5, 0, 0, 1, 1, 0, 0)},                                                         // one row block
      {I(0, 7, 0, 0, 0, 1, 0, 1), I(0, 9, 1, 1, 1, 1, 0, 1)},                              // two row blocks with reduction
      {I(0, 1, 0, 0, 0, 0, 0, 0), I(0, 2, 1, 1, 1, 0, 0, 0), I(1, 3, 2, 0, 0, 1, 1, 0), I(1, 4, 0, 1, 1, 1, 1, 1)}}; // two input chunks
  return p;
}
static void mvm_sched(int win) {
  int p = ex::branch(3), sink = ex::branch(4), source = ex::branch(3), order = p ? ex::branch(3) : 0;
  mvm_run(fixed_progs()[p], 3, order, 0, true, sink, source, 0, win);
}
static void mvm_long(int) {
  int p = ex::branch(3), kind = ex::branch(4);
  mvm_run(fixed_progs()[p], 160, p ? 2 : 0, kind, true, 0, 0, 330, 0);
}
static void mvm_load() { mvm_run(fixed_progs()[2], 4, 2, 0, false, 0, 0, 0, 0); }

// ------------------------------------------------- modules with FIFOs and a stream
// in: accepted by the FIFO interface; out: checked by `check(i)`
static void source_run(const char *who, int N, long hold, sc_signal<bool> &rst, axis_signal &w, const std::function<bool()> &rdy,
                       const std::function<void(bool, int, long)> &drive, const std::function<void(int, long)> &check) {
  int sink = hold ? 0 : ex::branch(4), source = hold ? 0 : ex::branch(3);
  AxisWatch aw;
  int in = 0, out = 0;
  bool allowed = false, saw_full = false;
  rst.write(true);
  drive(false, 0, 0);
  start();
  for (int i = 0; i < 2; i++)
    cycle([] {}, [&] {
      if (w.tvalid.read() || rdy())
        ex::fail("%s: active during reset", who);
    });
  rst.write(false);
  for (long t = 0; out < N; t++) {
    if (t > 12 * N + 60 + hold)
      ex::fail("%s: stops after %d of %d words (%d written)", who, out, N, in);
    bool v = source == 0 ? true : source == 1 ? t % 2 == 0 : t % 5 < 2, r = t >= hold && base_ready(sink, t);
    if (t < 2 * N + 6 && !hold) {
      if (ex::choose(2))
        v = !v;
      if (ex::choose(2))
        r = !r;
    }
    v = v && in < N && allowed;
    cycle(
        [&] {
          drive(v, in, t);
          in += v;
          w.tready.write(r);
        },
        [&] {
          if (aw.look(w, who)) {
            if (out >= in)
              ex::fail("%s: sends word %d which was not written yet", who, out);
            check(out, t);
            out++;
          }
          allowed = rdy();
          saw_full |= !allowed && in;
        });
    ex::visit(hmix((in * 2048 + out) * 4 + w.tvalid.read() * 2 + w.tready.read()) + std::hash<std::string>()(who));
  }
  for (int i = 0; i < 4; i++)
    cycle([&] { drive(false, 0, 0), w.tready.write(true); }, [&] {
      if (aw.look(w, who))
        ex::fail("%s: sends more words than were written", who);
    });
  if (hold && !saw_full)
    ex::fail("harness: %s was never full", who);
  ex::S->events += out;
  ex::S->nontrivial++;
}
static ivec item(int values, int i) { return values == 0 ? lanes(i + 1, 0) : values == 1 ? lanes(0, 1) : i % 2 ? lanes(0, 1) : lanes(i, 3); }
static void engines(int &node) {
  for (int l = 0; l < 2; l++)
    for (int i = 0; i < 3; i++) {
      std::string n = "layer" + std::to_string(l) + "_mvm" + std::to_string(i);
      add_stub(n, {{n + ".axis_rx", 'S'}}, node);
    }
}
static unsigned engine(int l, int i) {
  std::string n = "layer" + std::to_string(l) + "_mvm" + std::to_string(i) + ".axis_rx";
  return g_ctx->GetPortDestinationID(n);
}
static void disp_body(int N, bool longrun) {
  const int id = ex::branch(2), values = ex::branch(3);
  std::string name = "input_dispatcher" + std::to_string(id);
  dispatcher d(name.c_str(), id, g_ctx);
  g_place.push_back(name + " 0 3 axis");
  g_clks.push_back(name + " 0 0");
  int node = 5;
  engines(node);
  sc_signal<bool> rst, rdy, wen;
  sc_signal<dvec> wd;
  axis_signal w;
  d.rst(rst), d.data_fifo_rdy(rdy), d.data_fifo_wen(wen), d.data_fifo_wdata(wd);
  bind(d.tx_interface, w);
  build();
  unsigned want = engine(0, id);
  source_run(
      "dispatcher", N, longrun ? FIFOD + 40 : 0, rst, w, [&] { return rdy.read(); },
      [&](bool v, int i, long t) { wen.write(v), wd.write(to_dv(v ? item(values, i) : lanes(900 + t, 0))); },
      [&](int i, long t) {
        if (from_bus(w.tdata.read()) != item(values, i))
          ex::fail("dispatcher: vector %d of %d leaves altered, duplicated or out of order (cycle %ld)", i, N, t);
        if (w.tdest.read().to_uint() != want || w.tuser.read().range(10, 9).to_uint() != 2)
          ex::fail("dispatcher: vector %d is addressed to node %u instead of %u, marked %u", i, w.tdest.read().to_uint(), want,
                   w.tuser.read().range(10, 9).to_uint());
      });
}
static void wload_body(int N, bool longrun) {
  weight_loader d("weight_loader", g_ctx);
  g_place.push_back("weight_loader 0 3 axis");
  g_clks.push_back("weight_loader 0 0");
  int node = 5;
  engines(node);
  sc_signal<bool> rst, r[5], e[5];
  sc_signal<dvec> wd;
  sc_signal<uint8_t> rf, lay, mvm;
  sc_signal<sc_uint<RF_ADDRW>> ad;
  axis_signal w;
  d.rst(rst);
  d.weight_fifo_rdy(r[0]), d.weight_fifo_wen(e[0]), d.weight_fifo_wdata(wd);
  d.rf_id_fifo_rdy(r[1]), d.rf_id_fifo_wen(e[1]), d.rf_id_fifo_wdata(rf);
  d.rf_addr_fifo_rdy(r[2]), d.rf_addr_fifo_wen(e[2]), d.rf_addr_fifo_wdata(ad);
  d.layer_id_fifo_rdy(r[3]), d.layer_id_fifo_wen(e[3]), d.layer_id_fifo_wdata(lay);
  d.mvm_id_fifo_rdy(r[4]), d.mvm_id_fifo_wen(e[4]), d.mvm_id_fifo_wdata(mvm);
  bind(d.tx_interface, w);
  build();
  // everything changes from word to word, or one thing only
  int kind = ex::branch(7), set = kind % 2, only = kind - 2;
  auto at = [&](int what, int i) { return only < 0 || only == what ? i : 1; };
  auto R = [&](int i) { i = at(0, i); return set ? 63 - i % 64 : i % 2 ? 0 : 63; };
  auto A = [&](int i) { i = at(1, i); return set ? i % 512 : i % 2 ? 511 : 256; };
  auto L = [&](int i) { i = at(2, i); return only == 2 ? i % 2 : (i / (set + 1)) % 2; };
  auto M = [&](int i) { i = at(3, i); return (i * (set + 1)) % 3; };
  auto D = [&](int i) { return item(set * 2, at(4, i)); };
  source_run(
      "weight_loader", N, longrun ? FIFOD + 40 : 0, rst, w,
      [&] { return r[0].read() && r[1].read() && r[2].read() && r[3].read() && r[4].read(); },
      [&](bool v, int i, long t) {
        for (auto &x : e)
          x.write(v);
        wd.write(to_dv(v ? D(i) : lanes(900 + t, 0)));
        rf.write(v ? R(i) : t % 64), ad.write(v ? A(i) : t % 512), lay.write(v ? L(i) : 0), mvm.write(v ? M(i) : 0);
      },
      [&](int i, long t) {
        if (from_bus(w.tdata.read()) != D(i))
          ex::fail("weight_loader: word %d of %d leaves altered, duplicated or out of order (cycle %ld)", i, N, t);
        sc_bv<AXIS_USERW> u;
        u = 0;
        u.range(8, 0) = A(i);
        u.range(10, 9) = 3;
        u[11 + R(i)] = true;
        if (w.tuser.read() != u)
          ex::fail("weight_loader: word %d for row %d, address %d carries user field %s", i, R(i), A(i), w.tuser.read().to_string().c_str());
        if (w.tdest.read().to_uint() != engine(L(i), M(i)))
          ex::fail("weight_loader: word %d for layer %d engine %d is addressed to node %u", i, L(i), M(i), w.tdest.read().to_uint());
      });
}
static void iload_body(int N, bool longrun) {
  inst_loader d("inst_loader", g_ctx);
  g_place.push_back("inst_loader 0 3 axis");
  g_clks.push_back("inst_loader 0 0");
  int node = 5;
  engines(node);
  sc_signal<bool> rst, r[3], e[3];
  sc_signal<mvm_inst> in;
  sc_signal<uint8_t> lay, mvm;
  axis_signal w;
  d.rst(rst);
  d.inst_fifo_rdy(r[0]), d.inst_fifo_wen(e[0]), d.inst_fifo_wdata(in);
  d.layer_id_fifo_rdy(r[1]), d.layer_id_fifo_wen(e[1]), d.layer_id_fifo_wdata(lay);
  d.mvm_id_fifo_rdy(r[2]), d.mvm_id_fifo_wen(e[2]), d.mvm_id_fifo_wdata(mvm);
  bind(d.tx_interface, w);
  build();
  // everything changes from instruction to instruction, or one thing only
  int kind = ex::branch(6), set = kind % 3, only = kind - 3;
  auto at = [&](int what, int i) { return only < 0 || only == what ? i : 1; };
  auto X = [&](int i) {
    Ins x;
    i = at(0, i);
    uint64_t h = set == 0 ? hmix(i + 1) : set == 1 ? (i % 3 ? 1ull << (i * 5 % 40) : 0) : ~0ull;
    x.op = h & 1, x.dest = h >> 1 & 511, x.rf = h >> 10 & 511, x.acc = h >> 19 & 511, x.last = h >> 28 & 1, x.rel = h >> 29 & 1,
    x.aen = h >> 30 & 1, x.red = h >> 31 & 1;
    return x;
  };
  auto L = [&](int i) { i = at(1, i); return set == 2 || only == 1 ? i % 2 : i / 2 % 2; };
  auto M = [&](int i) { i = at(2, i); return set == 2 && only < 0 ? i / 2 % 3 : i % 3; };
  source_run(
      "inst_loader", N, longrun ? FIFOD + 40 : 0, rst, w, [&] { return r[0].read() && r[1].read() && r[2].read(); },
      [&](bool v, int i, long t) {
        for (auto &x : e)
          x.write(v);
        in.write(v ? X(i).real() : X(900 + t).real());
        lay.write(v ? L(i) : 0), mvm.write(v ? M(i) : 0);
      },
      [&](int i, long t) {
        if (w.tdata.read().range(31, 0).to_uint() != X(i).bits())
          ex::fail("inst_loader: instruction %d of %d leaves as %08x instead of %08x (cycle %ld)", i, N,
                   w.tdata.read().range(31, 0).to_uint(), X(i).bits(), t);
        if (w.tuser.read().range(10, 9).to_uint() != 0)
          ex::fail("inst_loader: instruction %d is not marked as one", i);
        if (w.tdest.read().to_uint() != engine(L(i), M(i)))
          ex::fail("inst_loader: instruction %d for layer %d engine %d is addressed to node %u", i, L(i), M(i), w.tdest.read().to_uint());
      });
}
static void coll_body(int N, bool longrun) {
  collector c("output_collector", g_ctx);
  g_place.push_back("output_collector 0 3 axis");
  g_clks.push_back("output_collector 0 0");
  sc_signal<bool> rst, rdy, ren;
  sc_signal<dvec> rd;
  axis_signal w;
  c.rst(rst), c.data_fifo_rdy(rdy), c.data_fifo_ren(ren), c.data_fifo_rdata(rd);
  bind(c.rx_interface, w);
  build();
  int values = ex::branch(3), sink = longrun ? 0 : ex::branch(4), source = longrun ? 0 : ex::branch(3);
  long hold = longrun ? FIFOD + 40 : 0;
  int in = 0, out = 0;
  bool saw_full = false, offered = false;
  rst.write(true);
  start();
  for (int i = 0; i < 2; i++)
    cycle([] {}, [&] {
      if (w.tready.read() || rdy.read())
        ex::fail("collector: active during reset");
    });
  rst.write(false);
  for (long t = 0; out < N; t++) {
    if (t > 12 * N + 60 + hold)
      ex::fail("collector: stops after %d of %d vectors (%d accepted)", out, N, in);
    bool v = source == 0 ? true : source == 1 ? t % 2 == 0 : t % 5 < 2, r = t >= hold && base_ready(sink, t);
    if (t < 2 * N + 6 && !longrun) {
      if (ex::choose(2))
        v = !v;
      if (ex::choose(2))
        r = !r;
    }
    v = (v || offered) && in < N;
    cycle(
        [&] {
          w.tvalid.write(v);
          w.tdata.write(to_bus(v ? item(values, in) : lanes(900 + t, 0)));
          ren.write(r && rdy.read());
        },
        [&] {
          if (ren.read()) {
            if (out >= in)
              ex::fail("collector: vector %d appears before it was received", out);
            if (from_dv(rd.read()) != item(values, out))
              ex::fail("collector: vector %d of %d is altered, duplicated or out of order (cycle %ld)", out, N, t);
            out++;
          }
          if (v && w.tready.read())
            in++;
          offered = v && !w.tready.read();
          saw_full |= offered;
        });
    ex::visit(hmix((in * 2048 + out) * 4 + rdy.read() * 2 + w.tready.read()) + values);
  }
  for (int i = 0; i < 4; i++)
    cycle([&] { w.tvalid.write(false), ren.write(false); }, [&] {
      if (i && rdy.read())
        ex::fail("collector: shows more vectors than it received");
    });
  if (longrun && !saw_full)
    ex::fail("harness: the collector was never full");
  ex::S->events += out;
  ex::S->nontrivial++;
}

// ---------------------------------------------------------------------- driver
static void driver_body(int) {
  const int NO = 3, NIN = 4, NW = 2, NI = 2; // weights per row, instructions per engine
  const int lay[] = {2, 1};                  // engines per layer
  auto golden = [&](int i) { return lanes(40 + i, i == 1 ? 1 : 0); };
  auto input = [&](int d, int i) { return lanes(d * 100 + i + 1, i == 2 ? 1 : 0); };
  struct W {
    ivec v;
    int row, addr, l, m;
  };
  struct J {
    Ins i;
    int l, m;
  };
  std::vector<W> wq;
  std::vector<J> iq;
  put("compiler/layer_mvm_config", "2 1,1 1,0\n");
  std::string s;
  for (int l = 0; l < 2; l++)
    for (int m = 0; m < lay[l]; m++) {
      std::string b = "layer" + std::to_string(l) + "_mvm" + std::to_string(m);
      for (int d = 0; d < (int)DPES; d++) {
        s = "";
        for (int a = 0; a < NW; a++) {
          wq.push_back({lanes(((l * 4 + m) * 64 + d) * 4 + a, 0), d, a, l, m});
          s += text(wq.back().v) + "\n";
        }
        put("compiler/weight_mifs/" + b + "_dot" + std::to_string(d) + ".mif", s);
      }
      s = "";
      for (int i = 0; i < NI; i++) {
        uint64_t h = hmix(l * 64 + m * 8 + i + 1);
        Ins x;
        x.op = h & 1, x.dest = h >> 1 & 511, x.rf = h >> 10 & 511, x.acc = h >> 19 & 511, x.last = h >> 28 & 1, x.rel = h >> 29 & 1,
        x.aen = h >> 30 & 1, x.red = h >> 31 & 1;
        iq.push_back({x, l, m});
        s += x.line() + "\n";
      }
      put("compiler/inst_mifs/" + b + ".mif", s);
    }
  const int ND = lay[0];
  for (int d = 0; d < ND; d++) {
    s = "";
    for (int i = 0; i < NIN; i++)
      s += text(input(d, i)) + "\n";
    put("compiler/input_mifs/inputs_mvm" + std::to_string(d) + ".mif", s);
  }
  s = "";
  for (int i = 0; i < NO; i++)
    s += text(golden(i)) + "\n";
  put("compiler/golden_outputs.mif", s);
  int node = 5;
  add_stub("output_collector", {{"output_collector.data_collect", 'S'}}, node);
  mlp_driver d("driver", g_ctx);
  sc_clock clk("clk", P, SC_NS);
  sc_signal<bool> rst, rdy, ren;
  sc_signal<dvec> rd;
  sc_vector<sc_signal<bool>> drdy("drdy", ND), dwen("dwen", ND);
  sc_vector<sc_signal<dvec>> dw("dw", ND);
  sc_signal<bool> wr[5], we[5], ir[3], ie[3];
  sc_signal<dvec> wd;
  sc_signal<uint8_t> rf, wl, wm, il, im;
  sc_signal<sc_uint<RF_ADDRW>> ad;
  sc_signal<mvm_inst> id;
  for (int k = 0; k < ND; k++)
    d.dispatcher_fifo_rdy[k](drdy[k]), d.dispatcher_fifo_wen[k](dwen[k]), d.dispatcher_fifo_wdata[k](dw[k]);
  d.weight_loader_weight_fifo_rdy(wr[0]), d.weight_loader_weight_fifo_wen(we[0]), d.weight_loader_weight_fifo_wdata(wd);
  d.weight_loader_rf_id_fifo_rdy(wr[1]), d.weight_loader_rf_id_fifo_wen(we[1]), d.weight_loader_rf_id_fifo_wdata(rf);
  d.weight_loader_rf_addr_fifo_rdy(wr[2]), d.weight_loader_rf_addr_fifo_wen(we[2]), d.weight_loader_rf_addr_fifo_wdata(ad);
  d.weight_loader_layer_id_fifo_rdy(wr[3]), d.weight_loader_layer_id_fifo_wen(we[3]), d.weight_loader_layer_id_fifo_wdata(wl);
  d.weight_loader_mvm_id_fifo_rdy(wr[4]), d.weight_loader_mvm_id_fifo_wen(we[4]), d.weight_loader_mvm_id_fifo_wdata(wm);
  d.inst_loader_inst_fifo_rdy(ir[0]), d.inst_loader_inst_fifo_wen(ie[0]), d.inst_loader_inst_fifo_wdata(id);
  d.inst_loader_layer_id_fifo_rdy(ir[1]), d.inst_loader_layer_id_fifo_wen(ie[1]), d.inst_loader_layer_id_fifo_wdata(il);
  d.inst_loader_mvm_id_fifo_rdy(ir[2]), d.inst_loader_mvm_id_fifo_wen(ie[2]), d.inst_loader_mvm_id_fifo_wdata(im);
  d.clk(clk), d.rst(rst), d.collector_fifo_rdy(rdy), d.collector_fifo_ren(ren), d.collector_fifo_rdata(rd);
  build();
  int bad = ex::branch(1 + NO * 3), base_in = ex::branch(2), base_out = ex::branch(3);
  auto answer = [&](int i) {
    ivec v = golden(i);
    if (bad && (bad - 1) / 3 == i) {
      int l = (bad - 1) % 3 == 0 ? 0 : (bad - 1) % 3 == 1 ? NL / 2 : NL - 1;
      v[l] = wrap8(v[l] ^ (1 << (i == 2 ? 7 : i)));
    }
    return v;
  };
  std::vector<int> in(ND, 0);
  std::vector<bool> allowed(ND, false);
  size_t nw = 0, ni = 0;
  bool wok = false, iok = false;
  start();
  int given = 0, phase = 0;
  long after = 0, t1 = 0;
  for (long t = 0; after < 20; t++) {
    if (t > 4000)
      ex::fail("driver: stops (%zu of %zu weights, %zu of %zu instructions, %d of %d inputs sent, %d of %d outputs taken)", nw, wq.size(),
               ni, iq.size(), in[0], NIN, given, NO);
    if (phase == 0 && ni == iq.size() && nw == wq.size()) { // the driver waits for the loaders to drain
      for (int k = 0; k < 3; k++)
        cycle([&] {
          for (auto &x : drdy) x.write(false);
        }, [&] {
          if (k && (we[0].read() || ie[0].read() || dwen[0].read()))
            ex::fail("driver: sends more weights or instructions than its files have");
        });
      sc_start(9000 * P, SC_NS);
      for (int k = 0; k < ND; k++)
        if (dwen[k].read())
          ex::fail("driver: sends inputs while the loaders may be busy");
      for (auto &x : drdy) // let the wait end
        x.write(false);
      sc_start(1100 * P, SC_NS);
      phase = 1;
      t1 = t;
    }
    long u = phase ? t - t1 : t;
    bool r = base_in == 0 || u % 2, o = phase && (base_out == 0 ? u > 8 : base_out == 1 ? u > 4 && u % 3 == 0 : u > 30);
    if (u < 12 && ex::choose(2))
      r = !r;
    if (phase && u >= 4 && u < 14 && ex::choose(2))
      o = !o;
    o = o && given < NO;
    bool all = given == NO;
    for (int k = 0; k < ND; k++)
      all &= in[k] == NIN;
    after += all;
    cycle(
        [&] {
          for (int k = 0; k < ND; k++)
            drdy[k].write(phase && (k ? !r || base_in == 0 : r));
          for (auto &x : wr)
            x.write(r);
          for (auto &x : ir)
            x.write(r);
          rdy.write(o);
          rd.write(o ? to_dv(answer(given)) : to_dv(ivec(NL, 0)));
        },
        [&] {
          if (rst.read())
            return;
          for (auto &x : we)
            if (x.read() != we[0].read())
              ex::fail("driver: writes only some of the weight loader's FIFOs");
          for (auto &x : ie)
            if (x.read() != ie[0].read())
              ex::fail("driver: writes only some of the instruction loader's FIFOs");
          if (we[0].read()) {
            if (!wok || nw >= wq.size())
              ex::fail("driver: writes weight %zu of %zu to a loader that is%s ready", nw, wq.size(), wok ? "" : " not");
            const W &x = wq[nw];
            if (from_dv(wd.read()) != x.v || rf.read() != x.row || (int)ad.read() != x.addr || wl.read() != x.l || wm.read() != x.m)
              ex::fail("driver: weight word %zu (layer %d engine %d row %d address %d) is wrong", nw, x.l, x.m, x.row, x.addr);
            nw++;
          }
          if (ie[0].read()) {
            if (!iok || ni >= iq.size())
              ex::fail("driver: writes instruction %zu of %zu to a loader that is%s ready", ni, iq.size(), iok ? "" : " not");
            const J &x = iq[ni];
            mvm_inst got = id.read(), want = x.i.real();
            if (!(got == want) || il.read() != x.l || im.read() != x.m)
              ex::fail("driver: instruction %zu (layer %d engine %d) is wrong", ni, x.l, x.m);
            ni++;
          }
          wok = wr[0].read(), iok = ir[0].read();
          for (int k = 0; k < ND; k++) {
            if (dwen[k].read()) {
              if (!allowed[k])
                ex::fail("driver: writes to dispatcher %d which was not ready", k);
              if (in[k] >= NIN)
                ex::fail("driver: sends more than the %d inputs of dispatcher %d", NIN, k);
              if (from_dv(dw[k].read()) != input(k, in[k]))
                ex::fail("driver: input %d of dispatcher %d is wrong", in[k], k);
              in[k]++;
            }
            allowed[k] = drdy[k].read();
          }
          if (ren.read() != o)
            ex::fail("driver: %s an output", o ? "does not take" : "takes a missing");
          if (given < NO && g_ctx->is_rad_done())
            ex::fail("driver: finishes after %d of %d outputs", given, NO);
          given += o;
        });
    ex::visit(hmix(((nw * 16 + ni) * 16 + in[0] * 16 + given) * 4 + r * 2 + o) + bad);
  }
  bool failed = g_ctx->GetSimExitCode() != 0;
  if (!g_ctx->is_rad_done())
    ex::fail("driver: does not finish after the last output");
  if (!bad && failed)
    ex::fail("driver: reports a failure although every output is right");
  if (bad && !failed)
    ex::fail("driver: a wrong output (vector %d) is not reported", (bad - 1) / 3);
  ex::S->events += NIN + NO;
  ex::S->nontrivial++;
}

int sc_main(int argc, char **argv) {
  return run(argc, argv, [](const std::string &k, const std::string &root) {
    size_t p = k.find_first_of("0123456789");
    std::string w = k.substr(0, p);
    int n = p == std::string::npos ? 0 : atoi(k.c_str() + p);
    fresh(root, 0);
    if (w == "bfifo")
      fifo_body(n);
    else if (w == "coll" || w == "colllong")
      coll_body(n, w == "colllong");
    else if (w == "disp" || w == "displong")
      disp_body(n, w == "displong");
    else if (w == "wload" || w == "wloadlong")
      wload_body(n, w == "wloadlong");
    else if (w == "iload" || w == "iloadlong")
      iload_body(n, w == "iloadlong");
    else if (w == "msched")
      mvm_sched(n);
    else if (w == "mprog")
      mvm_progs(n);
    else if (w == "mlong")
      mvm_long(n);
    else if (w == "mload")
      mvm_load();
    else if (w == "driver")
      driver_body(n);
    else
      ex::fail("harness: unknown scenario %s", k.c_str());
  });
}
