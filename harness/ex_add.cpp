// P20: the modules and drivers of the add and mult example designs.
#include "design_env.hpp"
#include <client.hpp>
#ifdef DESIGN_MULT
#include <mult.hpp>
#include <mult_driver.hpp>
typedef mult unit_t;
typedef mult_driver driver_t;
#define UNIT "mult_inst"
#define UNIT_PORT "mult_inst.axis_mult_interface"
static axis_slave_port &in_of(unit_t *u) { return u->axis_mult_interface; }
static uint64_t op(uint64_t a, uint64_t b) { return a * b; }
static const uint64_t NEUTRAL = 1;
#else
#include <add_driver.hpp>
#include <adder.hpp>
typedef adder unit_t;
typedef add_driver driver_t;
#define UNIT "adder_inst"
#define UNIT_PORT "adder_inst.axis_adder_interface"
static axis_slave_port &in_of(unit_t *u) { return u->axis_adder_interface; }
static uint64_t op(uint64_t a, uint64_t b) { return a + b; }
static const uint64_t NEUTRAL = 0;
#endif
using namespace de;

typedef sc_bv<DATAW> word;
static word pat(uint64_t s) {
  word w;
  fill_pattern(w, DATAW, s);
  return w;
}

// ------------------------------------------------------------------------ FIFO
template <class T> struct FifoRig {
  sc_signal<bool> clk, rst, wen, ren, full, afull, empty, aempty;
  sc_signal<T> wd, rd;
  fifo<T> f;
  unsigned depth, af, ae;
  FifoRig(unsigned d, unsigned a, unsigned e) : f("f", d, a, e), depth(d), af(a), ae(e) {
    f.clk(clk), f.rst(rst), f.wen(wen), f.wdata(wd), f.ren(ren), f.rdata(rd), f.full(full), f.almost_full(afull),
        f.empty(empty), f.almost_empty(aempty);
  }
  void edge() {
    clk.write(true);
    sc_start(1, SC_NS);
    clk.write(false);
    sc_start(1, SC_NS);
    ex::S->transitions++;
  }
};
template <class T> void check_flags(FifoRig<T> &r, std::deque<T> &m, const std::string &ops, bool after_reset) {
  bool e = m.empty(), f = m.size() == r.depth, af = m.size() >= r.af && !after_reset, ae = m.size() <= r.ae || after_reset;
  if (r.empty.read() != e)
    ex::fail("fifo: empty is %d with %zu stored (depth %u, operations %s)", r.empty.read(), m.size(), r.depth, ops.c_str());
  if (r.full.read() != f)
    ex::fail("fifo: full is %d with %zu stored (depth %u, operations %s)", r.full.read(), m.size(), r.depth, ops.c_str());
  if (r.afull.read() != af)
    ex::fail("fifo: almost_full is %d with %zu stored (depth %u, threshold %u, operations %s)", r.afull.read(), m.size(),
             r.depth, r.af, ops.c_str());
  if (r.aempty.read() != ae)
    ex::fail("fifo: almost_empty is %d with %zu stored (depth %u, threshold %u, operations %s)", r.aempty.read(), m.size(),
             r.depth, r.ae, ops.c_str());
  if (!e && !(r.rd.read() == m.front()))
    ex::fail("fifo: the read port does not show the oldest element (depth %u, operations %s)", r.depth, ops.c_str());
}
template <class T> T value(uint64_t i);
template <> word value<word>(uint64_t i) { return pat(i); }
template <> bool value<bool>(uint64_t i) { return hmix(i) & 1; }
template <class T> void fifo_body(int L) {
  static const unsigned cfg[][3] = {{2, 1, 0}, {3, 2, 1}, {4, 2, 1}};
  int c = ex::branch(3);
  FifoRig<T> r(cfg[c][0], cfg[c][1], cfg[c][2]);
  sc_start(1, SC_NS);
  std::vector<int> seq;
  // every operation sequence of length L, one after the other with a reset in
  // between; the first operation that is not allowed is tried in a process of
  // its own and must be reported as an error
  std::set<std::pair<int, int>> tried;
  long total = 1;
  for (int i = 0; i < L; i++)
    total *= 4;
  for (long code = 0; code < total; code++) {
    r.rst.write(true), r.wen.write(false), r.ren.write(false);
    r.edge();
    r.rst.write(false);
    std::deque<T> m;
    std::string ops;
    check_flags(r, m, ops, true);
    long x = code;
    bool cut = false;
    for (int i = 0; i < L && !cut; i++, x /= 4) {
      bool w = x & 1, rd = x & 2;
      ops += "-WRB"[x & 3];
      bool illegal = (rd && m.empty()) || (w && m.size() - (rd && !m.empty()) == r.depth);
      T v = value<T>(code * 16 + i);
      r.wen.write(w), r.ren.write(rd);
      r.wd.write(v);
      if (illegal) {
        cut = true;
        if (tried.insert({(int)m.size(), (int)(x & 3)}).second) {
          int rc = in_child([&]() { r.edge(); });
          if (rc == 77)
            ex::fail("fifo: %s a FIFO with %zu of %u elements is not reported (operations %s)",
                     rd && m.empty() ? "reading" : "writing", m.size(), r.depth, ops.c_str());
          if (rc >= 256)
            ex::fail("fifo: crash with signal %d (operations %s)", rc - 256, ops.c_str());
        }
        // skip the sequences with the same prefix
        long step = 1;
        (void)step;
        break;
      }
      r.edge();
      if (rd)
        m.pop_front();
      if (w)
        m.push_back(v);
      check_flags(r, m, ops, false);
      ex::visit(hmix(c * 1000003 + std::hash<std::string>()(ops)) ^ (sizeof(T) == 1));
    }
    if (!cut)
      ex::S->nontrivial++;
    ex::S->events++;
  }
  ex::sample("fifo of depth %u: %ld operation sequences of length %d", r.depth, total, L);
}

// ---------------------------------------------------------------------- client
static void client_body(int N) {
  client c("client_inst", g_ctx);
  g_place.push_back("client_inst 0 3 axis");
  g_clks.push_back("client_inst 0 0");
  int node = 5;
  add_stub(UNIT, {{UNIT_PORT, 'S'}}, node);
  sc_signal<bool> rst, last, valid, ready;
  sc_signal<word> data;
  axis_signal w;
  c.rst(rst), c.client_tdata(data), c.client_tlast(last), c.client_valid(valid), c.client_ready(ready);
  bind(c.axis_client_interface, w);
  build();
  std::string dst = UNIT_PORT, src = "client_inst.axis_client_interface";
  unsigned want = g_ctx->GetPortDestinationID(dst);
  // base patterns
  int values = ex::branch(3), sink = ex::branch(4), source = ex::branch(3);
  auto item = [&](int i) { return values == 0 ? pat(i + 1) : values == 1 ? pat(1) : i % 2 ? word(0) : pat(i); };
  int group = ex::branch(2) ? 3 : N; // tlast at the end of every group
  auto islast = [&](int i) { return i % group == group - 1 || i == N - 1; };
  AxisWatch aw;
  int in = 0, out = 0;
  rst.write(true);
  start();
  for (int i = 0; i < 2; i++)
    cycle([] {}, [&] {
      if (w.tvalid.read())
        ex::fail("client: offers a transfer during reset");
    });
  rst.write(false);
  int idle = 0, decided = 0, full_seen = 0;
  for (long t = 0; out < N; t++) {
    if (t > 12 * N + 60)
      ex::fail("client: stops after %d of %d items (%d accepted from the driver)", out, N, in);
    bool v = source == 0 ? true : source == 1 ? t % 2 == 0 : t % 5 < 2;
    bool r = sink == 0 ? true : sink == 1 ? t % 2 : sink == 2 ? t >= 22 : t % 7 == 0;
    if (decided < 2 * N + 6) { // deviations from the base pattern
      decided++;
      if (ex::choose(2))
        v = !v;
      if (ex::choose(2))
        r = !r;
    }
    v = v && in < N;
    cycle(
        [&] {
          valid.write(v);
          if (v)
            data.write(item(in)), last.write(islast(in));
          else
            data.write(pat(999 + t)), last.write(t & 1);
          w.tready.write(r);
        },
        [&] {
          if (aw.look(w, "client")) {
            if (out >= in)
              ex::fail("client: sends item %d which was not offered yet", out);
            sc_bv<AXIS_MAX_DATAW> d = w.tdata.read();
            if (d.range(DATAW - 1, 0) != item(out))
              ex::fail("client: item %d of %d leaves altered, duplicated or out of order (cycle %ld)", out, N, t);
            if (w.tlast.read() != islast(out))
              ex::fail("client: tlast of item %d is %d", out, w.tlast.read());
            sc_bv<AXIS_DESTW> td = w.tdest.read();
            if (DEST_LOCAL_NODE(td).to_uint() != want || DEST_RAD(td).to_uint() != 0)
              ex::fail("client: item %d is addressed to node %u instead of %u", out, DEST_LOCAL_NODE(td).to_uint(), want);
            out++;
          }
          if (valid.read() && ready.read())
            in++;
          if (!ready.read())
            full_seen = 1;
          idle = 0;
        });
    ex::visit(hmix((in * 64 + out) * 8 + w.tvalid.read() * 4 + ready.read() * 2 + w.tready.read()) + values + group);
  }
  for (int i = 0; i < 4; i++)
    cycle([&] { valid.write(false), w.tready.write(true); },
          [&] {
            if (aw.look(w, "client"))
              ex::fail("client: sends more items than it accepted");
          });
  ex::S->events += out;
  ex::S->nontrivial += full_seen;
}

// ------------------------------------------------------------------ adder/mult
static void unit_body(int N) {
  unit_t u(UNIT, g_ctx);
  g_place.push_back(UNIT " 0 3 axis");
  g_clks.push_back(UNIT " 0 0");
  sc_signal<bool> rst, rv;
  sc_signal<word> resp;
  axis_signal w;
  u.rst(rst), u.response_valid(rv), u.response(resp);
  bind(in_of(&u), w);
  build();
  static const uint64_t big[] = {3, 7, 0xffffffffull, 0x100000001ull, 0x8000000000000000ull, 2, 0xffffffffffffffffull, 1, 0};
  int n = 1 + ex::branch(N), v0 = ex::branch(9), gap0 = ex::branch(3);
  rst.write(true);
  start();
  for (int i = 0; i < 2; i++)
    cycle([] {}, [] {});
  rst.write(false);
  uint64_t acc = NEUTRAL;
  int sent = 0;
  bool got = false;
  for (int t = 0; t < n * 4 + 20 && !got; t++) {
    bool v = sent < n && (gap0 == 0 || (gap0 == 1 ? t % 2 : t % 3 == 0));
    if (t < 3 * n && ex::choose(2))
      v = !v && sent < n;
    uint64_t x = big[(v0 + (sent < n ? sent * (1 + (v0 & 1)) : 0)) % 9];
    cycle(
        [&] {
          w.tvalid.write(v);
          sc_bv<AXIS_MAX_DATAW> d;
          d = 0;
          d.range(63, 0) = v ? x : hmix(t);
          w.tdata.write(d);
          w.tlast.write(v ? sent == n - 1 : true);
        },
        [&] {
          if (rv.read()) {
            got = true;
            if (sent < n)
              ex::fail("unit: a result appears after %d of %d operands", sent, n);
            uint64_t y = resp.read().range(63, 0).to_uint64();
            if (y != acc)
              ex::fail("unit: the result of %d operands is %llx instead of %llx", n, (unsigned long long)y,
                       (unsigned long long)acc);
          }
          if (w.tvalid.read() && w.tready.read()) {
            acc = op(acc, x);
            sent++;
          }
        });
  }
  if (!got)
    ex::fail("unit: no result after %d operands", n);
  ex::visit(hmix(acc * 31 + n));
  ex::S->nontrivial++;
  ex::S->events += n;
}

// ---------------------------------------------------------------------- driver
static void driver_body() {
  driver_t d("driver", g_ctx);
  sc_clock clk("clk", P, SC_NS);
  sc_signal<bool> rst, last, valid, ready, rv;
  sc_signal<word> data, resp;
  d.clk(clk), d.rst(rst), d.client_tdata(data), d.client_tlast(last), d.client_valid(valid), d.client_ready(ready),
      d.response(resp), d.response_valid(rv);
  // what the design answers: the right result, or one that differs somewhere
  static const int flips[] = {-1, 0, 1, 7, 31, 32, 40, 63};
  int f = ex::branch(8), pattern = ex::branch(3), when = ex::branch(2);
  uint64_t acc = NEUTRAL;
  int items = 0, lasts = 0;
  rv.write(false);
  start();
  for (int t = 0; t < 60 && !lasts; t++) {
    bool r = pattern == 0 ? true : pattern == 1 ? t % 2 : t % 3 == 2;
    if (t < 14 && ex::choose(2))
      r = !r;
    cycle([&] { ready.write(r); },
          [&] {
            if (g_ctx->is_rad_done())
              ex::fail("driver: finishes before there is a result");
            if (!rst.read() && valid.read() && ready.read()) {
              acc = op(acc, data.read().range(63, 0).to_uint64());
              items++;
              lasts += last.read();
            }
          });
  }
  if (!lasts)
    ex::fail("driver: never sends the last operand");
  for (int t = 0; t < (when ? 5 : 0); t++)
    cycle([&] { ready.write(true); }, [&] {
      if (valid.read())
        ex::fail("driver: sends more operands after the last one");
      if (g_ctx->is_rad_done())
        ex::fail("driver: finishes before there is a result");
    });
  word x = 0;
  x.range(63, 0) = acc;
  if (flips[f] >= 0)
    x[flips[f]] = !x[flips[f]].to_bool();
  for (int t = 0; t < 4; t++)
    cycle([&] { resp.write(x), rv.write(true), ready.write(true); }, [&] {
      if (valid.read())
        ex::fail("driver: sends more operands after the last one");
    });
  bool failed = g_ctx->GetSimExitCode() != 0;
  if (!g_ctx->is_rad_done())
    ex::fail("driver: does not finish after the result");
  if (flips[f] < 0 && failed)
    ex::fail("driver: reports a failure although the result of the %d operands it sent is right", items);
  if (flips[f] >= 0 && !failed)
    ex::fail("driver: a wrong result (bit %d) is not reported", flips[f]);
  ex::visit(hmix(f * 100 + items) + when);
  ex::S->nontrivial++;
  ex::S->events += items;
}

int sc_main(int argc, char **argv) {
  return run(argc, argv, [](const std::string &k, const std::string &root) {
    fresh(root);
    int n = atoi(k.c_str() + k.find_first_of("0123456789"));
    if (k.substr(0, 5) == "fifow")
      fifo_body<word>(n);
    else if (k.substr(0, 5) == "fifob")
      fifo_body<bool>(n);
    else if (k.substr(0, 6) == "client")
      client_body(n);
    else if (k.substr(0, 4) == "unit")
      unit_body(n);
    else
      driver_body();
  });
}
