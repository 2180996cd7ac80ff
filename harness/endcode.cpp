// P22: the main.cpp that config.py generates, linked with a design whose RADs
// finish and fail at every combination of times.
#include "hutil.hpp"
#include <systemc.h>
#include <vtest_system.hpp>
vplan g_plan[8];
static double g_done_at[8], g_end = -1;
static int g_rads;
int generated_main(int argc, char **argv);

vtest_agent::vtest_agent(const sc_module_name &n, RADSimDesignContext *x) : sc_module(n), ctx(x) {
  SC_CTHREAD(Run, clk.pos());
}
vtest_system::vtest_system(const sc_module_name &n, sc_clock *c, RADSimDesignContext *x) : sc_module(n) {
  top = new vtest_top("dut", x, c);
  top->rst(rst);
  agent = new vtest_agent("agent", x);
  agent->clk(*c);
  design_dut_inst = top;
}
static double now() { return sc_time_stamp().to_seconds() * 1e9; }
vtest_system::~vtest_system() {
  if (g_end < 0)
    g_end = now();
}
void vtest_agent::Run() {
  vplan p = g_plan[ctx->rad_id];
  for (int k = 0;; k++) {
    ex::S->transitions++;
    // the same edge may carry both reports
    if (k == p.fail)
      ctx->ReportDesignFailure();
    if (k == p.done) {
      g_done_at[ctx->rad_id] = now();
      ctx->set_rad_done();
    }
    wait();
  }
}

static void body() {
  static const int done[] = {0, 1, 2, 5}, dn = 4;
  std::string plan;
  uint64_t h = g_rads;
  for (int i = 0; i < g_rads; i++) {
    g_plan[i].done = done[ex::branch(dn)];
    // never, at the start, together with completion, after completion
    int f = ex::branch(4);
    g_plan[i].fail = f == 0 ? -1 : f == 1 ? 0 : f == 2 ? g_plan[i].done : g_plan[i].done + 1;
    plan += " RAD" + std::to_string(i) + "(done in cycle " + std::to_string(g_plan[i].done) +
            (f ? ", failure in cycle " + std::to_string(g_plan[i].fail) : "") + ")";
    h = hmix(h * 16 + g_plan[i].done) ^ g_plan[i].fail;
  }
  ex::visit(h);
  int last = 0, last_rad = 0;
  for (int i = 0; i < g_rads; i++)
    if (g_plan[i].done > last)
      last = g_plan[i].done, last_rad = i;
  // a failure reported after every RAD is done is outside the simulation
  bool expect = false, open = false;
  for (int i = 0; i < g_rads; i++) {
    if (g_plan[i].fail >= 0 && g_plan[i].fail <= last)
      expect = true;
    else if (g_plan[i].fail > last)
      open = true;
  }
  for (auto &d : g_done_at)
    d = -1;
  mute();
  char a0[] = "sim";
  char *av[] = {a0, nullptr};
  int rc = generated_main(1, av);
  for (int i = 0; i < g_rads; i++)
    if (g_done_at[i] < 0)
      ex::fail("end: the simulation ended before RAD %d was done:%s", i, plan.c_str());
  if (g_end > g_done_at[last_rad] + 10.01)
    ex::fail("end: the simulation went on for %g ns after every RAD was done:%s", g_end - g_done_at[last_rad], plan.c_str());
  if (expect && (rc & 0xff) == 0)
    ex::fail("exit status: %d although a RAD reported a failure:%s", rc, plan.c_str());
  if (!expect && !open && rc != 0)
    ex::fail("exit status: %d although no RAD reported a failure:%s", rc, plan.c_str());
  ex::S->nontrivial++;
  ex::S->events++;
  ex::sample("%d RADs:%s -> exit status %d at %g ns", g_rads, plan.c_str(), rc, g_end);
}

int sc_main(int argc, char **argv) {
  Args a(argc, argv);
  g_rads = a.i("rads", 1);
  ex::g_maxproc = a.i("jobs", 8);
  if (a.kv.count("replay"))
    ex::set_replay(a.s("replay") == "default" ? "" : a.s("replay"));
  ex::explore("rads" + std::to_string(g_rads), 0, body);
  int rc = ex::report();
  fflush(stdout);
  _exit(rc);
}
