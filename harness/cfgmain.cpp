// P17: runs the generated main program with stub designs and prints which
// design was created for which RAD, in order.
#include <cfgmain_system.hpp>
#include <cstdio>
#include <unistd.h>
int generated_main(int argc, char **argv);
static RADSimDesignContext *g_seen[64];
static int g_done;
void cfg_note(const char *design, RADSimDesignContext *x) {
  printf("@sys %s %d\n", design, (int)x->rad_id);
  fflush(stdout);
}
cfg_agent::cfg_agent(const sc_module_name &n, RADSimDesignContext *x) : sc_module(n), ctx(x) {
  SC_CTHREAD(Run, clk.pos());
}
void cfg_agent::Run() {
  ctx->set_rad_done();
  while (true)
    wait();
}
int sc_main(int argc, char **argv) {
  int rc = generated_main(argc, argv);
  fflush(stdout);
  _exit(rc);
}
