// Stub designs for the main program that config.py generates (P17).
#pragma once
#include <vtest_system.hpp>
void cfg_note(const char *design, RADSimDesignContext *x);
struct cfg_agent : public sc_module {
  sc_in<bool> clk;
  RADSimDesignContext *ctx;
  SC_HAS_PROCESS(cfg_agent);
  cfg_agent(const sc_module_name &n, RADSimDesignContext *x);
  void Run();
};
#define CFG_SYSTEM(D)                                                                                  \
  struct D##_system : public RADSimDesignSystem {                                                      \
    sc_signal<bool> rst;                                                                               \
    D##_system(const sc_module_name &n, sc_clock *c, RADSimDesignContext *x) : sc_module(n) {          \
      cfg_note(#D, x);                                                                                 \
      auto *top = new vtest_top("dut", x, c);                                                          \
      top->rst(rst);                                                                                   \
      auto *agent = new cfg_agent("agent", x);                                                         \
      agent->clk(*c);                                                                                  \
      design_dut_inst = top;                                                                           \
    }                                                                                                  \
    ~D##_system() {}                                                                                   \
  };
