// The design that the generated main.cpp instantiates in the P22 check.
#pragma once
#include <deque>
#include <design_context.hpp>
#include <design_system.hpp>
#include <design_top.hpp>
#include <systemc.h>
struct vplan { // what one RAD does: when it is done, when it reports a failure (-1: never)
  int done, fail;
};
extern vplan g_plan[8];
struct vtest_top : public RADSimDesignTop {
  sc_in<bool> rst;
  std::deque<axis_signal> sig;
  std::deque<axis_master_port> m;
  std::deque<axis_slave_port> s;
  vtest_top(const sc_module_name &n, RADSimDesignContext *c, sc_clock *clk) : sc_module(n), RADSimDesignTop(c) {
    connectPortalReset(&rst);
#ifndef SINGLE_RAD
    portal_inst->clk(*clk);
    m.emplace_back();
    s.emplace_back();
    sig.emplace_back();
    sig.back().Connect(m.back(), portal_inst->axis_portal_slave_interface);
    sig.emplace_back();
    sig.back().Connect(portal_inst->axis_portal_master_interface, s.back());
#endif
  }
};
struct vtest_agent : public sc_module {
  sc_in<bool> clk;
  RADSimDesignContext *ctx;
  SC_HAS_PROCESS(vtest_agent);
  vtest_agent(const sc_module_name &n, RADSimDesignContext *x);
  void Run();
};
struct vtest_system : public RADSimDesignSystem {
  sc_signal<bool> rst;
  vtest_top *top;
  vtest_agent *agent;
  vtest_system(const sc_module_name &n, sc_clock *c, RADSimDesignContext *x);
  ~vtest_system();
};
