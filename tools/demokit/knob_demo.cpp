// The knobs written last are the knobs read back.
#include <design_context.hpp>
#include <radsim_config.hpp>
#include <systemc.h>
#include <fstream>
RADSimConfig radsim_config;
std::ostream *gWatchOut;
SimLog sim_log;
SimTraceRecording sim_trace_probe;
int sc_main(int, char **argv) {
  radsim_config.ResizeAll(2);
  std::ofstream f(std::string(argv[1]) + "/knobs");
  f << "noc_vcs 0 3 4 \nnoc_vcs 1 5 6 7 \nnoc_vcs 0 8 9 10 \nnoc_clk_period 1 1.5 \nnoc_clk_period 1 2.25 3 \nnoc_clk_period 0 1 \nnum_rads 3\nnum_rads 2\n";
  f.close();
  ParseRADSimKnobs(std::string(argv[1]) + "/knobs");
  std::vector<int> a{8, 9, 10}, b{5, 6, 7};
  std::vector<double> c{2.25, 3};
  bool ok = radsim_config.GetIntKnobShared("num_rads") == 2 &&
            radsim_config.GetIntVectorKnobPerRad("noc_vcs", 0) == a && radsim_config.GetIntVectorKnobPerRad("noc_vcs", 1) == b &&
            radsim_config.GetDoubleVectorKnobPerRad("noc_clk_period", 1) == c && radsim_config.GetDoubleVectorKnobPerRad("noc_clk_period", 0u).size() == 1;
  std::cout << (ok ? "ok" : "a knob differs from what was written last") << std::endl;
  return !ok;
}
