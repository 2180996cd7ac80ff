#pragma once
#include <fstream>
#include <iostream>
#include <radsim_config.hpp>
#include <radsim_telemetry.hpp>
RADSimConfig radsim_config;
std::ostream *gWatchOut = &std::cout;
SimLog sim_log;
SimTraceRecording sim_trace_probe;
