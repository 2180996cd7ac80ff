// Observes the flits on the injection and ejection channels of every node and
// compares them with the injection and ejection times in the traces.
#pragma once
#include "explore.hpp"
#include <algorithm>
#include <map>
#include <radsim_noc.hpp>
#include <radsim_telemetry.hpp>
struct FlitMon : sc_module {
  radsim_noc *noc;
  double period;
  struct Inj {
    double head = -1;
    int flits = 0, src = -1, dest = -1;
  };
  std::map<int, Inj> inj;
  std::vector<std::vector<double>> ej;
  SC_HAS_PROCESS(FlitMon);
  FlitMon(const sc_module_name &n, radsim_noc *x, sc_clock *c, double p) : sc_module(n), noc(x), period(p), ej(x->GetNumNodes()) {
    SC_METHOD(sample);
    sensitive << c->negedge_event();
    dont_initialize();
  }
  void sample() {
    double t = sc_time_stamp().to_double() / 1000;
    for (int n = 0; n < (int)ej.size(); n++) {
      if (Flit *f = noc->GetNetwork()->GetInject(n)->Receive()) {
        Inj &i = inj[f->id];
        if (f->head)
          i.head = t, i.src = n, i.dest = f->dest;
        i.flits++;
      }
      if (noc->GetNetwork()->GetEject(n)->Receive())
        ej[n].push_back(t);
    }
  }
  static FlitMon *create(int rad) {
    auto *noc = dynamic_cast<radsim_noc *>(sc_find_object("vtop.radsim_noc_0"));
    if (!noc)
      noc = dynamic_cast<radsim_noc *>(sc_find_object("radsim_noc_0"));
    auto *clk = dynamic_cast<sc_clock *>(sc_find_object("noc_clk0"));
    return noc && clk ? new FlitMon("flit_mon", noc, clk, radsim_config.GetDoubleVectorKnobPerRad("noc_clk_period", 0, rad)) : nullptr;
  }
  void check(bool same_ids) {
    auto &tb = NoCTransactionTelemetry::trace_bookkeeping;
    bool first = true;
    double d = 0;
    std::vector<std::vector<std::pair<double, int>>> arr(ej.size()); // (ejection time, trace)
    for (auto &p : tb) {
      auto it = inj.find(p.first);
      if (it == inj.end() || it->second.head < 0)
        ex::fail("telemetry: no head flit of transaction %d was seen entering the NoC", p.first);
      double x = it->second.head - p.second.t_inject;
      if (first)
        d = x, first = false;
      // a flit reaches its router a fixed number of cycles after its injection
      if (x < 0 || x > 4 * period || x - d > 1e-3 || d - x > 1e-3)
        ex::fail("telemetry: transaction %d injected at %g ns according to its trace, but its head flit arrived at its router %g ns "
                 "after that (others: %g ns)",
                 p.first, p.second.t_inject, x, d);
      if (same_ids && it->second.src != p.second.src_node)
        ex::fail("telemetry: transaction %d entered at node %d, the trace says %d", p.first, it->second.src, p.second.src_node);
      arr.at(it->second.dest).push_back({p.second.t_eject, p.first});
    }
    first = true;
    for (size_t n = 0; n < arr.size(); n++) {
      if (arr[n].empty())
        continue;
      std::sort(arr[n].begin(), arr[n].end());
      // the last transaction leaves with the last flit
      double x = arr[n].back().first - ej[n].back();
      if (first)
        d = x, first = false;
      if (x < -4 * period || x > 4 * period || x - d > 1e-3 || d - x > 1e-3)
        ex::fail("telemetry: transaction %d ejected at %g ns according to its trace, the last flit left the network %g ns before that "
                 "(other nodes: %g ns)",
                 arr[n].back().second, arr[n].back().first, x, d);
      size_t need = 0, k = 0;
      for (auto &a : arr[n]) {
        need += inj[a.second].flits;
        while (k < ej[n].size() && ej[n][k] + d <= a.first + 1e-3)
          k++;
        if (k < need || (k > 0 && a.first - ej[n][k - 1] - d > 1e-3))
          ex::fail("telemetry: transaction %d ejected at %g ns according to its trace, but %s", a.second, a.first,
                   k < need ? "not all of its flits had left the network" : "no flit left the network then");
      }
    }
  }
};
