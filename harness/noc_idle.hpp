// Idle-network oracle: once all traffic has been consumed, every node and
// every router must see all of its credits again.
#pragma once
#include "explore.hpp"
#include <radsim_config.hpp>
#include <radsim_noc.hpp>
inline void check_credits_idle(radsim_noc *noc, int vcs, int phase) {
  for (int n = 0; n < noc->GetNumNodes(); n++) {
    BufferState *b = noc->GetBufferState(n);
    for (int v = 0; v < vcs; v++)
      if (!b->IsEmptyFor(v))
        ex::fail("credits: node %d VC %d: not all credits returned after the network drained "
                 "(phase %d)",
                 n, v, phase);
  }
  for (auto *r : noc->GetNetwork()->GetRouters())
    for (int o = 0; o < r->NumOutputs(); o++)
      if (r->GetUsedCredit(o) != 0)
        ex::fail("credits: router %d output %d still counts %d used credits after drain",
                 r->GetID(), o, r->GetUsedCredit(o));
}
