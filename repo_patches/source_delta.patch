From 57b73339d84796d2ca5bf7b68c25d7ae2ae2babf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 01/54] fix: return one NoC credit per ejected flit when an
 adapter runs faster than the NoC

The ejected-flit bookkeeping kept at most one entry per node between two NoC
cycles, so an adapter clocked faster than the NoC lost credits and the NoC
eventually dead-locked.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp |  2 +-
 rad-sim/sim/noc/aximm_master_adapter.hpp |  4 ++--
 rad-sim/sim/noc/aximm_slave_adapter.cpp  |  2 +-
 rad-sim/sim/noc/aximm_slave_adapter.hpp  |  4 ++--
 rad-sim/sim/noc/axis_master_adapter.cpp  |  2 +-
 rad-sim/sim/noc/axis_master_adapter.hpp  |  4 ++--
 rad-sim/sim/noc/radsim_noc.cpp           | 13 ++++++++-----
 rad-sim/sim/noc/radsim_noc.hpp           |  6 +++---
 8 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 200ef3a..7ab68e4 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -4,7 +4,7 @@ aximm_master_adapter::aximm_master_adapter(
     const sc_module_name &name, unsigned int rad_id, int node_id, int network_id,
     BookSimConfig *noc_config, Network *noc, BufferState *buffer_state,
     tRoutingFunction routing_func, bool lookahead_routing,
-    bool wait_for_tail_credit, map<int, int> *ejected_flits,
+    bool wait_for_tail_credit, multimap<int, int> *ejected_flits,
     unsigned int interface_dataw, double node_period, double adapter_period)
     : sc_module(name) {
 
diff --git a/rad-sim/sim/noc/aximm_master_adapter.hpp b/rad-sim/sim/noc/aximm_master_adapter.hpp
index 6e7547a..d9f3cb4 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.hpp
@@ -35,7 +35,7 @@ private:
   tRoutingFunction _routing_func;
   bool _lookahead_routing;
   bool _wait_for_tail_credit;
-  map<int, int> *_ejected_flits;
+  multimap<int, int> *_ejected_flits;
 
   // Request Interface variables
   Flit *_ejected_booksim_flit;
@@ -89,7 +89,7 @@ public:
                        BookSimConfig *noc_config, Network *noc,
                        BufferState *buffer_state, tRoutingFunction routing_func,
                        bool lookahead_routing, bool wait_for_tail_credit,
-                       map<int, int> *ejected_flits,
+                       multimap<int, int> *ejected_flits,
                        unsigned int interface_dataw, double node_period,
                        double adapter_period);
   ~aximm_master_adapter();
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 03738c8..c4674a1 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -6,7 +6,7 @@ aximm_slave_adapter::aximm_slave_adapter(
     const sc_module_name &name, unsigned int rad_id, int node_id, int network_id,
     BookSimConfig *noc_config, Network *noc, BufferState *buffer_state,
     tRoutingFunction routing_func, bool lookahead_routing,
-    bool wait_for_tail_credit, map<int, int> *ejected_flits,
+    bool wait_for_tail_credit, multimap<int, int> *ejected_flits,
     unsigned int interface_dataw, double node_period, double adapter_period)
     : sc_module(name) {
 
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.hpp b/rad-sim/sim/noc/aximm_slave_adapter.hpp
index 7d05d8d..c1d951b 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.hpp
@@ -70,7 +70,7 @@ private:
   tRoutingFunction _routing_func;
   bool _lookahead_routing;
   bool _wait_for_tail_credit;
-  map<int, int> *_ejected_flits;
+  multimap<int, int> *_ejected_flits;
 
   /* Request interface signals for storing selected input request transaction
    * based on the following table:
@@ -170,7 +170,7 @@ public:
                       BookSimConfig *noc_config, Network *noc,
                       BufferState *buffer_state, tRoutingFunction routing_func,
                       bool lookahead_routing, bool wait_for_tail_credit,
-                      map<int, int> *ejected_flits,
+                      multimap<int, int> *ejected_flits,
                       unsigned int interface_dataw, double node_period,
                       double adapter_period);
   ~aximm_slave_adapter() override;
diff --git a/rad-sim/sim/noc/axis_master_adapter.cpp b/rad-sim/sim/noc/axis_master_adapter.cpp
index 26bd400..5f9118d 100644
--- a/rad-sim/sim/noc/axis_master_adapter.cpp
+++ b/rad-sim/sim/noc/axis_master_adapter.cpp
@@ -6,7 +6,7 @@ axis_master_adapter::axis_master_adapter(
     std::vector<unsigned int> &interface_dataw, BookSimConfig *noc_config,
     Network *noc, BufferState *buffer_state, tRoutingFunction routing_func,
     bool lookahead_routing, bool wait_for_tail_credit,
-    map<int, int> *ejected_flits)
+    multimap<int, int> *ejected_flits)
     : sc_module(name) {
   _rad_id = rad_id;
   _node_id = node_id;
diff --git a/rad-sim/sim/noc/axis_master_adapter.hpp b/rad-sim/sim/noc/axis_master_adapter.hpp
index 38d81ba..ac36a0c 100644
--- a/rad-sim/sim/noc/axis_master_adapter.hpp
+++ b/rad-sim/sim/noc/axis_master_adapter.hpp
@@ -30,7 +30,7 @@ private:
   tRoutingFunction _routing_func;
   bool _lookahead_routing;
   bool _wait_for_tail_credit;
-  map<int, int> *_ejected_flits;
+  multimap<int, int> *_ejected_flits;
 
   Flit *_ejected_booksim_flit;
   unsigned int _ejection_afifo_depth;
@@ -59,7 +59,7 @@ public:
                       BookSimConfig *noc_config, Network *noc,
                       BufferState *buffer_state, tRoutingFunction routing_func,
                       bool lookahead_routing, bool wait_for_tail_credit,
-                      map<int, int> *ejected_flits);
+                      multimap<int, int> *ejected_flits);
   ~axis_master_adapter();
 
   void write_sc_packet_to_axis_output(sc_packet &packet,
diff --git a/rad-sim/sim/noc/radsim_noc.cpp b/rad-sim/sim/noc/radsim_noc.cpp
index 4bd974f..77348fc 100644
--- a/rad-sim/sim/noc/radsim_noc.cpp
+++ b/rad-sim/sim/noc/radsim_noc.cpp
@@ -38,7 +38,7 @@ radsim_noc::radsim_noc(const sc_module_name &name, unsigned int rad_id, std::str
   _wait_for_tail_credit = _config.GetInt("wait_for_tail_credit");
 
   // Create ejected flits map and buffer states for all routers in all subnets
-  _ejected_flits = new map<int, int>();
+  _ejected_flits = new multimap<int, int>();
   _buffer_state.resize(_num_noc_nodes);
   for (int node_id = 0; node_id < _num_noc_nodes; node_id++) {
     std::ostringstream tmp_name;
@@ -296,7 +296,7 @@ BufferState *radsim_noc::GetBufferState(int node) {
   return _buffer_state[node];
 }
 
-map<int, int> *radsim_noc::GetEjectedFlitsMap() { return _ejected_flits; }
+multimap<int, int> *radsim_noc::GetEjectedFlitsMap() { return _ejected_flits; }
 
 void radsim_noc::Tick() {
   // Reset Code
@@ -305,14 +305,17 @@ void radsim_noc::Tick() {
   while (true) {
     _booksim_noc->ReadInputs();
     for (int node_id = 0; node_id < _num_noc_nodes; node_id++) {
-      map<int, int>::const_iterator iter = _ejected_flits->find(node_id);
-      if (iter != _ejected_flits->end()) {
+      // A node can return one credit per NoC cycle. If its adapter removed more
+      // than one flit since the last NoC cycle, the remaining credits are kept
+      // and returned (in order) in the following cycles
+      multimap<int, int>::iterator iter = _ejected_flits->lower_bound(node_id);
+      if (iter != _ejected_flits->end() && iter->first == node_id) {
         Credit *const c = Credit::New();
         c->vc.insert(iter->second);
         _booksim_noc->WriteCredit(c, node_id);
+        _ejected_flits->erase(iter);
       }
     }
-    _ejected_flits->clear();
     _booksim_noc->Evaluate();
     _booksim_noc->WriteOutputs();
     _booksim_noc->Trace(NoCFlitTelemetry::ostream, double(GetSimTime()) / 1000);
diff --git a/rad-sim/sim/noc/radsim_noc.hpp b/rad-sim/sim/noc/radsim_noc.hpp
index b6328b9..579528d 100644
--- a/rad-sim/sim/noc/radsim_noc.hpp
+++ b/rad-sim/sim/noc/radsim_noc.hpp
@@ -30,8 +30,8 @@ private:
   bool _lookahead_routing;                  // Is lookahead routing used?
   bool _wait_for_tail_credit;               // Do we wait for tail credit?
   std::vector<BufferState *> _buffer_state; // Vector of buffer state pointers
-  std::map<int, int>
-      *_ejected_flits; // Ejected flit map <node, virtual channel>
+  std::multimap<int, int>
+      *_ejected_flits; // Ejected flits <node, virtual channel>, one entry per flit
 
   unsigned int _num_axis_slave_endpoints, _num_axis_master_endpoints;
   unsigned int _num_aximm_slave_endpoints, _num_aximm_master_endpoints;
@@ -65,7 +65,7 @@ public:
   bool IsLookaheadRouting() const;
   bool IsWaitForTailCredit() const;
   BufferState *GetBufferState(int node);
-  map<int, int> *GetEjectedFlitsMap();
+  multimap<int, int> *GetEjectedFlitsMap();
 
   void Tick();
   SC_HAS_PROCESS(radsim_noc);
-- 
2.43.0


From 90fec0842d26b37c11e67a84dfcf3e0e6e14f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 02/54] fix: decode AXI-MM burst, size and len from the control
 field of the packet

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 7ab68e4..d6db92c 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -278,13 +278,13 @@ void aximm_master_adapter::OutputInterface() {
       sc_bv<AXI4_CTRLW> ctrl_temp = AXI4_CTRL(temp_bv);
       unsigned int offset = 0;
       aximm_interface.arburst.write(
-          temp_bv.range(offset + AXI4_BURSTW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_BURSTW - 1, offset).to_uint());
       offset += AXI4_BURSTW;
       aximm_interface.arsize.write(
-          temp_bv.range(offset + AXI4_SIZEW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_SIZEW - 1, offset).to_uint());
       offset += AXI4_SIZEW;
       aximm_interface.arlen.write(
-          temp_bv.range(offset + AXI4_LENW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
       NoCTransactionTelemetry::RecordTransactionReceipt(
           temp_flit->_sim_transaction_id);
@@ -315,13 +315,13 @@ void aximm_master_adapter::OutputInterface() {
       sc_bv<AXI4_CTRLW> ctrl_temp = AXI4_CTRL(temp_bv);
       unsigned int offset = 0;
       aximm_interface.awburst.write(
-          temp_bv.range(offset + AXI4_BURSTW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_BURSTW - 1, offset).to_uint());
       offset += AXI4_BURSTW;
       aximm_interface.awsize.write(
-          temp_bv.range(offset + AXI4_SIZEW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_SIZEW - 1, offset).to_uint());
       offset += AXI4_SIZEW;
       aximm_interface.awlen.write(
-          temp_bv.range(offset + AXI4_LENW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
       NoCTransactionTelemetry::RecordTransactionReceipt(
           temp_flit->_sim_transaction_id);
-- 
2.43.0


From ba8253588569ca2f46830d7830bb571d78fa1d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 03/54] fix: packetize an AXI-MM transfer once when node and
 adapter periods do not divide evenly

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 2 +-
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index d6db92c..4ba652c 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -55,7 +55,7 @@ aximm_master_adapter::aximm_master_adapter(
   }
   _max_flits_per_transaction =
       (int)ceil(_axi_transaction_width / NOC_LINKS_PAYLOAD_WIDTH);
-  _freq_ratio = (int)floor(_node_period / _adapter_period);
+  _freq_ratio = (int)ceil(_node_period / _adapter_period);
   _rready = false;
   _bready = false;
   _injection_flit_ready = false;
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index c4674a1..40d76d4 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -39,7 +39,7 @@ aximm_slave_adapter::aximm_slave_adapter(
   }
   _max_flits_per_transaction =
       (int)ceil(_axi_transaction_width / NOC_LINKS_PAYLOAD_WIDTH);
-  _freq_ratio = (int)floor(_node_period / _adapter_period);
+  _freq_ratio = (int)ceil(_node_period / _adapter_period);
   _arready = false;
   _awready = false;
   _wready = false;
-- 
2.43.0


From ef049c0fd0602cb28c4233d1310829c03c0b1927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 04/54] fix: send AXI-MM write data to the destination of its
 own write address

---
 rad-sim/sim/noc/aximm_slave_adapter.cpp | 20 ++++++++++----------
 rad-sim/sim/noc/aximm_slave_adapter.hpp |  7 ++++---
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 40d76d4..03dba48 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -154,6 +154,7 @@ void aximm_slave_adapter::InputInterface() {
   _i_unique_sim_id.write(0);
   _injection_priority_setting.write(0);
   _got_aw.write(false);
+  _aw_dests = std::queue<int>();
   wait();
 
   while (true) {
@@ -210,6 +211,7 @@ void aximm_slave_adapter::InputInterface() {
       sc_bv<AXI4_ADDRW> awaddr = aximm_interface.awaddr.read();
       int noc_dest = GetInputDestinationNode(awaddr);
       _i_noc_dest.write(noc_dest);
+      _aw_dests.push(noc_dest);
       _got_aw.write(true);
 
       // Adjust priority setting and log the initiation of an AW transaction
@@ -234,16 +236,20 @@ void aximm_slave_adapter::InputInterface() {
       _i_valid.write(aximm_interface.wvalid.read());
       _i_type.write(AXI_TYPE_W);
       _i_last.write(aximm_interface.wlast.read());
-      _i_noc_dest.write(_last_awdest.read());
-      _got_aw.write(!aximm_interface.wlast.read());
+      // Write data goes to the destination of the oldest write address whose
+      // data is not complete yet
+      int noc_dest = _aw_dests.front();
+      _i_noc_dest.write(noc_dest);
+      if (aximm_interface.wlast.read())
+        _aw_dests.pop();
+      _got_aw.write(!_aw_dests.empty());
 
       // Adjust priority setting and log the initiation of an W transaction
       _injection_priority_setting.write(0);
 
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
-          _node_id, (int)_last_awdest.read().to_uint(), AXI_TYPE_W,
-          _interface_dataw, _network_id);
+          _node_id, noc_dest, AXI_TYPE_W, _interface_dataw, _network_id);
       _i_unique_sim_id.write(unique_sim_id);
       /*std::cout << this->name() << ": Registered W transaction (user = "
                 << aximm_interface.wuser.read().to_uint64() << ")!"
@@ -273,7 +279,6 @@ void aximm_slave_adapter::InputPacketization() {
   _packetization_cycle.write(0);
   _num_packetization_flits.write(0);
   _injection_afifo_full.write(false);
-  _last_awdest.write(0);
   wait();
 
   while (true) {
@@ -311,11 +316,6 @@ void aximm_slave_adapter::InputPacketization() {
             set_flit_payload(packetization_flit, packet_bv, flit_id);
             _injection_afifo.push(packetization_flit);
           }
-
-          if (_i_type.read() == AXI_TYPE_AW) {
-            sc_bv<AXI4_ADDRW> addr = _i_payload.read();
-            _last_awdest.write(GetInputDestinationNode(addr));
-          }
         } else if (_i_type.read() == AXI_TYPE_W) {
 
           num_flits = (unsigned int)(ceil(
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.hpp b/rad-sim/sim/noc/aximm_slave_adapter.hpp
index c1d951b..b562a1a 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.hpp
@@ -101,11 +101,12 @@ private:
   // Variables for computing different request interface ready signals. Master
   // adapter will accept a W transaction only if it previously received an AW
   // transaction and did not receive wlast yet (specified by the _got_aw
-  // signal). As in AXI4 protocol, W transactions will be directed to the last
-  // stored AW address (_last_awaddr) regardless to the transaction ID.
+  // signal). As in AXI4 protocol, W transactions are in the order of their AW
+  // transactions regardless of the transaction ID: they are directed to the
+  // oldest AW destination whose data is not complete (_aw_dests).
   bool _arready, _awready, _wready;
   sc_signal<bool> _got_aw;
-  sc_signal<sc_uint<NOC_LINKS_DEST_WIDTH>> _last_awdest;
+  std::queue<int> _aw_dests;
   // Priority setting for AXI Interface arbitration logic. Current
   // implementation is a prioritized round-robin with order as: AR->AW->W (e.g.
   // if AR transaction is selected, next highest priority will be AW)
-- 
2.43.0


From d5f38a2ab035f09ef8c88a586cbbc5bbf1285c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 05/54] fix: hold AXI-MM valid until the module accepts the
 transfer

The adapters sampled ready one cycle before driving valid and dropped the
transfer if ready fell in between.  Valid now stays asserted until ready is
seen, and the modules that took a request regardless of their own ready
signal take it on valid && ready.
---
 .../modules/custom_feature_interaction.cpp    |  2 +-
 .../dlrm/modules/feature_interaction.cpp      |  2 +-
 .../modules/custom_feature_interaction.cpp    |  2 +-
 .../modules/feature_interaction.cpp           |  2 +-
 rad-sim/sim/dram/mem_controller.cpp           | 20 +++---------
 rad-sim/sim/noc/aximm_master_adapter.cpp      | 32 ++++++++++++-------
 rad-sim/sim/noc/aximm_slave_adapter.cpp       | 25 ++++++++++-----
 7 files changed, 46 insertions(+), 39 deletions(-)

diff --git a/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp b/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp
index 79522bc..73dad93 100644
--- a/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp
@@ -174,7 +174,7 @@ void custom_feature_interaction::Tick() {
   while (true ) { 
     // Accept R responses from the NoC
     for (unsigned int ch_id = 0; ch_id < _num_mem_channels; ch_id++) {
-      if (_input_fifos[ch_id].size() < _fifos_depth &&
+      if (aximm_interface[ch_id].rready.read() &&
           aximm_interface[ch_id].rvalid.read()) {
         sc_bv<AXI4_MAX_DATAW> rdata_bv = aximm_interface[ch_id].rdata.read();
         data_vector<int16_t> rdata(_num_input_elements);
diff --git a/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp b/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp
index 1479095..a7a2abf 100644
--- a/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp
@@ -186,7 +186,7 @@ void feature_interaction::Tick() {
   while (true) {
     // Accept R responses from the NoC
     for (unsigned int ch_id = 0; ch_id < _num_mem_channels; ch_id++) {
-      if (_input_fifos[ch_id].size() < _fifos_depth &&
+      if (aximm_interface[ch_id].rready.read() &&
           aximm_interface[ch_id].rvalid.read()) {
         sc_bv<AXI4_MAX_DATAW> rdata_bv = aximm_interface[ch_id].rdata.read();
         data_vector<int16_t> rdata(_num_elements_wide_in);
diff --git a/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp b/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp
index b0f423e..e88dbef 100644
--- a/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp
@@ -175,7 +175,7 @@ void custom_feature_interaction::Tick() {
   while (true ) { //&& (radsim_design->rad_id == 0)) {
     // Accept R responses from the NoC
     for (unsigned int ch_id = 0; ch_id < _num_mem_channels; ch_id++) {
-      if (_input_fifos[ch_id].size() < _fifos_depth &&
+      if (aximm_interface[ch_id].rready.read() &&
           aximm_interface[ch_id].rvalid.read()) {
         sc_bv<AXI4_MAX_DATAW> rdata_bv = aximm_interface[ch_id].rdata.read();
         data_vector<int16_t> rdata(_num_input_elements);
diff --git a/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp b/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp
index 1479095..a7a2abf 100644
--- a/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp
@@ -186,7 +186,7 @@ void feature_interaction::Tick() {
   while (true) {
     // Accept R responses from the NoC
     for (unsigned int ch_id = 0; ch_id < _num_mem_channels; ch_id++) {
-      if (_input_fifos[ch_id].size() < _fifos_depth &&
+      if (aximm_interface[ch_id].rready.read() &&
           aximm_interface[ch_id].rvalid.read()) {
         sc_bv<AXI4_MAX_DATAW> rdata_bv = aximm_interface[ch_id].rdata.read();
         data_vector<int16_t> rdata(_num_elements_wide_in);
diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index efe1f4b..4c21f0a 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -374,21 +374,11 @@ void mem_controller::Tick() {
 
   while (true) {
     for (unsigned int ch_id = 0; ch_id < _num_channels; ch_id++) {
-      bool rd_iqueue_ok = _read_address_queue[ch_id].size() < _input_queue_size;
-      bool rd_oqueue_ok =
-          (_outstanding_read_requests[ch_id].size() +
-           _output_read_responses[ch_id].size()) < _output_queue_size;
-      bool wr_oqueue_ok =
-          (_outstanding_write_requests[ch_id].size() +
-           _output_write_responses[ch_id].size()) < _output_queue_size;
-
-      bool awready_flag =
-          _write_address_queue_occupancy[ch_id] < _input_queue_size;
-      bool wready_flag =
-          _write_address_queue_occupancy[ch_id] > 0 &&
-          _write_data_queue_occupancy[ch_id] < _input_queue_size &&
-          wr_oqueue_ok;
-      bool arready_flag = rd_iqueue_ok && rd_oqueue_ok;
+      // A request is taken in the cycle in which its valid and ready signals
+      // are both asserted
+      bool awready_flag = mem_channels[ch_id].awready.read();
+      bool wready_flag = mem_channels[ch_id].wready.read();
+      bool arready_flag = mem_channels[ch_id].arready.read();
 
       // Accepting write address requests
       if (mem_channels[ch_id].awvalid.read() && awready_flag) {
diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 4ba652c..a063324 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -248,14 +248,30 @@ void aximm_master_adapter::OutputInterface() {
   wait();
 
   while (true) {
+    // A transfer stays on the interface until the module accepts it (i.e. its
+    // valid and ready signals are both asserted)
+    bool output_valid = aximm_interface.arvalid.read() ||
+                        aximm_interface.awvalid.read() ||
+                        aximm_interface.wvalid.read();
+    bool output_accepted =
+        (aximm_interface.arvalid.read() && aximm_interface.arready.read()) ||
+        (aximm_interface.awvalid.read() && aximm_interface.awready.read()) ||
+        (aximm_interface.wvalid.read() && aximm_interface.wready.read());
+    if (output_accepted) {
+      NoCTransactionTelemetry::RecordTransactionReceipt(
+          _output_packet.GetFlit(0)->_sim_transaction_id);
+    } else if (output_valid) {
+      wait();
+      continue;
+    }
+
     if (!_output_afifo.empty() > 0 && !_output_packet_ready) {
       _output_packet = _output_afifo.front();
       _output_afifo.pop();
       _output_packet_ready = true;
     }
     if (_output_packet_ready &&
-        (_output_packet.GetFlit(0)->_type == Flit::FlitType::READ_REQUEST) &&
-        aximm_interface.arready.read()) {
+        (_output_packet.GetFlit(0)->_type == Flit::FlitType::READ_REQUEST)) {
 
       sc_bv<AXI4_PAYLOADW> temp_bv;
       sc_flit *temp_flit = _output_packet.GetFlit(0);
@@ -286,13 +302,10 @@ void aximm_master_adapter::OutputInterface() {
       aximm_interface.arlen.write(
           ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
-      NoCTransactionTelemetry::RecordTransactionReceipt(
-          temp_flit->_sim_transaction_id);
       // std::cout << this->name() << ": Got AR request!" << std::endl;
     } else if (_output_packet_ready &&
                (_output_packet.GetFlit(0)->_type ==
-                Flit::FlitType::WRITE_REQUEST) &&
-               aximm_interface.awready.read()) {
+                Flit::FlitType::WRITE_REQUEST)) {
 
       sc_bv<AXI4_PAYLOADW> temp_bv;
       sc_flit *temp_flit = _output_packet.GetFlit(0);
@@ -323,12 +336,9 @@ void aximm_master_adapter::OutputInterface() {
       aximm_interface.awlen.write(
           ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
-      NoCTransactionTelemetry::RecordTransactionReceipt(
-          temp_flit->_sim_transaction_id);
     } else if (_output_packet_ready &&
                (_output_packet.GetFlit(0)->_type ==
-                Flit::FlitType::WRITE_DATA) &&
-               aximm_interface.wready.read()) {
+                Flit::FlitType::WRITE_DATA)) {
 
       sc_bv<AXI4_PAYLOADW> temp_bv;
       sc_flit *temp_flit = _output_packet.GetFlit(0);
@@ -350,8 +360,6 @@ void aximm_master_adapter::OutputInterface() {
       aximm_interface.wdata.write(AXI4_DATA(temp_bv));
       aximm_interface.wuser.write(AXI4_USER(temp_bv));
       _output_packet_ready = false;
-      NoCTransactionTelemetry::RecordTransactionReceipt(
-          temp_flit->_sim_transaction_id);
     } else {
       aximm_interface.arvalid.write(false);
       aximm_interface.awvalid.write(false);
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 03dba48..4def5b6 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -622,6 +622,21 @@ void aximm_slave_adapter::OutputInterface() {
   wait();
 
   while (true) {
+    // A transfer stays on the interface until the module accepts it (i.e. its
+    // valid and ready signals are both asserted)
+    bool output_valid =
+        aximm_interface.rvalid.read() || aximm_interface.bvalid.read();
+    bool output_accepted =
+        (aximm_interface.rvalid.read() && aximm_interface.rready.read()) ||
+        (aximm_interface.bvalid.read() && aximm_interface.bready.read());
+    if (output_accepted) {
+      NoCTransactionTelemetry::RecordTransactionReceipt(
+          _output_packet.GetFlit(0)->_sim_transaction_id);
+    } else if (output_valid) {
+      wait();
+      continue;
+    }
+
     if (!_output_afifo.empty() && !_output_packet_ready) {
       _output_packet = _output_afifo.front();
       _output_afifo.pop();
@@ -629,8 +644,7 @@ void aximm_slave_adapter::OutputInterface() {
     }
 
     if (_output_packet_ready &&
-        (_output_packet.GetFlit(0)->_type == Flit::FlitType::WRITE_REPLY) &&
-        aximm_interface.bready.read()) {
+        (_output_packet.GetFlit(0)->_type == Flit::FlitType::WRITE_REPLY)) {
       sc_bv<AXI4_PAYLOADW> temp_bv;
       sc_flit *temp_flit = _output_packet.GetFlit(0);
 
@@ -649,12 +663,9 @@ void aximm_slave_adapter::OutputInterface() {
       aximm_interface.buser.write(AXI4_USER(temp_bv));
       aximm_interface.bresp.write(AXI4_RESP(temp_bv));
       _output_packet_ready = false;
-      NoCTransactionTelemetry::RecordTransactionReceipt(
-          temp_flit->_sim_transaction_id);
     } else if (_output_packet_ready &&
                (_output_packet.GetFlit(0)->_type ==
-                Flit::FlitType::READ_REPLY) &&
-               aximm_interface.rready.read()) {
+                Flit::FlitType::READ_REPLY)) {
 
       sc_bv<AXI4_PAYLOADW> temp_bv;
       sc_flit *temp_flit = _output_packet.GetFlit(0);
@@ -676,8 +687,6 @@ void aximm_slave_adapter::OutputInterface() {
       aximm_interface.rdata.write(AXI4_DATA(temp_bv));
       aximm_interface.ruser.write(AXI4_USER(temp_bv));
       _output_packet_ready = false;
-      NoCTransactionTelemetry::RecordTransactionReceipt(
-          temp_flit->_sim_transaction_id);
       // std::cout << GetSimulationCycle(5.0) << " === " << this->name()
       //           << ": Got R response!" << std::endl;
     } else {
-- 
2.43.0


From ac7b4da800e0da9e160fdad247de7a2995769abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 06/54] fix: count all AXI-MM packet fields when computing the
 number of flits of AR, AW and B packets

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 2 +-
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index a063324..81f3955 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -499,7 +499,7 @@ void aximm_master_adapter::InputPacketization() {
         unsigned int num_flits = 0;
         if (_i_type.read() == AXI_TYPE_B) {
 
-          num_flits = (unsigned int)(ceil((AXI4_RESPW + AXI4_USERW) * 1.0 /
+          num_flits = (unsigned int)(ceil((AXI4_RESPW + AXI4_USERW + 1) * 1.0 /
                                           NOC_LINKS_PAYLOAD_WIDTH));
           AXI4_USER(packet_bv) = _i_user.read();
           AXI4_RESP(packet_bv) = _i_resp.read();
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 4def5b6..7c53878 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -297,9 +297,11 @@ void aximm_slave_adapter::InputPacketization() {
         if ((_i_type.read() == AXI_TYPE_AR) ||
             (_i_type.read() == AXI_TYPE_AW)) {
 
-          num_flits =
-              (unsigned int)(ceil((AXI4_ADDRW + AXI4_CTRLW + AXI4_USERW) * 1.0 /
-                                  NOC_LINKS_PAYLOAD_WIDTH));
+          // The address and control fields come after the last, user and resp
+          // fields in the packet
+          num_flits = (unsigned int)(ceil(
+              (AXI4_ADDRW + AXI4_CTRLW + AXI4_RESPW + AXI4_USERW + 1) * 1.0 /
+              NOC_LINKS_PAYLOAD_WIDTH));
           AXI4_USER(packet_bv) = _i_user.read();
           AXI4_CTRL(packet_bv) = _i_ctrl.read();
           AXI4_ADDR(packet_bv) = _i_payload.read();
-- 
2.43.0


From 97d3770188babca64e83c882b69b921c7586b83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 07/54] fix: give BookSim its time in NoC cycles

BookSim's delays are in cycles, but GetSimTime() returned picoseconds in an
int: delays above 1 failed an assertion or had no effect, and a simulation
hung once the value wrapped after 2.1 ms.
---
 rad-sim/sim/noc/radsim_noc.cpp |  3 ++-
 rad-sim/sim/noc/radsim_noc.hpp |  1 +
 rad-sim/sim/radsim_utils.cpp   | 11 +++++++----
 rad-sim/sim/radsim_utils.hpp   |  5 +++--
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/rad-sim/sim/noc/radsim_noc.cpp b/rad-sim/sim/noc/radsim_noc.cpp
index 77348fc..ccb7359 100644
--- a/rad-sim/sim/noc/radsim_noc.cpp
+++ b/rad-sim/sim/noc/radsim_noc.cpp
@@ -303,6 +303,7 @@ void radsim_noc::Tick() {
   wait();
 
   while (true) {
+    SetSimTime(_cycle++);
     _booksim_noc->ReadInputs();
     for (int node_id = 0; node_id < _num_noc_nodes; node_id++) {
       // A node can return one credit per NoC cycle. If its adapter removed more
@@ -318,7 +319,7 @@ void radsim_noc::Tick() {
     }
     _booksim_noc->Evaluate();
     _booksim_noc->WriteOutputs();
-    _booksim_noc->Trace(NoCFlitTelemetry::ostream, double(GetSimTime()) / 1000);
+    _booksim_noc->Trace(NoCFlitTelemetry::ostream, sc_time_stamp().value() / 1000.0);
     wait();
   }
 }
\ No newline at end of file
diff --git a/rad-sim/sim/noc/radsim_noc.hpp b/rad-sim/sim/noc/radsim_noc.hpp
index 579528d..729915c 100644
--- a/rad-sim/sim/noc/radsim_noc.hpp
+++ b/rad-sim/sim/noc/radsim_noc.hpp
@@ -24,6 +24,7 @@ private:
   std::string _portal_slave_name;
   int _noc_id;
   int _num_noc_nodes;
+  int _cycle = 0;                           // Cycles simulated so far
   BookSimConfig _config;                    // Booksim NoC configuration
   Network *_booksim_noc;                    // Pointers to Booksim network
   tRoutingFunction _routing_func;           // Booksim NoC routing function
diff --git a/rad-sim/sim/radsim_utils.cpp b/rad-sim/sim/radsim_utils.cpp
index 497ed21..e217854 100644
--- a/rad-sim/sim/radsim_utils.cpp
+++ b/rad-sim/sim/radsim_utils.cpp
@@ -13,10 +13,13 @@ int GetSimulationCycle() {
   return cycle;
 }
 
-int GetSimTime() { 
-  sc_time t = sc_time_stamp();
-  return t.value();
-}
+// Booksim counts time in NoC cycles: its router pipeline and channel delays are
+// given in cycles
+static int booksim_cycle = 0;
+
+void SetSimTime(int cycle) { booksim_cycle = cycle; }
+
+int GetSimTime() { return booksim_cycle; }
 
 int CalculateXYGridHops(unsigned int src, unsigned int dest, unsigned int grid_dimension) {
   int grid_size = grid_dimension * grid_dimension;
diff --git a/rad-sim/sim/radsim_utils.hpp b/rad-sim/sim/radsim_utils.hpp
index 32e11bc..c38900c 100644
--- a/rad-sim/sim/radsim_utils.hpp
+++ b/rad-sim/sim/radsim_utils.hpp
@@ -20,8 +20,9 @@ int GetSimulationCycle(double period);
 
 int GetSimulationCycle();
 
-// Returns the current simulation cycle number given the NoC clock period
-// int GetSimTime();
+// Sets the cycle number of the NoC that is being simulated. This is the time
+// that Booksim sees when it calls GetSimTime()
+void SetSimTime(int cycle);
 
 // Calculates the number of hops between source and destination nodes in a 2D
 // grid of certain dimension in case of minimal XY routing
-- 
2.43.0


From 2b526465653b3e12252b9e4a7a72ac5df9839ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 08/54] fix: start routing and allocation of a VC while earlier
 ones are in a multi-cycle pipeline stage

---
 rad-sim/sim/noc/booksim/routers/iq_router.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/routers/iq_router.cpp b/rad-sim/sim/noc/booksim/routers/iq_router.cpp
index 2f66207..bb4f616 100644
--- a/rad-sim/sim/noc/booksim/routers/iq_router.cpp
+++ b/rad-sim/sim/noc/booksim/routers/iq_router.cpp
@@ -471,7 +471,7 @@ void IQRouter::_RouteEvaluate( )
     
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
     iter->first = GetSimTime() + _routing_delay - 1;
     
@@ -565,7 +565,7 @@ void IQRouter::_VCAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
 
     int const input = iter->second.first.first;
@@ -714,7 +714,7 @@ void IQRouter::_VCAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
     iter->first = GetSimTime() + _vc_alloc_delay - 1;
 
@@ -1337,7 +1337,7 @@ void IQRouter::_SWAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
 
     int const input = iter->second.first.first;
@@ -1503,7 +1503,7 @@ void IQRouter::_SWAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
     iter->first = GetSimTime() + _sw_alloc_delay - 1;
 
-- 
2.43.0


From bdf607d055f599f65c9f4c3ed4f572bf3dfe173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 09/54] fix: memory controller drives buser together with the
 write response it belongs to

---
 rad-sim/sim/dram/mem_controller.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index 4c21f0a..278f68d 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -453,6 +453,9 @@ void mem_controller::Tick() {
                                        0);
       mem_channels[ch_id].rvalid.write(_output_read_responses[ch_id].size() >
                                        0);
+      if (_output_write_responses[ch_id].size() > 0) {
+        mem_channels[ch_id].buser.write(_output_write_responses[ch_id].front());
+      }
       if (_output_read_responses[ch_id].size() > 0) {
         mem_channels[ch_id].rdata.write(
             std::get<1>(_output_read_responses[ch_id].front()));
@@ -601,10 +604,6 @@ void mem_controller::Assign() {
           write_output_queue_ok);
       mem_channels[ch_id].arready.write(read_input_queue_ok &&
                                         read_output_queue_ok);
-
-      if (_output_write_responses[ch_id].size() > 0) {
-        mem_channels[ch_id].buser.write(_output_write_responses[ch_id].front());
-      }
     }
   }
 }
-- 
2.43.0


From ddfa82e23b540dd6906f22aba7dcddd326a2073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 10/54] fix: memory controller issues a write only when both
 its address and its data have arrived

---
 rad-sim/sim/dram/mem_controller.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index 278f68d..936872a 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -515,7 +515,8 @@ void mem_controller::MemTick() {
                 std::make_tuple(read_addr, resp_addr, last));
           }
           // Issue write request to DRAMsim
-        } else if (_write_data_queue[ch_id].size() > 0) {
+        } else if (_write_data_queue[ch_id].size() > 0 &&
+                   _write_address_queue[ch_id].size() > 0) {
           uint64_t resp_addr = _write_data_queue[ch_id].front().first;
           uint64_t write_addr = _write_address_queue[ch_id].front().first;
           bool last = _write_address_queue[ch_id].front().second;
@@ -539,7 +540,8 @@ void mem_controller::MemTick() {
     } else {
       for (unsigned int ch_id = 0; ch_id < _num_channels; ch_id++) {
         // Issue write request to DRAMsim
-        if (_write_data_queue[ch_id].size() > 0) {
+        if (_write_data_queue[ch_id].size() > 0 &&
+            _write_address_queue[ch_id].size() > 0) {
           uint64_t resp_addr = _write_data_queue[ch_id].front().first;
           uint64_t write_addr = _write_address_queue[ch_id].front().first;
           bool last = _write_address_queue[ch_id].front().second;
-- 
2.43.0


From ff64700880b766f19341d76aa1b3258ad690e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 11/54] fix: DRAM write drain blocked by a pending read no
 longer starves the read queue

---
 rad-sim/sim/dram/DRAMsim3/src/controller.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.cc b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
index a582dcc..730f63b 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
@@ -207,6 +207,7 @@ void Controller::ScheduleTransaction() {
     std::vector<Transaction> &queue =
         is_unified_queue_ ? unified_queue_
                           : write_draining_ > 0 ? write_buffer_ : read_queue_;
+    bool wait_for_read = false;
     for (auto it = queue.begin(); it != queue.end(); it++) {
         auto cmd = TransToCommand(*it);
         if (cmd_queue_.WillAcceptCommand(cmd.Rank(), cmd.Bankgroup(),
@@ -215,6 +216,7 @@ void Controller::ScheduleTransaction() {
                 // Enforce R->W dependency
                 if (pending_rd_q_.count(it->addr) > 0) {
                     write_draining_ = 0;
+                    wait_for_read = true;
                     break;
                 }
                 write_draining_ -= 1;
@@ -224,6 +226,18 @@ void Controller::ScheduleTransaction() {
             break;
         }
     }
+    // the read that the write waits for may still be in the read queue
+    if (wait_for_read) {
+        for (auto it = read_queue_.begin(); it != read_queue_.end(); it++) {
+            auto cmd = TransToCommand(*it);
+            if (cmd_queue_.WillAcceptCommand(cmd.Rank(), cmd.Bankgroup(),
+                                             cmd.Bank())) {
+                cmd_queue_.AddCommand(cmd);
+                read_queue_.erase(it);
+                break;
+            }
+        }
+    }
 }
 
 void Controller::IssueCommand(const Command &cmd) {
-- 
2.43.0


From 942da24df3cd58fa895ef47654fabcb4b38c4eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 12/54] fix: enforce tRFCb after a per-bank refresh and let it
 recur at the configured rate

---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index 735ba85..a40266f 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -222,7 +222,7 @@ Timing::Timing(const Config& config)
     }
 
     // command REFRESH_BANK
-    same_rank[static_cast<int>(CommandType::REFRESH_BANK)] =
+    same_bank[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, refresh_to_activate_bank},
             {CommandType::REFRESH, refresh_to_activate_bank},
@@ -231,14 +231,14 @@ Timing::Timing(const Config& config)
 
     other_banks_same_bankgroup[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
-            {CommandType::ACTIVATE, refresh_to_activate},
-            {CommandType::REFRESH_BANK, refresh_to_refresh},
+            {CommandType::ACTIVATE, activate_to_activate_l},
+            {CommandType::REFRESH_BANK, refresh_to_activate_bank},
         };
 
     other_bankgroups_same_rank[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
-            {CommandType::ACTIVATE, refresh_to_activate},
-            {CommandType::REFRESH_BANK, refresh_to_refresh},
+            {CommandType::ACTIVATE, activate_to_activate_s},
+            {CommandType::REFRESH_BANK, refresh_to_activate_bank},
         };
 
     // REFRESH, SREF_ENTER and SREF_EXIT are isued to the entire
-- 
2.43.0


From 170cc526ac2591edd519caa76a736bb5a08b2f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 13/54] fix: require tRC between activate and refresh of a
 bank, and only tRRD to a refresh of another bank

---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index a40266f..31621b8 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -188,17 +188,20 @@ Timing::Timing(const Config& config)
             {CommandType::READ_PRECHARGE, activate_to_read},
             {CommandType::WRITE_PRECHARGE, activate_to_write},
             {CommandType::PRECHARGE, activate_to_precharge},
+            {CommandType::REFRESH, activate_to_refresh},
+            {CommandType::REFRESH_BANK, activate_to_refresh},
+            {CommandType::SREF_ENTER, activate_to_refresh},
         };
 
     other_banks_same_bankgroup[static_cast<int>(CommandType::ACTIVATE)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, activate_to_activate_l},
-            {CommandType::REFRESH_BANK, activate_to_refresh}};
+            {CommandType::REFRESH_BANK, activate_to_activate_l}};
 
     other_bankgroups_same_rank[static_cast<int>(CommandType::ACTIVATE)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, activate_to_activate_s},
-            {CommandType::REFRESH_BANK, activate_to_refresh}};
+            {CommandType::REFRESH_BANK, activate_to_activate_s}};
 
     // command PRECHARGE
     same_bank[static_cast<int>(CommandType::PRECHARGE)] =
-- 
2.43.0


From 05c291be584b9430b346ba43168700898e63cfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 14/54] fix: simultaneous refresh refreshes every rank

---
 rad-sim/sim/dram/DRAMsim3/src/refresh.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
index 31cbc9f..4b9fa4b 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
@@ -33,7 +33,6 @@ void Refresh::InsertRefresh() {
             for (auto i = 0; i < config_.ranks; i++) {
                 if (!channel_state_.IsRankSelfRefreshing(i)) {
                     channel_state_.RankNeedRefresh(i, true);
-                    break;
                 }
             }
             break;
-- 
2.43.0


From 291ec05f7a5db6e60c10ccf85d096cda07fd0c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 15/54] fix: waking a rank before its minimum self-refresh time
 no longer aborts the simulation

---
 rad-sim/sim/dram/DRAMsim3/src/bankstate.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc b/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
index 46aa511..b6cc22c 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
@@ -70,6 +70,7 @@ Command BankState::GetReadyCommand(const Command& cmd, uint64_t clk) const {
                 case CommandType::READ_PRECHARGE:
                 case CommandType::WRITE:
                 case CommandType::WRITE_PRECHARGE:
+                case CommandType::SREF_EXIT:
                     required_type = CommandType::SREF_EXIT;
                     break;
                 default:
-- 
2.43.0


From e58e47ddec24e9f77c508ab780302076e7ecb27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:57 +0000
Subject: [PATCH 16/54] fix: name the refresh interval tREFI in the device
 files that misspell it, so that it is used

---
 rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x16_1600.ini   | 2 +-
 rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x16_1866.ini   | 2 +-
 rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x4_1600.ini    | 2 +-
 rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x4_1866.ini    | 2 +-
 rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x8_1600.ini    | 2 +-
 rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x8_1866.ini    | 2 +-
 rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x16_1600.ini   | 2 +-
 rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x16_1866.ini   | 2 +-
 rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x4_1600.ini    | 2 +-
 rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x4_1866.ini    | 2 +-
 rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x8_1600.ini    | 2 +-
 rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x8_1866.ini    | 2 +-
 rad-sim/sim/dram/DRAMsim3/configs/LPDDR3_8Gb_x32_1333.ini | 2 +-
 rad-sim/sim/dram/DRAMsim3/configs/LPDDR3_8Gb_x32_1600.ini | 2 +-
 rad-sim/sim/dram/DRAMsim3/configs/LPDDR3_8Gb_x32_1866.ini | 2 +-
 15 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x16_1600.ini b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x16_1600.ini
index a6b536a..ff6258e 100644
--- a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x16_1600.ini
+++ b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x16_1600.ini
@@ -18,7 +18,7 @@ tRAS = 28
 tRFC = 208
 tRFC2 = 208
 tRFC4 = 208
-REFI = 6240
+tREFI = 6240
 tRPRE = 0
 tWPRE = 0
 tRRD_S = 5
diff --git a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x16_1866.ini b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x16_1866.ini
index 17cb291..8798cc3 100644
--- a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x16_1866.ini
+++ b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x16_1866.ini
@@ -18,7 +18,7 @@ tRAS = 32
 tRFC = 243
 tRFC2 = 243
 tRFC4 = 243
-REFI = 7290
+tREFI = 7290
 tRPRE = 0
 tWPRE = 0
 tRRD_S = 6
diff --git a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x4_1600.ini b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x4_1600.ini
index 8759801..f14d98c 100644
--- a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x4_1600.ini
+++ b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x4_1600.ini
@@ -18,7 +18,7 @@ tRAS = 28
 tRFC = 208
 tRFC2 = 208
 tRFC4 = 208
-REFI = 6240
+tREFI = 6240
 tRPRE = 0
 tWPRE = 0
 tRRD_S = 5
diff --git a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x4_1866.ini b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x4_1866.ini
index 773794a..762e7c7 100644
--- a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x4_1866.ini
+++ b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x4_1866.ini
@@ -18,7 +18,7 @@ tRAS = 32
 tRFC = 243
 tRFC2 = 243
 tRFC4 = 243
-REFI = 7290
+tREFI = 7290
 tRPRE = 0
 tWPRE = 0
 tRRD_S = 5
diff --git a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x8_1600.ini b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x8_1600.ini
index 5fc56b4..994825f 100644
--- a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x8_1600.ini
+++ b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x8_1600.ini
@@ -18,7 +18,7 @@ tRAS = 28
 tRFC = 208
 tRFC2 = 208
 tRFC4 = 208
-REFI = 6240
+tREFI = 6240
 tRPRE = 0
 tWPRE = 0
 tRRD_S = 5
diff --git a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x8_1866.ini b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x8_1866.ini
index 84ea4c7..eb70b19 100644
--- a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x8_1866.ini
+++ b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_4Gb_x8_1866.ini
@@ -18,7 +18,7 @@ tRAS = 32
 tRFC = 243
 tRFC2 = 243
 tRFC4 = 243
-REFI = 7290
+tREFI = 7290
 tRPRE = 0
 tWPRE = 0
 tRRD_S = 5
diff --git a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x16_1600.ini b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x16_1600.ini
index a14b87c..bb8aaae 100644
--- a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x16_1600.ini
+++ b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x16_1600.ini
@@ -18,7 +18,7 @@ tRAS = 28
 tRFC = 280
 tRFC2 = 280
 tRFC4 = 280
-REFI = 6240
+tREFI = 6240
 tRPRE = 0
 tWPRE = 0
 tRRD_S = 6
diff --git a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x16_1866.ini b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x16_1866.ini
index eee66e5..162eb67 100644
--- a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x16_1866.ini
+++ b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x16_1866.ini
@@ -18,7 +18,7 @@ tRAS = 32
 tRFC = 328
 tRFC2 = 328
 tRFC4 = 328
-REFI = 7290
+tREFI = 7290
 tRPRE = 0
 tWPRE = 0
 tRRD_S = 6
diff --git a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x4_1600.ini b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x4_1600.ini
index 8fe7b20..eaf1c2d 100644
--- a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x4_1600.ini
+++ b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x4_1600.ini
@@ -18,7 +18,7 @@ tRAS = 28
 tRFC = 280
 tRFC2 = 280
 tRFC4 = 280
-REFI = 6240
+tREFI = 6240
 tRPRE = 0
 tWPRE = 0
 tRRD_S = 6
diff --git a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x4_1866.ini b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x4_1866.ini
index bafe5b9..1bc88da 100644
--- a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x4_1866.ini
+++ b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x4_1866.ini
@@ -18,7 +18,7 @@ tRAS = 32
 tRFC = 328
 tRFC2 = 328
 tRFC4 = 328
-REFI = 7290
+tREFI = 7290
 tRPRE = 0
 tWPRE = 0
 tRRD_S = 6
diff --git a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x8_1600.ini b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x8_1600.ini
index fc0faf5..29dd4bc 100644
--- a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x8_1600.ini
+++ b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x8_1600.ini
@@ -18,7 +18,7 @@ tRAS = 28
 tRFC = 280
 tRFC2 = 280
 tRFC4 = 280
-REFI = 6240
+tREFI = 6240
 tRPRE = 0
 tWPRE = 0
 tRRD_S = 6
diff --git a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x8_1866.ini b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x8_1866.ini
index d0702d6..fd81709 100644
--- a/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x8_1866.ini
+++ b/rad-sim/sim/dram/DRAMsim3/configs/DDR3_8Gb_x8_1866.ini
@@ -18,7 +18,7 @@ tRAS = 32
 tRFC = 328
 tRFC2 = 328
 tRFC4 = 328
-REFI = 7290
+tREFI = 7290
 tRPRE = 0
 tWPRE = 0
 tRRD_S = 6
diff --git a/rad-sim/sim/dram/DRAMsim3/configs/LPDDR3_8Gb_x32_1333.ini b/rad-sim/sim/dram/DRAMsim3/configs/LPDDR3_8Gb_x32_1333.ini
index 547eb6d..7975e55 100644
--- a/rad-sim/sim/dram/DRAMsim3/configs/LPDDR3_8Gb_x32_1333.ini
+++ b/rad-sim/sim/dram/DRAMsim3/configs/LPDDR3_8Gb_x32_1333.ini
@@ -19,7 +19,7 @@ tRFC = 140
 tRFCb = 60
 tRFC2 = 140
 tRFC4 = 140
-REFI = 2600
+tREFI = 2600
 tREFIb = 325
 tRPRE = 1
 tWPRE = 1
diff --git a/rad-sim/sim/dram/DRAMsim3/configs/LPDDR3_8Gb_x32_1600.ini b/rad-sim/sim/dram/DRAMsim3/configs/LPDDR3_8Gb_x32_1600.ini
index bd04264..263ec07 100644
--- a/rad-sim/sim/dram/DRAMsim3/configs/LPDDR3_8Gb_x32_1600.ini
+++ b/rad-sim/sim/dram/DRAMsim3/configs/LPDDR3_8Gb_x32_1600.ini
@@ -19,7 +19,7 @@ tRFC = 168
 tRFCb = 72
 tRFC2 = 168
 tRFC4 = 168
-REFI = 3120
+tREFI = 3120
 tREFIb = 390
 tRPRE = 1
 tWPRE = 1
diff --git a/rad-sim/sim/dram/DRAMsim3/configs/LPDDR3_8Gb_x32_1866.ini b/rad-sim/sim/dram/DRAMsim3/configs/LPDDR3_8Gb_x32_1866.ini
index 5062e7b..42be11c 100644
--- a/rad-sim/sim/dram/DRAMsim3/configs/LPDDR3_8Gb_x32_1866.ini
+++ b/rad-sim/sim/dram/DRAMsim3/configs/LPDDR3_8Gb_x32_1866.ini
@@ -19,7 +19,7 @@ tRFC = 196
 tRFCb = 85
 tRFC2 = 196
 tRFC4 = 196
-REFI = 3645
+tREFI = 3645
 tREFIb = 456
 tRPRE = 1
 tWPRE = 1
-- 
2.43.0


From 082ca73d8c1cd66465405e39ff4b60d16dbb08ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 17/54] fix: use tRTP_L of devices that specify it instead of
 the default read-to-precharge time

---
 rad-sim/sim/dram/DRAMsim3/src/configuration.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/configuration.cc b/rad-sim/sim/dram/DRAMsim3/src/configuration.cc
index d51da17..f6c3e18 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/configuration.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/configuration.cc
@@ -303,7 +303,8 @@ void Config::InitTimingParams() {
   tCCD_L = GetInteger("timing", "tCCD_L", 6);
   tCCD_S = GetInteger("timing", "tCCD_S", 4);
   tRTRS = GetInteger("timing", "tRTRS", 2);
-  tRTP = GetInteger("timing", "tRTP", 5);
+  tRTP = GetInteger("timing", "tRTP",
+                    GetInteger("timing", "tRTP_L", 5));
   tWTR_L = GetInteger("timing", "tWTR_L", 5);
   tWTR_S = GetInteger("timing", "tWTR_S", 5);
   tWR = GetInteger("timing", "tWR", 10);
-- 
2.43.0


From 9446be93f7d722b61b7d9501c557c7c0074d757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 18/54] fix: HBM dual command issue no longer drops a column
 command it cannot issue

---
 rad-sim/sim/dram/DRAMsim3/src/command_queue.cc | 7 ++++++-
 rad-sim/sim/dram/DRAMsim3/src/command_queue.h  | 2 +-
 rad-sim/sim/dram/DRAMsim3/src/controller.cc    | 8 +++-----
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc b/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
index f121d28..92ae50b 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
@@ -33,7 +33,7 @@ CommandQueue::CommandQueue(int channel_id, const Config& config,
     }
 }
 
-Command CommandQueue::GetCommandToIssue() {
+Command CommandQueue::GetCommandToIssue(const Command& first) {
     for (int i = 0; i < num_queues_; i++) {
         auto& queue = GetNextQueue();
         // if we're refresing, skip the command queues that are involved
@@ -44,6 +44,11 @@ Command CommandQueue::GetCommandToIssue() {
         }
         auto cmd = GetFirstReadyInQueue(queue);
         if (cmd.IsValid()) {
+            // a second command has to use the other (row/column) command bus
+            if (first.IsValid() &&
+                first.IsReadWrite() == cmd.IsReadWrite()) {
+                return Command();
+            }
             if (cmd.IsReadWrite()) {
                 EraseRWCommand(cmd);
             }
diff --git a/rad-sim/sim/dram/DRAMsim3/src/command_queue.h b/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
index 5bc8d3f..b7ffa26 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
+++ b/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
@@ -18,7 +18,7 @@ class CommandQueue {
    public:
     CommandQueue(int channel_id, const Config& config,
                  const ChannelState& channel_state, SimpleStats& simple_stats);
-    Command GetCommandToIssue();
+    Command GetCommandToIssue(const Command& first = Command());
     Command FinishRefresh();
     void ClockTick() { clk_ += 1; };
     bool WillAcceptCommand(int rank, int bankgroup, int bank) const;
diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.cc b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
index 730f63b..7a3d307 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
@@ -82,12 +82,10 @@ void Controller::ClockTick() {
         cmd_issued = true;
 
         if (config_.enable_hbm_dual_cmd) {
-            auto second_cmd = cmd_queue_.GetCommandToIssue();
+            auto second_cmd = cmd_queue_.GetCommandToIssue(cmd);
             if (second_cmd.IsValid()) {
-                if (second_cmd.IsReadWrite() != cmd.IsReadWrite()) {
-                    IssueCommand(second_cmd);
-                    simple_stats_.Increment("hbm_dual_cmds");
-                }
+                IssueCommand(second_cmd);
+                simple_stats_.Increment("hbm_dual_cmds");
             }
         }
     }
-- 
2.43.0


From d794712640ab4b94b640ca28b8ef5edae338e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:07 +0000
Subject: [PATCH 19/54] fix: select allocator must not reuse unaccepted grants
 of an earlier iteration

---
 rad-sim/sim/noc/booksim/allocators/selalloc.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/allocators/selalloc.cpp b/rad-sim/sim/noc/booksim/allocators/selalloc.cpp
index adf0c10..a89db0b 100644
--- a/rad-sim/sim/noc/booksim/allocators/selalloc.cpp
+++ b/rad-sim/sim/noc/booksim/allocators/selalloc.cpp
@@ -59,9 +59,10 @@ void SelAlloc::Allocate( )
   int max_index;
   int max_pri;
 
-  vector<int> grants(_outputs, -1);
-
   for ( int iter = 0; iter < _iter; ++iter ) {
+    // grants of an earlier iteration that were not accepted are void
+    vector<int> grants(_outputs, -1);
+
     // Grant phase
 
     for( outer_iter = _out_occ.begin( ); 
-- 
2.43.0


From 24f6e0bbda66863e7c3102d5b967869e2f73461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:07 +0000
Subject: [PATCH 20/54] fix: max_size allocator sizes its path table by outputs

---
 rad-sim/sim/noc/booksim/allocators/maxsize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/noc/booksim/allocators/maxsize.cpp b/rad-sim/sim/noc/booksim/allocators/maxsize.cpp
index ffa11b4..5b9ec0f 100644
--- a/rad-sim/sim/noc/booksim/allocators/maxsize.cpp
+++ b/rad-sim/sim/noc/booksim/allocators/maxsize.cpp
@@ -112,7 +112,7 @@ bool MaxSizeMatch::_ShortestAugmenting( )
     }
   }
 
-  _from.assign(_inputs, -1);
+  _from.assign(_outputs, -1);
 
   for ( int iter = 0; iter < _inputs; iter++ ) {
     nslen = 0;
-- 
2.43.0


From 52fd0f72c0532a64a37bb628c33a54b847de5695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 21/54] fix: min_adapt_mesh escape channel stays within the
 packet type's VCs

The arguments of AddRange were swapped: the escape route offered VCs
0..vcBegin (of other packet types) with priority vcBegin.
---
 rad-sim/sim/noc/booksim/routefunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/noc/booksim/routefunc.cpp b/rad-sim/sim/noc/booksim/routefunc.cpp
index 30f8d47..8210196 100644
--- a/rad-sim/sim/noc/booksim/routefunc.cpp
+++ b/rad-sim/sim/noc/booksim/routefunc.cpp
@@ -1009,7 +1009,7 @@ void min_adapt_mesh( const Router *r, const Flit *f, int in_channel, OutputSet *
   
   // DOR for the escape channel (VC 0), low priority 
   int out_port = dor_next_mesh( r->GetID( ), f->dest );    
-  outputs->AddRange( out_port, 0, vcBegin, vcBegin );
+  outputs->AddRange( out_port, vcBegin, vcBegin, 0 );
   
   if ( f->watch ) {
       *gWatchOut << GetSimTime() << " | " << r->FullName() << " | "
-- 
2.43.0


From 2835074c56dbcf2c110965e64f77f808506b3667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 22/54] fix: xy_yx_cmesh takes an express channel only when it
 does not overshoot

Express channels span k/2 routers.  Taking them for any distance above one
makes a packet jump back and forth forever when k is larger than 4; use the
same condition as dor_cmesh.
---
 rad-sim/sim/noc/booksim/networks/cmesh.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/networks/cmesh.cpp b/rad-sim/sim/noc/booksim/networks/cmesh.cpp
index f597708..c570330 100644
--- a/rad-sim/sim/noc/booksim/networks/cmesh.cpp
+++ b/rad-sim/sim/noc/booksim/networks/cmesh.cpp
@@ -355,7 +355,7 @@ int cmesh_xy( int cur, int dest ) {
   // Dimension-order Routing: x , y
   if (cur_x < dest_x) {
     // Express?
-    if ((dest_x - cur_x) > 1){
+    if ((dest_x - cur_x) > gK/2-1){
       if (cur_y == 0)
     	return gC + NEGATIVE_Y ;
       if (cur_y == (gK-1))
@@ -365,7 +365,7 @@ int cmesh_xy( int cur, int dest ) {
   }
   if (cur_x > dest_x) {
     // Express ? 
-    if ((cur_x - dest_x) > 1){
+    if ((cur_x - dest_x) > gK/2-1){
       if (cur_y == 0)
     	return gC + NEGATIVE_Y ;
       if (cur_y == (gK-1))
@@ -375,7 +375,7 @@ int cmesh_xy( int cur, int dest ) {
   }
   if (cur_y < dest_y) {
     // Express?
-    if ((dest_y - cur_y) > 1) {
+    if ((dest_y - cur_y) > gK/2-1) {
       if (cur_x == 0)
     	return gC + NEGATIVE_X ;
       if (cur_x == (gK-1))
@@ -385,7 +385,7 @@ int cmesh_xy( int cur, int dest ) {
   }
   if (cur_y > dest_y) {
     // Express ?
-    if ((cur_y - dest_y) > 1 ){
+    if ((cur_y - dest_y) > gK/2-1 ){
       if (cur_x == 0)
     	return gC + NEGATIVE_X ;
       if (cur_x == (gK-1))
@@ -411,7 +411,7 @@ int cmesh_yx( int cur, int dest ) {
   // Dimension-order Routing: y, x
   if (cur_y < dest_y) {
     // Express?
-    if ((dest_y - cur_y) > 1) {
+    if ((dest_y - cur_y) > gK/2-1) {
       if (cur_x == 0)
     	return gC + NEGATIVE_X ;
       if (cur_x == (gK-1))
@@ -421,7 +421,7 @@ int cmesh_yx( int cur, int dest ) {
   }
   if (cur_y > dest_y) {
     // Express ?
-    if ((cur_y - dest_y) > 1 ){
+    if ((cur_y - dest_y) > gK/2-1 ){
       if (cur_x == 0)
     	return gC + NEGATIVE_X ;
       if (cur_x == (gK-1))
@@ -431,7 +431,7 @@ int cmesh_yx( int cur, int dest ) {
   }
   if (cur_x < dest_x) {
     // Express?
-    if ((dest_x - cur_x) > 1){
+    if ((dest_x - cur_x) > gK/2-1){
       if (cur_y == 0)
     	return gC + NEGATIVE_Y ;
       if (cur_y == (gK-1))
@@ -441,7 +441,7 @@ int cmesh_yx( int cur, int dest ) {
   }
   if (cur_x > dest_x) {
     // Express ? 
-    if ((cur_x - dest_x) > 1){
+    if ((cur_x - dest_x) > gK/2-1){
       if (cur_y == 0)
     	return gC + NEGATIVE_Y ;
       if (cur_y == (gK-1))
-- 
2.43.0


From bd44407c894177428458fb11a5b2688f18bfbeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 23/54] fix: valiant routing keeps the two phases in separate
 VCs

A packet in phase 0 that passes its destination router used the VCs of both
phases, which lets the phases wait for each other in a cycle.  In the torus
versions the ring partition was also left uninitialized when continuing in a
ring, and valiant_ni_torus confused the phase with the packed phase/partition
value.
---
 rad-sim/sim/noc/booksim/routefunc.cpp | 34 +++++++++++++--------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/routefunc.cpp b/rad-sim/sim/noc/booksim/routefunc.cpp
index 8210196..ec2eb67 100644
--- a/rad-sim/sim/noc/booksim/routefunc.cpp
+++ b/rad-sim/sim/noc/booksim/routefunc.cpp
@@ -1357,7 +1357,7 @@ void valiant_mesh( const Router *r, const Flit *f, int in_channel, OutputSet *ou
     out_port = dor_next_mesh( r->GetID( ), (f->ph == 0) ? f->intm : f->dest );
 
     // at the destination router, we don't need to separate VCs by phase
-    if(r->GetID() != f->dest) {
+    if((f->ph == 0) || (r->GetID() != f->dest)) {
 
       //each class must have at least 2 vcs assigned or else valiant valiant will deadlock
       int const available_vcs = (vcEnd - vcBegin + 1) / 2;
@@ -1422,14 +1422,14 @@ void valiant_torus( const Router *r, const Flit *f, int in_channel, OutputSet *o
       in_channel = 2*gN; // ensures correct vc selection at the beginning of phase 2
     }
   
-    int ring_part;
+    int ring_part = f->ph & 1; // kept while continuing in the same ring
     dor_next_torus( r->GetID( ), (phase == 0) ? f->intm : f->dest, in_channel,
 		    &out_port, &ring_part, false );
 
     f->ph = 2 * phase + ring_part;
 
     // at the destination router, we don't need to separate VCs by phase, etc.
-    if(r->GetID() != f->dest) {
+    if((phase == 0) || (r->GetID() != f->dest)) {
 
       int const ring_available_vcs = (vcEnd - vcBegin + 1) / 2;
       assert(ring_available_vcs > 0);
@@ -1483,21 +1483,16 @@ void valiant_ni_torus( const Router *r, const Flit *f, int in_channel,
   }
   assert(((f->vc >= vcBegin) && (f->vc <= vcEnd)) || (inject && (f->vc < 0)));
 
-  // at the destination router, we don't need to separate VCs by destination
-  if(inject || (r->GetID() != f->dest)) {
-
-    int const vcs_per_dest = (vcEnd - vcBegin + 1) / gNodes;
-    assert(vcs_per_dest > 0);
-
-    vcBegin += f->dest * vcs_per_dest;
-    vcEnd = vcBegin + vcs_per_dest - 1;
-
-  }
+  int const vcs_per_dest = (vcEnd - vcBegin + 1) / gNodes;
+  assert(vcs_per_dest > 0);
 
   int out_port;
 
   if(inject) {
 
+    vcBegin += f->dest * vcs_per_dest;
+    vcEnd = vcBegin + vcs_per_dest - 1;
+
     out_port = -1;
 
   } else {
@@ -1510,19 +1505,22 @@ void valiant_ni_torus( const Router *r, const Flit *f, int in_channel,
       phase = f->ph / 2;
     }
 
-    if ( ( f->ph == 0 ) && ( r->GetID( ) == f->intm ) ) {
-      f->ph = 1; // Go to phase 1
+    if ( ( phase == 0 ) && ( r->GetID( ) == f->intm ) ) {
+      phase = 1; // Go to phase 1
       in_channel = 2*gN; // ensures correct vc selection at the beginning of phase 2
     }
   
-    int ring_part;
-    dor_next_torus( r->GetID( ), (f->ph == 0) ? f->intm : f->dest, in_channel,
+    int ring_part = f->ph & 1; // kept while continuing in the same ring
+    dor_next_torus( r->GetID( ), (phase == 0) ? f->intm : f->dest, in_channel,
 		    &out_port, &ring_part, false );
 
     f->ph = 2 * phase + ring_part;
 
     // at the destination router, we don't need to separate VCs by phase, etc.
-    if(r->GetID() != f->dest) {
+    if((phase == 0) || (r->GetID() != f->dest)) {
+
+      vcBegin += f->dest * vcs_per_dest;
+      vcEnd = vcBegin + vcs_per_dest - 1;
 
       int const ring_available_vcs = (vcEnd - vcBegin + 1) / 2;
       assert(ring_available_vcs > 0);
-- 
2.43.0


From 587a245d75da37aaba3a630d8098283ad24639b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:22 +0000
Subject: [PATCH 24/54] fix: anynet link weights of nodes and node-headed lines

A weight after a node was stored in the router-to-router table, creating a
phantom link (and losing the latency), and a line starting with a node
created a phantom router with the node's number.
---
 rad-sim/sim/noc/booksim/networks/anynet.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/networks/anynet.cpp b/rad-sim/sim/noc/booksim/networks/anynet.cpp
index 5ed6430..9a8fc89 100644
--- a/rad-sim/sim/noc/booksim/networks/anynet.cpp
+++ b/rad-sim/sim/noc/booksim/networks/anynet.cpp
@@ -390,12 +390,14 @@ void AnyNet::readFile(){
 	head_id = atoi(temp.c_str());
 
 	//intialize router structures
-	if(router_list[NODE].count(head_id) == 0){
-	  router_list[NODE][head_id] = map<int, pair<int,int> >();
+	if(head_type==ROUTER){
+	  if(router_list[NODE].count(head_id) == 0){
+	    router_list[NODE][head_id] = map<int, pair<int,int> >();
+	  }
+	  if(router_list[ROUTER].count(head_id) == 0){
+	    router_list[ROUTER][head_id] = map<int, pair<int,int> >();
+	  }
 	}
-	if(router_list[ROUTER].count(head_id) == 0){
-	  router_list[ROUTER][head_id] = map<int, pair<int,int> >();
-	}  
 
 	state=BODY_TYPE;
 	break;
@@ -405,7 +407,11 @@ void AnyNet::readFile(){
 	  //ignore
 	} else {
 	  link_weight= atoi(temp.c_str());
-	  router_list[head_type][head_id][body_id].second=link_weight;
+	  if(head_type==NODE){
+	    router_list[NODE][body_id][head_id].second=link_weight;
+	  } else {
+	    router_list[body_type][head_id][body_id].second=link_weight;
+	  }
 	  break;
 	}
 	//intentionally letting it flow through
-- 
2.43.0


From d4fe28434a7df506537f855af7bca7d78c4b0cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:15 +0000
Subject: [PATCH 25/54] fix: valiant torus routing keeps its four VC classes
 disjoint

---
 rad-sim/sim/noc/booksim/routefunc.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/routefunc.cpp b/rad-sim/sim/noc/booksim/routefunc.cpp
index ec2eb67..3276b55 100644
--- a/rad-sim/sim/noc/booksim/routefunc.cpp
+++ b/rad-sim/sim/noc/booksim/routefunc.cpp
@@ -1434,18 +1434,19 @@ void valiant_torus( const Router *r, const Flit *f, int in_channel, OutputSet *o
       int const ring_available_vcs = (vcEnd - vcBegin + 1) / 2;
       assert(ring_available_vcs > 0);
 
+      // the four classes must not overlap, whatever the number of VCs
       if(ring_part == 0) {
-	vcEnd -= ring_available_vcs;
+	vcEnd = vcBegin + ring_available_vcs - 1;
       } else {
 	assert(ring_part == 1);
 	vcBegin += ring_available_vcs;
       }
 
-      int const ph_available_vcs = ring_available_vcs / 2;
+      int const ph_available_vcs = (vcEnd - vcBegin + 1) / 2;
       assert(ph_available_vcs > 0);
 
       if(phase == 0) {
-	vcEnd -= ph_available_vcs;
+	vcEnd = vcBegin + ph_available_vcs - 1;
       } else {
 	assert(phase == 1);
 	vcBegin += ph_available_vcs;
@@ -1525,18 +1526,19 @@ void valiant_ni_torus( const Router *r, const Flit *f, int in_channel,
       int const ring_available_vcs = (vcEnd - vcBegin + 1) / 2;
       assert(ring_available_vcs > 0);
 
+      // the four classes must not overlap, whatever the number of VCs
       if(ring_part == 0) {
-	vcEnd -= ring_available_vcs;
+	vcEnd = vcBegin + ring_available_vcs - 1;
       } else {
 	assert(ring_part == 1);
 	vcBegin += ring_available_vcs;
       }
 
-      int const ph_available_vcs = ring_available_vcs / 2;
+      int const ph_available_vcs = (vcEnd - vcBegin + 1) / 2;
       assert(ph_available_vcs > 0);
 
       if(phase == 0) {
-	vcEnd -= ph_available_vcs;
+	vcEnd = vcBegin + ph_available_vcs - 1;
       } else {
 	assert(phase == 1);
 	vcBegin += ph_available_vcs;
-- 
2.43.0


From eadbf3faaf33907dc44c4498e0d403cb801047c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:26 +0000
Subject: [PATCH 26/54] fix: the inter-RAD network keeps accepted transfers
 while a queue is full

---
 rad-sim/sim/radsim_inter_rad.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/rad-sim/sim/radsim_inter_rad.cpp b/rad-sim/sim/radsim_inter_rad.cpp
index 5d623e9..444700d 100644
--- a/rad-sim/sim/radsim_inter_rad.cpp
+++ b/rad-sim/sim/radsim_inter_rad.cpp
@@ -52,8 +52,6 @@ RADSimInterRad::ConnectClusterInterfaces(int rad_id) {
     #endif
 }
 
-bool wrote_yet = false;
-int write_fifo_packet_drop_count = 0;
 void
 RADSimInterRad::writeFifo() {
     /*
@@ -71,6 +69,10 @@ RADSimInterRad::writeFifo() {
         all_axis_slave_signals[i]->tready.write(true);
     }
     int bw_counter = 0; //counter used for bandwidth constraint on inter-rad network
+    //an accepted transfer waits here while its destination fifo is full, and its source is not ready meanwhile
+    std::vector<axis_fields> pending(num_rads);
+    std::vector<bool> is_pending(num_rads, false);
+    int first_rad = 0; //rotates so that no source is starved of a full fifo's free slots
     wait();
     
     //every clock cycle
@@ -79,7 +81,8 @@ RADSimInterRad::writeFifo() {
         //int curr_cycle = GetSimulationCycle(radsim_config.GetDoubleKnobShared("sim_driver_period"));
 
         //iterate thru all RADs
-        for (int i = 0; i < num_rads; i++) {
+        for (int n = 0; n < num_rads; n++) {
+            int i = (first_rad + n) % num_rads;
             //from bandwidth constraint, we calculated how many cycles at a time we can accept data into the inter-rad network
             //when bw_counter exceeds those cycles, we can no longer accept more data
             //we assert backpressure accordingly to prevent accepting of data into the inter-rad.
@@ -106,16 +109,21 @@ RADSimInterRad::writeFifo() {
             curr_transaction.tdest = concat_dest_swap;
 
             if (curr_transaction.tvalid && all_axis_slave_ports[i]->tready.read()) {
-                unsigned int dest_rad = DEST_RAD(curr_transaction.tdest).to_uint64();
-                if (this->fifos[dest_rad]->nb_write(curr_transaction) != false) { //there was an available slot to write to
+                pending[i] = curr_transaction;
+                is_pending[i] = true;
+            }
+            if (is_pending[i]) {
+                unsigned int dest_rad = DEST_RAD(pending[i].tdest).to_uint64();
+                if (this->fifos[dest_rad]->nb_write(pending[i]) != false) { //there was an available slot to write to
                     fifos_latency_counters[dest_rad].push_back(0); //for latency counters
+                    is_pending[i] = false;
                 }
-                else {
-                    std::cout << "WRITE FIFO FULL: packet dropped at inter_rad: could not write into internal fifo. Packets dropped count: " << write_fifo_packet_drop_count << std::endl;
-                    write_fifo_packet_drop_count++;
+                else { //accept no more from this RAD until a slot frees up
+                    all_axis_slave_ports[i]->tready.write(false);
                 }
             }
         }
+        first_rad = (first_rad + 1) % num_rads;
 
         //Update bandwidth cycle counter. Reset to 0 if we have accepted data for enough cycles to meet our bandwidth limit.
         //Else, increment the cycle counter.
-- 
2.43.0


From 7e2f2589a9f5c4aff9b99002d3e869596fd1c111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:03 +0000
Subject: [PATCH 27/54] fix: the exit status reports a failure on any RAD, not
 only on RAD 0

---
 rad-sim/config.py    | 7 +++++--
 rad-sim/sim/main.cpp | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index f2395b5..2d449c4 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -433,8 +433,11 @@ def generate_radsim_main(design_names, radsim_knobs):
     main_cpp_file.write("\tsim_trace_probe.dump_traces();\n")
     main_cpp_file.write("\t(void)argc;\n")
     main_cpp_file.write("\t(void)argv;\n")
-    #device with RAD ID 0 is special as it is used to generate simulation exit codes
-    main_cpp_file.write("\treturn cluster->all_rads[0]->GetSimExitCode();\n")
+    #the simulation fails if the design on any RAD reported a failure
+    main_cpp_file.write("\tint exit_code = 0;\n")
+    main_cpp_file.write("\tfor (RADSimDesignContext* rad : cluster->all_rads)\n")
+    main_cpp_file.write("\t\texit_code |= rad->GetSimExitCode();\n")
+    main_cpp_file.write("\treturn exit_code;\n")
     main_cpp_file.write("}\n")
 
 def prepare_build_dir(design_names):
diff --git a/rad-sim/sim/main.cpp b/rad-sim/sim/main.cpp
index 3384f44..873f784 100644
--- a/rad-sim/sim/main.cpp
+++ b/rad-sim/sim/main.cpp
@@ -70,5 +70,8 @@ int sc_main(int argc, char *argv[]) {
 	sim_trace_probe.dump_traces();
 	(void)argc;
 	(void)argv;
-	return cluster->all_rads[0]->GetSimExitCode();
+	int exit_code = 0;
+	for (RADSimDesignContext* rad : cluster->all_rads)
+		exit_code |= rad->GetSimExitCode();
+	return exit_code;
 }
-- 
2.43.0


From 45be6bc3da43339e80f70433d9a3f774b05a6ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 28/54] fix: several RADs can use one configuration, in any
 order

The NoC config files, knobs and systems are generated per RAD from the
configuration that cluster_configs names for it.
---
 rad-sim/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 2d449c4..893930f 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -98,7 +98,7 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
         curr_config_num = config_names.index(curr_config_name)
         print('generate_booksim_config_files fn ' + curr_config_name + ' ' + str(curr_config_num))
         for noc_idx in range(booksim_params[curr_config_num]["noc_num_nocs"]):
-            booksim_config_file = open(booksim_params[curr_config_num]["radsim_root_dir"] + "/sim/noc/noc" + str(noc_idx) + "_rad" + str(curr_config_num) + "_config", "w")
+            booksim_config_file = open(booksim_params[curr_config_num]["radsim_root_dir"] + "/sim/noc/noc" + str(noc_idx) + "_rad" + str(config_idx) + "_config", "w")
 
             # Booksim topology configuration
             booksim_config_file.write("// Topology\n")
@@ -332,7 +332,7 @@ def generate_radsim_config_file(radsim_knobs, cluster_knobs):
     for config_id in range(len(cluster_knobs["cluster_configs"])):
         curr_config_name = cluster_knobs["cluster_configs"][config_id] #retrieve the config num by rad ID
         curr_config_num = config_names.index(curr_config_name)
-        for param in radsim_knobs[config_id]:
+        for param in radsim_knobs[curr_config_num]:
             radsim_config_file.write(param + " " + str(config_id) + " ") # second element is RAD ID
             if isinstance(radsim_knobs[curr_config_num][param], list):
                 for value in radsim_knobs[curr_config_num][param]:
@@ -397,7 +397,7 @@ def generate_radsim_main(design_names, radsim_knobs):
     main_cpp_file.write("\tint num_traces = radsim_config.GetIntKnobShared(\"telemetry_num_traces\");\n")
     main_cpp_file.write("\tsim_trace_probe.SetTraceRecordingSettings(\"sim.trace\", num_traces);\n\n")
     for i in range(cluster_knobs["num_rads"]):
-        design_name = radsim_knobs[i]["design_name"]
+        design_name = radsim_knobs[config_names.index(cluster_knobs["cluster_configs"][i])]["design_name"]
         main_cpp_file.write("\tsc_clock *driver_clk_sig" + str(i) + " = new sc_clock(\n")
         main_cpp_file.write("\t\t\"node_clk0\", radsim_config.GetDoubleKnobShared(\"sim_driver_period\"), SC_NS);\n")
         main_cpp_file.write("\t" + design_name + "_system *system" + str(i) + " = new " + design_name + "_system(\"" 
-- 
2.43.0


From 5a54bf618415c339199df04536d70666a1819937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 29/54] fix: config.py accepts several NoCs and anynet
 topologies

Both ended in an exception because of the node count list.
---
 rad-sim/config.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 893930f..472f525 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -97,7 +97,10 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
         curr_config_name = cluster_knobs["cluster_configs"][config_idx] #retrieve the config num by rad ID
         curr_config_num = config_names.index(curr_config_name)
         print('generate_booksim_config_files fn ' + curr_config_name + ' ' + str(curr_config_num))
-        for noc_idx in range(booksim_params[curr_config_num]["noc_num_nocs"]):
+        noc_num_nocs = booksim_params[curr_config_num]["noc_num_nocs"]
+        for num_nodes in [radsim_header_params["noc_num_nodes"], radsim_knobs[curr_config_num]["noc_num_nodes"]]:
+            num_nodes.extend(repeat(0, noc_num_nocs - len(num_nodes)))
+        for noc_idx in range(noc_num_nocs):
             booksim_config_file = open(booksim_params[curr_config_num]["radsim_root_dir"] + "/sim/noc/noc" + str(noc_idx) + "_rad" + str(config_idx) + "_config", "w")
 
             # Booksim topology configuration
@@ -146,7 +149,7 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
             elif noc_topology == "anynet":
                 booksim_config_file.write("topology = anynet;\n")
                 booksim_config_file.write("network_file = " + booksim_params[curr_config_num]["noc_anynet_file"][noc_idx] + ";\n")
-                if radsim_header_params[curr_config_num]["noc_num_nodes"][noc_idx] == 0:
+                if radsim_header_params["noc_num_nodes"][noc_idx] == 0:
                     print("Config Error: Number of nodes parameter missing for anynet NoC topologies!")
                     exit(1)
 
-- 
2.43.0


From 19bb632fa661c5a7b2bf7176a50f9fbd86481e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 30/54] fix: fractional inter-RAD bandwidths are configured as
 given

The denominator was 10 times the number of decimal places instead of a
power of ten, so most bandwidths came out wrong or were replaced by the
default.
---
 rad-sim/config.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 472f525..20bc853 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -6,6 +6,7 @@ import shutil
 from itertools import repeat
 from copy import deepcopy
 from math import ceil
+from fractions import Fraction
 
 def parse_config_file(config_filename, booksim_params, radsim_header_params, radsim_knobs, cluster_knobs):
     with open(config_filename, 'r') as yaml_config:
@@ -316,18 +317,8 @@ def generate_radsim_params_header(radsim_header_params):
 
 def get_fraction(input_val):
     '''Returns tuple, where first value is numerator and second is denom'''
-    print(input_val)
-    remainder = float('{:,.3f}'.format(input_val % 1)) #choosing to keep only 3 dec places. need to do this bc python stores floats as binary fraction
-    if remainder == 0: #whole number
-        return (int(input_val), 1)
-    else:
-        count = 0
-        while (remainder % 1 != 0):
-            remainder *= 10
-            count += 1
-        b = count * 10
-        a = (( input_val-(input_val%1) ) * b) + remainder
-        return (int(a), b)
+    fraction = Fraction(round(input_val * 1000), 1000) #choosing to keep only 3 dec places
+    return (fraction.numerator, fraction.denominator)
 
 
 def generate_radsim_config_file(radsim_knobs, cluster_knobs):
@@ -351,7 +342,7 @@ def generate_radsim_config_file(radsim_knobs, cluster_knobs):
             continue
         elif param == 'inter_rad_bw':
             (inter_rad_bw_accept_cycles, inter_rad_bw_total_cycles) = get_fraction(cluster_knobs[param] * cluster_knobs["sim_driver_period"] / radsim_header_params["interfaces_max_axis_tdata_width"])
-            if (inter_rad_bw_accept_cycles <= inter_rad_bw_total_cycles):
+            if (0 < inter_rad_bw_accept_cycles <= inter_rad_bw_total_cycles):
                 radsim_config_file.write("inter_rad_bw_accept_cycles " + str(inter_rad_bw_accept_cycles) + "\n")
                 radsim_config_file.write("inter_rad_bw_total_cycles " + str(inter_rad_bw_total_cycles) + "\n")
             else:
-- 
2.43.0


From 0fc72ff11dce2e33a8e861cd68e5fab53ae83dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 31/54] fix: generated field widths hold every node, RAD and
 AXI-MM address

A NoC with a single node or interface got zero-width fields, more RADs
than nodes did not fit the RAD field and addresses did not fit the payload
of narrow AXI-MM interfaces.
---
 rad-sim/config.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 20bc853..88a9515 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -245,11 +245,12 @@ def generate_radsim_params_header(radsim_header_params):
     for n in radsim_header_params["noc_num_nodes"]:
         if n > max_num_nodes:
             max_num_nodes = n
-    max_destination_bitwidth = int(math.ceil(math.log(max_num_nodes, 2))) * 3 #Multiply by 3 for (rad_id, node_id1, node_id0). If single RAD, node_id0 and node_id1 is the same. If not, node_id0 is portal and node_id1 is destination node on other RAD. 
-    max_destination_field_bitwidth = int(math.ceil(math.log(max_num_nodes, 2))) #Bitwidth of a single field of the destination described above.
+    #Bitwidth of a single field of the destination: it holds a node ID or a RAD ID
+    max_destination_field_bitwidth = max(1, int(math.ceil(math.log(max(max_num_nodes, cluster_knobs["num_rads"]), 2))))
+    max_destination_bitwidth = max_destination_field_bitwidth * 3 #Multiply by 3 for (rad_id, node_id1, node_id0). If single RAD, node_id0 and node_id1 is the same. If not, node_id0 is portal and node_id1 is destination node on other RAD. 
     radsim_params_header_file.write("#define NOC_LINKS_DEST_WIDTH      " + str(max_destination_bitwidth) + "\n")
 
-    dest_interface_bitwidth = int(math.ceil(math.log(radsim_header_params["noc_max_num_router_dest_interfaces"], 2)))
+    dest_interface_bitwidth = max(1, int(math.ceil(math.log(radsim_header_params["noc_max_num_router_dest_interfaces"], 2))))
     radsim_params_header_file.write("#define NOC_LINKS_DEST_INTERFACE_WIDTH " + str(dest_interface_bitwidth) + "\n")
     radsim_params_header_file.write("#define NOC_LINKS_WIDTH           (NOC_LINKS_PAYLOAD_WIDTH + NOC_LINKS_VCID_WIDTH \
         + NOC_LINKS_PACKETID_WIDTH + NOC_LINKS_DEST_WIDTH + NOC_LINKS_DEST_INTERFACE_WIDTH)\n\n")
@@ -294,7 +295,7 @@ def generate_radsim_params_header(radsim_header_params):
     radsim_params_header_file.write("#define DEST_REMOTE_NODE(t) t.range(2 * AXIS_DEST_FIELDW - 1, AXIS_DEST_FIELDW)\n") # TO-DO-MR: Extract remote destination node from destination bitvector
     radsim_params_header_file.write("#define DEST_RAD(t) t.range(3 * AXIS_DEST_FIELDW - 1, 2 * AXIS_DEST_FIELDW)\n") # TO-DO-MR: Extract destination RAD from destination bitvector
     radsim_params_header_file.write("#define AXIS_TRANSACTION_WIDTH (AXIS_MAX_DATAW + AXIS_STRBW + AXIS_KEEPW + AXIS_IDW + AXIS_DESTW + AXIS_USERW + 1)\n")
-    radsim_params_header_file.write("#define AXI4_PAYLOADW (AXI4_MAX_DATAW + AXI4_RESPW + AXI4_USERW + 1)\n")
+    radsim_params_header_file.write("#define AXI4_MAX_BODYW (AXI4_MAX_DATAW > AXI4_ADDRW + AXI4_CTRLW ? AXI4_MAX_DATAW : AXI4_ADDRW + AXI4_CTRLW)\n#define AXI4_PAYLOADW (AXI4_MAX_BODYW + AXI4_RESPW + AXI4_USERW + 1)\n")
     radsim_params_header_file.write("#define AXI4_LAST(t)  t.range(0, 0)\n")
     radsim_params_header_file.write("#define AXI4_USER(t)  t.range(AXI4_USERW, 1)\n")
     radsim_params_header_file.write("#define AXI4_RESP(t)  t.range(AXI4_RESPW + AXI4_USERW, AXI4_USERW + 1)\n")
-- 
2.43.0


From 81798ca2d2704b57ad4a2757f289036709196fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 32/54] fix: consistent defaults for the NoC type, VCs and
 payload width

The default NoC type was not a list, and the network, the adapters and the
generated header each assumed other defaults.
---
 rad-sim/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 88a9515..2c678be 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -482,14 +482,14 @@ if __name__ == "__main__":
     # List default parameter values
     booksim_params = {
         "radsim_root_dir": os.getcwd(),
-        "noc_type": "2d",
+        "noc_type": ["2d"],
         "noc_num_nocs": 1,
         "noc_topology": ["mesh"],
         "noc_anynet_file": [os.getcwd() + "/sim/noc/anynet_file"],
         "noc_dim_x": [8],
         "noc_dim_y": [8],
         "noc_routing_func": ["dim_order"],
-        "noc_vcs": [5],
+        "noc_vcs": [3],
         "noc_vc_buffer_size": [8],
         "noc_output_buffer_size": [8],
         "noc_num_packet_types": [3],
@@ -522,7 +522,7 @@ if __name__ == "__main__":
         "noc_num_nocs": 1,
         "noc_clk_period": [0.571],
         "noc_vcs": [3],
-        "noc_payload_width": [146],
+        "noc_payload_width": [166],
         "noc_num_nodes": [0],
         "design_noc_placement": ["noc.place"],
         "noc_adapters_clk_period": [1.25],
-- 
2.43.0


From 049a3ffd048a22a6b75fc535a6ae5f19e4cc342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 33/54] fix: config.py reads the configuration of the first
 design

With several designs the one whose configuration was read depended on the
hash seed.
---
 rad-sim/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 2c678be..c6ce985 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -464,9 +464,10 @@ if __name__ == "__main__":
         print("Invalid arguments: python config.py <unique_design_name> <[optional] other_unique_design_names>")
         exit(1)
 
-    design_names = set() #No duplicating design include statements and cmake commands
+    design_names = [] #No duplicating design include statements and cmake commands
     for i in range(1, len(sys.argv)): #skip 0th argument (that is current program name)
-        design_names.add(sys.argv[i])
+        if sys.argv[i] not in design_names:
+            design_names.append(sys.argv[i])
         print(sys.argv[i])
 
     # Check if design directory exists
@@ -475,7 +476,8 @@ if __name__ == "__main__":
             print("Cannot find design directory under rad-sim/example-designs/")
             exit(1)
 
-    # Point to YAML configuration file
+    # Point to YAML configuration file (of the first design)
+    design_name = design_names[0]
     config_filename = f"{os.getcwd()}/example-designs/{design_name}/config.yml"
     config_names = []
 
-- 
2.43.0


From ac24c757c6d2891a34bf19261ee24d9650c8614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 34/54] fix: reject a cluster without exactly one configuration
 per RAD

---
 rad-sim/config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index c6ce985..382b9e0 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -77,7 +77,10 @@ def parse_config_file(config_filename, booksim_params, radsim_header_params, rad
     if config_counter != num_configs:
         print('number of unique config sections in config YAML file does not match commandline argument')
         exit(-1)
-    
+    if len(cluster_knobs["cluster_configs"]) != cluster_knobs["num_rads"]:
+        print('number of entries in cluster_configs does not match num_rads')
+        exit(-1)
+
 
 def print_config(booksim_params, radsim_header_params, radsim_knobs):
     print("*****************************")
-- 
2.43.0


From 7ed91cd330acc3af945b156820c2da399df87ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:37 +0000
Subject: [PATCH 35/54] fix: AXI-MM base addresses select the node in systems
 with several NoCs

The NoC ID was placed in the bits that the adapters decode as the node.
---
 rad-sim/sim/design_context.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/rad-sim/sim/design_context.cpp b/rad-sim/sim/design_context.cpp
index 1ae1be7..2bcc42b 100644
--- a/rad-sim/sim/design_context.cpp
+++ b/rad-sim/sim/design_context.cpp
@@ -72,18 +72,12 @@ std::string GetModuleNameFromPortName(std::string &port_name) {
 
 uint64_t DetermineBaseAddress(int noc_id, int node_id, int rad_id) {
   int num_nocs = radsim_config.GetIntKnobPerRad("noc_num_nocs", rad_id);
-  int max_num_nodes = 0;
-  for (int noc_id = 0; noc_id < num_nocs; noc_id++) {
-    int num_nodes = radsim_config.GetIntVectorKnobPerRad("noc_num_nodes", noc_id, rad_id);
-    if (num_nodes > max_num_nodes) {
-      max_num_nodes = num_nodes;
-    }
-  }
   int noc_bits = (int)ceil(log2(num_nocs));
-  int node_bits = (int)ceil(log2(max_num_nodes));
-  uint64_t base_addr = noc_id << node_bits;
-  base_addr += node_id;
-  base_addr <<= (AXI4_ADDRW - noc_bits - node_bits);
+  // The adapters find the destination node in the most significant bits
+  uint64_t base_addr = node_id;
+  base_addr <<= noc_bits;
+  base_addr += noc_id;
+  base_addr <<= (AXI4_ADDRW - AXI4_NODE_ADDRW - noc_bits);
   return base_addr;
 }
 
-- 
2.43.0


From e0c8ae02cbe510e6a27ff84bd67684c2b91d9da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:37 +0000
Subject: [PATCH 36/54] fix: knob queries beyond the configured RADs or values
 are errors

They read past the end of the vectors.
---
 rad-sim/sim/radsim_config.cpp | 70 +++++++++++++++++------------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/rad-sim/sim/radsim_config.cpp b/rad-sim/sim/radsim_config.cpp
index 7d6ec00..fd9c772 100644
--- a/rad-sim/sim/radsim_config.cpp
+++ b/rad-sim/sim/radsim_config.cpp
@@ -54,35 +54,35 @@ void RADSimConfig::AddStringVectorKnobShared(const std::string &key,
 //RAD-specific functions
 // Adds a new integer configuration knob
 void RADSimConfig::AddIntKnobPerRad(const std::string &key, int val, unsigned int rad_id) {
-  _int_knobs_per_rad[rad_id][key] = val;
+  _int_knobs_per_rad.at(rad_id)[key] = val;
 }
 
 // Adds a new double configuration knob
 void RADSimConfig::AddDoubleKnobPerRad(const std::string &key, double val, unsigned int rad_id) {
-  _double_knobs_per_rad[rad_id][key] = val;
+  _double_knobs_per_rad.at(rad_id)[key] = val;
 }
 
 // Adds a new string configuration knob
 void RADSimConfig::AddStringKnobPerRad(const std::string &key, std::string &val, unsigned int rad_id) {
-  _string_knobs_per_rad[rad_id][key] = val;
+  _string_knobs_per_rad.at(rad_id)[key] = val;
 }
 
 // Adds a new integer vector configuration knob
 void RADSimConfig::AddIntVectorKnobPerRad(const std::string &key,
                                     std::vector<int> &val, unsigned int rad_id) {
-  _int_vector_knobs_per_rad[rad_id][key] = val;
+  _int_vector_knobs_per_rad.at(rad_id)[key] = val;
 }
 
 // Adds a new double vector configuration knob
 void RADSimConfig::AddDoubleVectorKnobPerRad(const std::string &key,
                                        std::vector<double> &val, unsigned int rad_id) {
-  _double_vector_knobs_per_rad[rad_id][key] = val;
+  _double_vector_knobs_per_rad.at(rad_id)[key] = val;
 }
 
 // Adds a new string vector configuration knob
 void RADSimConfig::AddStringVectorKnobPerRad(const std::string &key,
                                        std::vector<std::string> &val, unsigned int rad_id) {
-  _string_vector_knobs_per_rad[rad_id][key] = val;
+  _string_vector_knobs_per_rad.at(rad_id)[key] = val;
 }
 
 // Gets the value of an integer configuration knob
@@ -122,7 +122,7 @@ int RADSimConfig::GetIntVectorKnobShared(const std::string &key, unsigned int id
               << key << "\"" << std::endl;
     exit(1);
   }
-  return _int_vector_knobs_shared[key][idx];
+  return _int_vector_knobs_shared[key].at(idx);
 }
 
 // Gets the value of a double vector configuration knob
@@ -133,7 +133,7 @@ double RADSimConfig::GetDoubleVectorKnobShared(const std::string &key,
               << key << "\"" << std::endl;
     exit(1);
   }
-  return _double_vector_knobs_shared[key][idx];
+  return _double_vector_knobs_shared[key].at(idx);
 }
 
 // Gets the value of a string vector configuration knob
@@ -144,7 +144,7 @@ std::string RADSimConfig::GetStringVectorKnobShared(const std::string &key,
               << key << "\"" << std::endl;
     exit(1);
   }
-  return _string_vector_knobs_shared[key][idx];
+  return _string_vector_knobs_shared[key].at(idx);
 }
 
 // Gets the value of an integer vector configuration knob
@@ -181,101 +181,101 @@ RADSimConfig::GetStringVectorKnobShared(const std::string &key) {
 //Retrieve values of RAD-specific knobs
 // Gets the value of an integer configuration knob
 int RADSimConfig::GetIntKnobPerRad(const std::string &key, unsigned int rad_id) {
-  if (_int_knobs_per_rad[rad_id].find(key) == _int_knobs_per_rad[rad_id].end()) {
+  if (_int_knobs_per_rad.at(rad_id).find(key) == _int_knobs_per_rad.at(rad_id).end()) {
     std::cerr << "GetIntKnobPerRAD: Cannot find configuration parameter \"" << key
               << "\"" << std::endl;
     exit(1);
   }
-  return _int_knobs_per_rad[rad_id][key];
+  return _int_knobs_per_rad.at(rad_id)[key];
 }
 
 // Gets the value of a double configuration knob
 double RADSimConfig::GetDoubleKnobPerRad(const std::string &key, unsigned int rad_id) {
-  if (_double_knobs_per_rad[rad_id].find(key) == _double_knobs_per_rad[rad_id].end()) {
+  if (_double_knobs_per_rad.at(rad_id).find(key) == _double_knobs_per_rad.at(rad_id).end()) {
     std::cerr << "GetDoubleKnobPerRAD: Cannot find configuration parameter \"" << key
               << "\"" << std::endl;
     exit(1);
   }
-  return _double_knobs_per_rad[rad_id][key];
+  return _double_knobs_per_rad.at(rad_id)[key];
 }
 
 // Gets the value of a string configuration knob
 std::string RADSimConfig::GetStringKnobPerRad(const std::string &key, unsigned int rad_id) {
-  if (_string_knobs_per_rad[rad_id].find(key) == _string_knobs_per_rad[rad_id].end()) {
+  if (_string_knobs_per_rad.at(rad_id).find(key) == _string_knobs_per_rad.at(rad_id).end()) {
     std::cerr << "GetStringKnobPerRAD: Cannot find configuration parameter \"" << key
               << "\"" << std::endl;
     exit(1);
   }
-  return _string_knobs_per_rad[rad_id][key];
+  return _string_knobs_per_rad.at(rad_id)[key];
 }
 
 // Gets the value of an integer vector configuration knob
 int RADSimConfig::GetIntVectorKnobPerRad(const std::string &key, unsigned int idx, unsigned int rad_id) {
-  if (_int_vector_knobs_per_rad[rad_id].find(key) == _int_vector_knobs_per_rad[rad_id].end()) {
+  if (_int_vector_knobs_per_rad.at(rad_id).find(key) == _int_vector_knobs_per_rad.at(rad_id).end()) {
     std::cerr << "GetIntVectorKnobPerRAD: Cannot find configuration parameter \""
               << key << "\"" << std::endl;
     exit(1);
   }
-  return _int_vector_knobs_per_rad[rad_id][key][idx];
+  return _int_vector_knobs_per_rad.at(rad_id)[key].at(idx);
 }
 
 // Gets the value of a double vector configuration knob
 double RADSimConfig::GetDoubleVectorKnobPerRad(const std::string &key,
                                          unsigned int idx, unsigned int rad_id) {
-  if (_double_vector_knobs_per_rad[rad_id].find(key) == _double_vector_knobs_per_rad[rad_id].end()) {
+  if (_double_vector_knobs_per_rad.at(rad_id).find(key) == _double_vector_knobs_per_rad.at(rad_id).end()) {
     std::cerr << "GetDoubleVectorKnobPerRAD: Cannot find configuration parameter \""
               << key << "\"" << std::endl;
     exit(1);
   }
-  return _double_vector_knobs_per_rad[rad_id][key][idx];
+  return _double_vector_knobs_per_rad.at(rad_id)[key].at(idx);
 }
 
 // Gets the value of a string vector configuration knob
 std::string RADSimConfig::GetStringVectorKnobPerRad(const std::string &key,
                                               unsigned int idx, unsigned int rad_id) {
-  if (_string_vector_knobs_per_rad[rad_id].find(key) == _string_vector_knobs_per_rad[rad_id].end()) {
+  if (_string_vector_knobs_per_rad.at(rad_id).find(key) == _string_vector_knobs_per_rad.at(rad_id).end()) {
     std::cerr << "GetStringVectorKnobPerRAD: Cannot find configuration parameter \""
               << key << "\"" << std::endl;
     exit(1);
   }
   // if (key == "dram_config_files" ) {
   //   std::cout << "radsim_config.cpp: dram_config_files: " << std::endl;
-  //   for (unsigned int i = 0; i < _string_vector_knobs_per_rad[rad_id][key].size(); i++) {
-  //     std::cout << _string_vector_knobs_per_rad[rad_id][key][i] << std::endl;
+  //   for (unsigned int i = 0; i < _string_vector_knobs_per_rad.at(rad_id)[key].size(); i++) {
+  //     std::cout << _string_vector_knobs_per_rad.at(rad_id)[key][i] << std::endl;
   //   }
   // }
-  return _string_vector_knobs_per_rad[rad_id][key][idx];
+  return _string_vector_knobs_per_rad.at(rad_id)[key].at(idx);
 }
 
 // Gets the value of an integer vector configuration knob
 std::vector<int> &RADSimConfig::GetIntVectorKnobPerRad(const std::string &key, unsigned int rad_id) {
-  if (_int_vector_knobs_per_rad[rad_id].find(key) == _int_vector_knobs_per_rad[rad_id].end()) {
+  if (_int_vector_knobs_per_rad.at(rad_id).find(key) == _int_vector_knobs_per_rad.at(rad_id).end()) {
     std::cerr << "GetIntVectorKnobPerRAD: Cannot find configuration parameter \""
               << key << "\"" << std::endl;
     exit(1);
   }
-  return _int_vector_knobs_per_rad[rad_id][key];
+  return _int_vector_knobs_per_rad.at(rad_id)[key];
 }
 
 // Gets the value of a double vector configuration knob
 std::vector<double> &RADSimConfig::GetDoubleVectorKnobPerRad(const std::string &key, unsigned int rad_id) {
-  if (_double_vector_knobs_per_rad[rad_id].find(key) == _double_vector_knobs_per_rad[rad_id].end()) {
+  if (_double_vector_knobs_per_rad.at(rad_id).find(key) == _double_vector_knobs_per_rad.at(rad_id).end()) {
     std::cerr << "GetDoubleVectorKnobPerRAD: Cannot find configuration parameter \""
               << key << "\"" << std::endl;
     exit(1);
   }
-  return _double_vector_knobs_per_rad[rad_id][key];
+  return _double_vector_knobs_per_rad.at(rad_id)[key];
 }
 
 // Gets the value of a string vector configuration knob
 std::vector<std::string> &
 RADSimConfig::GetStringVectorKnobPerRad(const std::string &key, unsigned int rad_id) {
-  if (_string_vector_knobs_per_rad[rad_id].find(key) == _string_vector_knobs_per_rad[rad_id].end()) {
+  if (_string_vector_knobs_per_rad.at(rad_id).find(key) == _string_vector_knobs_per_rad.at(rad_id).end()) {
     std::cerr << "GetStringVectorKnobPerRAD: Cannot find configuration parameter \""
               << key << "\"" << std::endl;
     exit(1);
   }
-  return _string_vector_knobs_per_rad[rad_id][key];
+  return _string_vector_knobs_per_rad.at(rad_id)[key];
 }
 
 // Check if an integer configuration knob is defined
@@ -311,32 +311,32 @@ bool RADSimConfig::HasStringVectorKnobShared(const std::string &key) {
 //per-RAD functions to check if has certain knob defined for that RAD
 // Check if an integer configuration knob is defined
 bool RADSimConfig::HasIntKnobPerRad(const std::string &key, unsigned int rad_id) {
-  return (_int_knobs_per_rad[rad_id].find(key) != _int_knobs_per_rad[rad_id].end());
+  return (_int_knobs_per_rad.at(rad_id).find(key) != _int_knobs_per_rad.at(rad_id).end());
 }
 
 // Check if a double configuration knob is defined
 bool RADSimConfig::HasDoubleKnobPerRad(const std::string &key, unsigned int rad_id) {
-  return (_double_knobs_per_rad[rad_id].find(key) != _double_knobs_per_rad[rad_id].end());
+  return (_double_knobs_per_rad.at(rad_id).find(key) != _double_knobs_per_rad.at(rad_id).end());
 }
 
 // Check if a string configuration knob is defined
 bool RADSimConfig::HasStringKnobPerRad(const std::string &key, unsigned int rad_id) {
-  return (_string_knobs_per_rad[rad_id].find(key) != _string_knobs_per_rad[rad_id].end());
+  return (_string_knobs_per_rad.at(rad_id).find(key) != _string_knobs_per_rad.at(rad_id).end());
 }
 
 // Check if an integer vector configuration knob is defined
 bool RADSimConfig::HasIntVectorKnobPerRad(const std::string &key, unsigned int rad_id) {
-  return (_int_vector_knobs_per_rad[rad_id].find(key) != _int_vector_knobs_per_rad[rad_id].end());
+  return (_int_vector_knobs_per_rad.at(rad_id).find(key) != _int_vector_knobs_per_rad.at(rad_id).end());
 }
 
 // Check if a double vector configuration knob is defined
 bool RADSimConfig::HasDoubleVectorKnobPerRad(const std::string &key, unsigned int rad_id) {
-  return (_double_vector_knobs_per_rad[rad_id].find(key) != _double_vector_knobs_per_rad[rad_id].end());
+  return (_double_vector_knobs_per_rad.at(rad_id).find(key) != _double_vector_knobs_per_rad.at(rad_id).end());
 }
 
 // Check if a string vector configuration knob is defined
 bool RADSimConfig::HasStringVectorKnobPerRad(const std::string &key, unsigned int rad_id) {
-  return (_string_vector_knobs_per_rad[rad_id].find(key) != _string_vector_knobs_per_rad[rad_id].end());
+  return (_string_vector_knobs_per_rad.at(rad_id).find(key) != _string_vector_knobs_per_rad.at(rad_id).end());
 }
 
 // Parse RADSim knobs from file into RADSimConfig data structures
-- 
2.43.0


From ae571781060660616cdd22d13c260aae3752b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:37 +0000
Subject: [PATCH 37/54] fix: trace names with spaces are read back as
 configured

Every word counted as a trace of its own.
---
 rad-sim/config.py             | 3 +++
 rad-sim/sim/radsim_config.cpp | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 382b9e0..1aec9c3 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -354,6 +354,9 @@ def generate_radsim_config_file(radsim_knobs, cluster_knobs):
                 radsim_config_file.write("inter_rad_bw_accept_cycles " + str(1) + "\n")
                 radsim_config_file.write("inter_rad_bw_total_cycles " + str(1) + "\n")
             continue
+        elif param == 'telemetry_traces': #quoted since trace names can contain spaces
+            radsim_config_file.write(param + " " + " ".join('"' + str(value) + '"' for value in cluster_knobs[param]) + "\n")
+            continue
         else:
             radsim_config_file.write(param + " " )
         
diff --git a/rad-sim/sim/radsim_config.cpp b/rad-sim/sim/radsim_config.cpp
index fd9c772..74e1e1b 100644
--- a/rad-sim/sim/radsim_config.cpp
+++ b/rad-sim/sim/radsim_config.cpp
@@ -1,4 +1,5 @@
 #include "radsim_config.hpp"
+#include <iomanip>
 
 RADSimConfig::RADSimConfig() {}
 RADSimConfig::~RADSimConfig() {}
@@ -428,7 +429,8 @@ void ParseRADSimKnobs(const std::string &knobs_filename) {
     } else if (param == "telemetry_traces") {
       std::vector<std::string> value;
       std::string value_element;
-      while (getline(ss, value_element, ' ')) {
+      // Names are quoted since they can contain spaces
+      while (ss >> std::quoted(value_element)) {
         value.push_back(value_element);
       }
       radsim_config.AddStringVectorKnobShared(param, value);
-- 
2.43.0


From 2e67711e0c2b0fcc8be5dd452ce118fb4217bc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:10 +0000
Subject: [PATCH 38/54] fix: AXI-MM adapters that are no faster than the module
 keep every transaction

At equal clock periods a one-flit transaction blocked the adapter until the
packetization cycle counter wrapped around, and a transaction accepted before
the previous one was packetized was lost.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 27 ++++++++++++---------
 rad-sim/sim/noc/aximm_master_adapter.hpp |  2 +-
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 31 +++++++++++++-----------
 rad-sim/sim/noc/aximm_slave_adapter.hpp  |  2 +-
 4 files changed, 34 insertions(+), 28 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 81f3955..8a14772 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -66,7 +66,8 @@ aximm_master_adapter::aximm_master_adapter(
   SC_METHOD(InputReady);
   sensitive << _injection_afifo_full << aximm_interface.rvalid
             << aximm_interface.bvalid << _injection_priority_setting
-            << _packetization_cycle << rst;
+            << _packetization_cycle << _num_captured << _num_packetized
+            << rst;
   SC_CTHREAD(InputInjection, noc_clk.pos());
   reset_signal_is(rst, true);
   SC_CTHREAD(InputPacketization, adapter_clk.pos());
@@ -394,8 +395,11 @@ void aximm_master_adapter::InputReady() {
     // simultaneously.
     assert(!(_rready && _bready));
   }
-  aximm_interface.rready.write((_packetization_cycle.read() == 0) && _rready);
-  aximm_interface.bready.write((_packetization_cycle.read() == 0) && _bready);
+  // A transaction is captured only after the previous one is packetized
+  bool can_capture = (_packetization_cycle.read() == 0) &&
+                     (_num_captured.read() == _num_packetized.read());
+  aximm_interface.rready.write(can_capture && _rready);
+  aximm_interface.bready.write(can_capture && _bready);
 }
 
 int aximm_master_adapter::GetInputDestinationNode(sc_bv<AXI4_ADDRW> &addr) {
@@ -412,7 +416,7 @@ void aximm_master_adapter::InputInterface() {
   _i_payload.write(0);
   _i_ctrl.write(0);
   _i_user.write(0);
-  _i_valid.write(false);
+  _num_captured.write(0);
   _i_type.write(0);
   _i_noc_dest.write(0);
   _i_resp.write(0);
@@ -430,7 +434,7 @@ void aximm_master_adapter::InputInterface() {
       _i_resp.write(aximm_interface.rresp.read());
       _i_last.write(aximm_interface.rlast.read());
       _i_user.write(aximm_interface.ruser.read());
-      _i_valid.write(aximm_interface.rvalid.read());
+      _num_captured.write(_num_captured.read() + 1);
       _i_type.write(AXI_TYPE_R);
       sc_bv<AXI4_ADDRW> resp_addr = aximm_interface.ruser.read().to_uint64();
       int noc_dest = GetInputDestinationNode(resp_addr);
@@ -452,7 +456,7 @@ void aximm_master_adapter::InputInterface() {
       _i_id.write(aximm_interface.bid.read());
       _i_resp.write(aximm_interface.bresp.read());
       _i_user.write(aximm_interface.buser.read());
-      _i_valid.write(aximm_interface.bvalid.read());
+      _num_captured.write(_num_captured.read() + 1);
       _i_type.write(AXI_TYPE_B);
       sc_bv<AXI4_ADDRW> resp_addr = aximm_interface.buser.read().to_uint64();
       int noc_dest = GetInputDestinationNode(resp_addr);
@@ -469,8 +473,6 @@ void aximm_master_adapter::InputInterface() {
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
           _node_id, noc_dest, AXI_TYPE_B, _interface_dataw, _network_id);
       _i_unique_sim_id.write(unique_sim_id);
-    } else {
-      _i_valid.write(false);
     }
     wait();
   }
@@ -483,13 +485,13 @@ void aximm_master_adapter::InputPacketization() {
   // Reset Code
   _packetization_cycle.write(0);
   _num_packetization_flits.write(0);
+  _num_packetized.write(0);
   _injection_afifo_full.write(false);
   wait();
 
   while (true) {
-    // If a valid transaction is selected and asynchronous injection FIFO has
-    // empty slots
-    if (_i_valid.read()) {
+    // If a captured transaction is not packetized yet
+    if (_num_captured.read() != _num_packetized.read()) {
       // Packetization is simulated by generating all flits and pushing them
       // into the asynchronous injection FIFO in the first FSM packetization
       // state, then remains idle during the remaining states (analogous to an
@@ -537,6 +539,7 @@ void aximm_master_adapter::InputPacketization() {
           }
         }
         _num_packetization_flits.write(num_flits);
+        _num_packetized.write(_num_packetized.read() + 1);
         _packetization_cycle.write(_packetization_cycle.read() + 1);
       }
     }
@@ -548,7 +551,7 @@ void aximm_master_adapter::InputPacketization() {
       } else {
         limit = _freq_ratio - 1;
       }
-      if (_packetization_cycle.read() == limit) {
+      if (_packetization_cycle.read() >= limit) {
         NoCTransactionTelemetry::RecordTransactionTailPacketization(
             _i_unique_sim_id.read());
         _packetization_cycle.write(0);
diff --git a/rad-sim/sim/noc/aximm_master_adapter.hpp b/rad-sim/sim/noc/aximm_master_adapter.hpp
index d9f3cb4..6a1d416 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.hpp
@@ -57,7 +57,7 @@ private:
   sc_signal<sc_bv<AXI4_USERW>> _i_user;
   sc_signal<sc_bv<AXI4_RESPW>> _i_resp;
   sc_signal<sc_bv<1>> _i_last;
-  sc_signal<bool> _i_valid;
+  sc_signal<unsigned int> _num_captured, _num_packetized;
   sc_signal<sc_uint<3>> _i_type;
   sc_signal<sc_uint<NOC_LINKS_DEST_WIDTH>> _i_noc_dest;
   sc_signal<int> _i_unique_sim_id;
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 7c53878..704bbfc 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -51,7 +51,8 @@ aximm_slave_adapter::aximm_slave_adapter(
   SC_METHOD(InputReady);
   sensitive << _injection_afifo_full << aximm_interface.arvalid
             << aximm_interface.awvalid << aximm_interface.wvalid
-            << _injection_priority_setting << _packetization_cycle << rst;
+            << _injection_priority_setting << _packetization_cycle
+            << _num_captured << _num_packetized << rst;
   SC_CTHREAD(InputInjection, noc_clk.pos());
   reset_signal_is(rst, true);
   SC_CTHREAD(InputPacketization, adapter_clk.pos());
@@ -132,9 +133,12 @@ void aximm_slave_adapter::InputReady() {
             !(_arready && _awready && _wready)) ||
            (!_arready && !_awready && !_wready));
   }
-  aximm_interface.awready.write((_packetization_cycle.read() == 0) && _awready);
-  aximm_interface.wready.write((_packetization_cycle.read() == 0) && _wready);
-  aximm_interface.arready.write((_packetization_cycle.read() == 0) && _arready);
+  // A transaction is captured only after the previous one is packetized
+  bool can_capture = (_packetization_cycle.read() == 0) &&
+                     (_num_captured.read() == _num_packetized.read());
+  aximm_interface.awready.write(can_capture && _awready);
+  aximm_interface.wready.write(can_capture && _wready);
+  aximm_interface.arready.write(can_capture && _arready);
 }
 
 // Implements the input interface capturing into the reduced set of signals to
@@ -146,7 +150,7 @@ void aximm_slave_adapter::InputInterface() {
   _i_payload.write(0);
   _i_ctrl.write(0);
   _i_user.write(0);
-  _i_valid.write(false);
+  _num_captured.write(0);
   _i_type.write(0);
   _i_noc_dest.write(0);
   _i_resp.write(0);
@@ -174,7 +178,7 @@ void aximm_slave_adapter::InputInterface() {
           aximm_interface.arlen.read();
       _i_ctrl.write(tmp_ctrl);
       _i_user.write(aximm_interface.aruser.read());
-      _i_valid.write(aximm_interface.arvalid.read());
+      _num_captured.write(_num_captured.read() + 1);
       _i_type.write(AXI_TYPE_AR);
       sc_bv<AXI4_ADDRW> araddr = aximm_interface.araddr.read();
       int noc_dest = GetInputDestinationNode(araddr);
@@ -206,7 +210,7 @@ void aximm_slave_adapter::InputInterface() {
           aximm_interface.awlen.read();
       _i_ctrl.write(tmp_ctrl);
       _i_user.write(aximm_interface.awuser.read());
-      _i_valid.write(aximm_interface.awvalid.read());
+      _num_captured.write(_num_captured.read() + 1);
       _i_type.write(AXI_TYPE_AW);
       sc_bv<AXI4_ADDRW> awaddr = aximm_interface.awaddr.read();
       int noc_dest = GetInputDestinationNode(awaddr);
@@ -233,7 +237,7 @@ void aximm_slave_adapter::InputInterface() {
       tmp_ctrl.range(0, 0) = aximm_interface.wlast.read();
       _i_ctrl.write(tmp_ctrl);
       _i_user.write(aximm_interface.wuser.read());
-      _i_valid.write(aximm_interface.wvalid.read());
+      _num_captured.write(_num_captured.read() + 1);
       _i_type.write(AXI_TYPE_W);
       _i_last.write(aximm_interface.wlast.read());
       // Write data goes to the destination of the oldest write address whose
@@ -254,8 +258,6 @@ void aximm_slave_adapter::InputInterface() {
       /*std::cout << this->name() << ": Registered W transaction (user = "
                 << aximm_interface.wuser.read().to_uint64() << ")!"
                 << std::endl;*/
-    } else {
-      _i_valid.write(false);
     }
     wait();
   }
@@ -278,13 +280,13 @@ void aximm_slave_adapter::InputPacketization() {
   // Reset Code
   _packetization_cycle.write(0);
   _num_packetization_flits.write(0);
+  _num_packetized.write(0);
   _injection_afifo_full.write(false);
   wait();
 
   while (true) {
-    // If a valid transaction is selected and asynchronous injection FIFO has
-    // empty slots
-    if (_i_valid.read()) {
+    // If a captured transaction is not packetized yet
+    if (_num_captured.read() != _num_packetized.read()) {
       // Packetization is simulated by generating all flits and pushing them
       // into the asynchronous injection FIFO in the first FSM packetization
       // state, then remains idle during the remaining states (analogous to an
@@ -340,6 +342,7 @@ void aximm_slave_adapter::InputPacketization() {
           }
         }
         _num_packetization_flits.write(num_flits);
+        _num_packetized.write(_num_packetized.read() + 1);
         _packetization_cycle.write(_packetization_cycle.read() + 1);
       }
     }
@@ -351,7 +354,7 @@ void aximm_slave_adapter::InputPacketization() {
       } else {
         limit = _freq_ratio - 1;
       }
-      if (_packetization_cycle.read() == limit) {
+      if (_packetization_cycle.read() >= limit) {
         NoCTransactionTelemetry::RecordTransactionTailPacketization(
             _i_unique_sim_id.read());
         _packetization_cycle.write(0);
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.hpp b/rad-sim/sim/noc/aximm_slave_adapter.hpp
index b562a1a..8d6f26c 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.hpp
@@ -93,7 +93,7 @@ private:
   sc_signal<sc_bv<AXI4_USERW>> _i_user;
   sc_signal<sc_bv<AXI4_RESPW>> _i_resp;
   sc_signal<sc_bv<1>> _i_last;
-  sc_signal<bool> _i_valid;
+  sc_signal<unsigned int> _num_captured, _num_packetized;
   sc_signal<sc_uint<3>> _i_type;
   sc_signal<sc_uint<NOC_LINKS_DEST_WIDTH>> _i_noc_dest;
   sc_signal<int> _i_unique_sim_id;
-- 
2.43.0


From 485f5b4654861cc774f806efe68ff827ee1f4b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:28 +0000
Subject: [PATCH 39/54] fix: NoCs of different sizes can be simulated together

BookSim keeps the dimensions, virtual channels and routing tables used by its
routing functions in global variables, so the network created last misrouted
the traffic of every other one (several NoCs in a RAD or different RADs in a
cluster). Each network now loads its own values before it is used.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp     |  1 +
 rad-sim/sim/noc/aximm_slave_adapter.cpp      |  1 +
 rad-sim/sim/noc/axis_slave_adapter.cpp       |  1 +
 rad-sim/sim/noc/booksim/networks/anynet.hpp  |  2 ++
 rad-sim/sim/noc/booksim/networks/cmesh.hpp   |  2 ++
 rad-sim/sim/noc/booksim/networks/network.cpp |  6 ++++
 rad-sim/sim/noc/booksim/networks/network.hpp |  7 +++++
 rad-sim/sim/noc/booksim/routefunc.cpp        | 31 ++++++++++++++++++++
 rad-sim/sim/noc/booksim/routefunc.hpp        | 17 +++++++++++
 9 files changed, 68 insertions(+)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 8a14772..7b2ba4c 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -625,6 +625,7 @@ void aximm_master_adapter::InputInjection() {
           const Router *router = inject->GetSink();
           assert(router);
           int in_channel = inject->GetSinkPort();
+          _noc->LoadRoutingGlobals();
           _routing_func(router, booksim_flit, in_channel,
                         &booksim_flit->la_route_set, false);
         }
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 704bbfc..b8d5784 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -428,6 +428,7 @@ void aximm_slave_adapter::InputInjection() {
           const Router *router = inject->GetSink();
           assert(router);
           int in_channel = inject->GetSinkPort();
+          _noc->LoadRoutingGlobals();
           _routing_func(router, booksim_flit, in_channel,
                         &booksim_flit->la_route_set, false);
         }
diff --git a/rad-sim/sim/noc/axis_slave_adapter.cpp b/rad-sim/sim/noc/axis_slave_adapter.cpp
index 7055e41..c0f1596 100644
--- a/rad-sim/sim/noc/axis_slave_adapter.cpp
+++ b/rad-sim/sim/noc/axis_slave_adapter.cpp
@@ -256,6 +256,7 @@ void axis_slave_adapter::InputInjection() {
           const Router *router = inject->GetSink();
           assert(router);
           int in_channel = inject->GetSinkPort();
+          _noc->LoadRoutingGlobals();
           _routing_func(router, booksim_flit, in_channel,
                         &booksim_flit->la_route_set, false);
         }
diff --git a/rad-sim/sim/noc/booksim/networks/anynet.hpp b/rad-sim/sim/noc/booksim/networks/anynet.hpp
index 514f862..56bf453 100644
--- a/rad-sim/sim/noc/booksim/networks/anynet.hpp
+++ b/rad-sim/sim/noc/booksim/networks/anynet.hpp
@@ -36,6 +36,8 @@
 #include <map>
 #include <list>
 
+extern map<int, int>* global_routing_table;
+
 class AnyNet : public Network {
 
   string file_name;
diff --git a/rad-sim/sim/noc/booksim/networks/cmesh.hpp b/rad-sim/sim/noc/booksim/networks/cmesh.hpp
index a12ee67..798abd4 100644
--- a/rad-sim/sim/noc/booksim/networks/cmesh.hpp
+++ b/rad-sim/sim/noc/booksim/networks/cmesh.hpp
@@ -57,6 +57,8 @@ public:
 
 private:
 
+  friend class RoutingGlobals;
+
   static int _cX ;
   static int _cY ;
 
diff --git a/rad-sim/sim/noc/booksim/networks/network.cpp b/rad-sim/sim/noc/booksim/networks/network.cpp
index 14dac00..3f335a0 100644
--- a/rad-sim/sim/noc/booksim/networks/network.cpp
+++ b/rad-sim/sim/noc/booksim/networks/network.cpp
@@ -116,6 +116,9 @@ Network * Network::New(const Configuration & config, const string & name)
     if ( n && ( config.GetInt( "link_failures" ) > 0 ) ) {
         n->InsertRandomFaults( config );
     }
+    if ( n ) {
+        n->_routing_globals.Save( );
+    }
     return n;
 }
 
@@ -172,6 +175,7 @@ void Network::_Alloc( )
 // Calls ReadInputs() for each TimedModule in the Network.
 void Network::ReadInputs( )
 {
+    LoadRoutingGlobals( );
     for(auto _timed_module : _timed_modules) {
         _timed_module->ReadInputs( );
     }
@@ -180,6 +184,7 @@ void Network::ReadInputs( )
 // Calls Evaluate() for each TimedModule in the Network.
 void Network::Evaluate( )
 {
+    LoadRoutingGlobals( );
     for(auto _timed_module : _timed_modules) {
         _timed_module->Evaluate( );
     }
@@ -188,6 +193,7 @@ void Network::Evaluate( )
 // Calls WriteOutputs() for each TimedModule in the Network.
 void Network::WriteOutputs( )
 {
+    LoadRoutingGlobals( );
     for(auto _timed_module : _timed_modules) {
         _timed_module->WriteOutputs( );
     }
diff --git a/rad-sim/sim/noc/booksim/networks/network.hpp b/rad-sim/sim/noc/booksim/networks/network.hpp
index b8cd3c8..166d76c 100644
--- a/rad-sim/sim/noc/booksim/networks/network.hpp
+++ b/rad-sim/sim/noc/booksim/networks/network.hpp
@@ -41,6 +41,7 @@
 #include "channel.hpp"
 #include "config_utils.hpp"
 #include "globals.hpp"
+#include "routefunc.hpp"
 
 typedef Channel<Credit> CreditChannel;
 
@@ -79,6 +80,9 @@ protected:
     virtual void _ComputeSize( const Configuration &config ) = 0;
     virtual void _BuildNet( const Configuration &config ) = 0;
 
+    // Global variables of the routing functions for this network
+    RoutingGlobals _routing_globals;
+
     void _Alloc( );
 
 public:
@@ -100,6 +104,9 @@ public:
 
     virtual double Capacity( ) const;
 
+    // Makes the routing functions work on this network
+    void LoadRoutingGlobals( ) const {_routing_globals.Load( );}
+
     virtual void ReadInputs( );
     virtual void Evaluate( );
     virtual void WriteOutputs( );
diff --git a/rad-sim/sim/noc/booksim/routefunc.cpp b/rad-sim/sim/noc/booksim/routefunc.cpp
index 3276b55..932331c 100644
--- a/rad-sim/sim/noc/booksim/routefunc.cpp
+++ b/rad-sim/sim/noc/booksim/routefunc.cpp
@@ -49,6 +49,7 @@
 #include "tree4.hpp"
 #include "qtree.hpp"
 #include "cmesh.hpp"
+#include "anynet.hpp"
 
 
 
@@ -70,6 +71,36 @@ int gWriteDataBeginVC, gWriteDataEndVC;
 int gReadReplyBeginVC, gReadReplyEndVC;
 int gWriteReplyBeginVC, gWriteReplyEndVC;
 
+void RoutingGlobals::Save( )
+{
+  _k = gK; _n = gN; _c = gC; _nodes = gNodes;
+  _vcs = gNumVCs;
+  _read_req_vcs[0] = gReadReqBeginVC; _read_req_vcs[1] = gReadReqEndVC;
+  _write_req_vcs[0] = gWriteReqBeginVC; _write_req_vcs[1] = gWriteReqEndVC;
+  _write_data_vcs[0] = gWriteDataBeginVC; _write_data_vcs[1] = gWriteDataEndVC;
+  _read_reply_vcs[0] = gReadReplyBeginVC; _read_reply_vcs[1] = gReadReplyEndVC;
+  _write_reply_vcs[0] = gWriteReplyBeginVC; _write_reply_vcs[1] = gWriteReplyEndVC;
+  _cmesh[0] = CMesh::_cX; _cmesh[1] = CMesh::_cY;
+  _cmesh[2] = CMesh::_memo_NodeShiftX; _cmesh[3] = CMesh::_memo_NodeShiftY;
+  _cmesh[4] = CMesh::_memo_PortShiftY;
+  _anynet_routing_table = global_routing_table;
+}
+
+void RoutingGlobals::Load( ) const
+{
+  gK = _k; gN = _n; gC = _c; gNodes = _nodes;
+  gNumVCs = _vcs;
+  gReadReqBeginVC = _read_req_vcs[0]; gReadReqEndVC = _read_req_vcs[1];
+  gWriteReqBeginVC = _write_req_vcs[0]; gWriteReqEndVC = _write_req_vcs[1];
+  gWriteDataBeginVC = _write_data_vcs[0]; gWriteDataEndVC = _write_data_vcs[1];
+  gReadReplyBeginVC = _read_reply_vcs[0]; gReadReplyEndVC = _read_reply_vcs[1];
+  gWriteReplyBeginVC = _write_reply_vcs[0]; gWriteReplyEndVC = _write_reply_vcs[1];
+  CMesh::_cX = _cmesh[0]; CMesh::_cY = _cmesh[1];
+  CMesh::_memo_NodeShiftX = _cmesh[2]; CMesh::_memo_NodeShiftY = _cmesh[3];
+  CMesh::_memo_PortShiftY = _cmesh[4];
+  global_routing_table = _anynet_routing_table;
+}
+
 // ============================================================
 //  QTree: Nearest Common Ancestor
 // ===
diff --git a/rad-sim/sim/noc/booksim/routefunc.hpp b/rad-sim/sim/noc/booksim/routefunc.hpp
index b745e7f..f453b2c 100644
--- a/rad-sim/sim/noc/booksim/routefunc.hpp
+++ b/rad-sim/sim/noc/booksim/routefunc.hpp
@@ -46,4 +46,21 @@ extern int gWriteDataBeginVC, gWriteDataEndVC;
 extern int gReadReplyBeginVC, gReadReplyEndVC;
 extern int gWriteReplyBeginVC, gWriteReplyEndVC;
 
+// A copy of the global variables that describe one network to its routing
+// functions. Each network keeps its own copy and loads it before it is used, so
+// that networks of different sizes and virtual channels can coexist.
+class RoutingGlobals {
+  int _k, _n, _c, _nodes;
+  int _vcs;
+  int _read_req_vcs[2], _write_req_vcs[2], _write_data_vcs[2];
+  int _read_reply_vcs[2], _write_reply_vcs[2];
+  int _cmesh[5];
+  map<int, int> * _anynet_routing_table;
+
+public:
+  RoutingGlobals( ) { Save( ); }
+  void Save( );
+  void Load( ) const;
+};
+
 #endif
-- 
2.43.0


From 0720990f8c83da57670fea2d96928caa789252ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:12 +0000
Subject: [PATCH 40/54] fix: mult_driver reports a wrong product as a design
 failure

---
 rad-sim/example-designs/mult/mult_driver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rad-sim/example-designs/mult/mult_driver.cpp b/rad-sim/example-designs/mult/mult_driver.cpp
index 2ed5dfa..0813102 100644
--- a/rad-sim/example-designs/mult/mult_driver.cpp
+++ b/rad-sim/example-designs/mult/mult_driver.cpp
@@ -64,8 +64,12 @@ void mult_driver::sink() {
   std::cout << "Received " << response.read().to_uint64() << " product from the multiplier!" << std::endl;
   std::cout << "The actual product is " << actual_product << std::endl;
 
-  if (response.read() != actual_product) std::cout << "FAILURE - Output is not matching!" << std::endl;
-  else std::cout << "SUCCESS - Output is matching!" << std::endl;
+  if (response.read() != actual_product) {
+    std::cout << "FAILURE - Output is not matching!" << std::endl;
+    radsim_design->ReportDesignFailure();
+  } else {
+    std::cout << "SUCCESS - Output is matching!" << std::endl;
+  }
 
   end_cycle = GetSimulationCycle(radsim_config.GetDoubleKnobShared("sim_driver_period"));
   std::cout << "Simulation Cycles for Just Mult Portion = " << end_cycle - start_cycle << std::endl;
-- 
2.43.0


From 362b19d3a4ee878f22e39f402bf0f278085261b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:12 +0000
Subject: [PATCH 41/54] fix: dlrm_driver compares every element of an output

---
 rad-sim/example-designs/dlrm/dlrm_driver.cpp         | 2 +-
 rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/example-designs/dlrm/dlrm_driver.cpp b/rad-sim/example-designs/dlrm/dlrm_driver.cpp
index 1943dee..e6c482f 100644
--- a/rad-sim/example-designs/dlrm/dlrm_driver.cpp
+++ b/rad-sim/example-designs/dlrm/dlrm_driver.cpp
@@ -165,7 +165,7 @@ void dlrm_driver::sink() {
     if (collector_fifo_rdy.read() && dut_output.size() > 0) {
       bool matching = true;
       for (unsigned int e = 0; e < dut_output.size(); e++) {
-        matching = (dut_output[e] == _mlp_outputs[outputs_count][e]);
+        matching &= (dut_output[e] == _mlp_outputs[outputs_count][e]);
       }
       if (!matching) {
         std::cout << "Output " << outputs_count << " on rad " << radsim_design->rad_id << " does not match!\n";
diff --git a/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp b/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp
index 1943dee..e6c482f 100644
--- a/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp
@@ -165,7 +165,7 @@ void dlrm_driver::sink() {
     if (collector_fifo_rdy.read() && dut_output.size() > 0) {
       bool matching = true;
       for (unsigned int e = 0; e < dut_output.size(); e++) {
-        matching = (dut_output[e] == _mlp_outputs[outputs_count][e]);
+        matching &= (dut_output[e] == _mlp_outputs[outputs_count][e]);
       }
       if (!matching) {
         std::cout << "Output " << outputs_count << " on rad " << radsim_design->rad_id << " does not match!\n";
-- 
2.43.0


From ab258c32bd5305a65dc22177f77ed981c9078ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:12 +0000
Subject: [PATCH 42/54] fix: embedding_lookup sends every request once while
 the NoC stays ready

---
 .../dlrm/modules/embedding_lookup.cpp         | 40 ++++++++++---------
 .../dlrm_two_rad/modules/embedding_lookup.cpp | 40 ++++++++++---------
 2 files changed, 42 insertions(+), 38 deletions(-)

diff --git a/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp b/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp
index a57070e..7f645e2 100644
--- a/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp
+++ b/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp
@@ -115,6 +115,26 @@ void embedding_lookup::Tick() {
     for (unsigned int ctrl_id = 0; ctrl_id < _num_channels_per_ctrl.size();
          ctrl_id++) {
       for (unsigned int c = 0; c < _num_channels_per_ctrl[ctrl_id]; c++) {
+        // Pop the FIFO if the transaction is accepted
+        unsigned int transaction_id = _id_count[ch_id].read();
+        if (aximm_req_interface[ch_id].arvalid.read() &&
+            aximm_req_interface[ch_id].arready.read()) {
+          /*if (ctrl_id == 0) {
+            std::cout << "ELU sent address "
+                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
+                      << std::endl;
+            cin.get();
+          }*/
+          _lookup_indecies_fifo[ch_id].pop();
+          _base_addresses_fifo[ch_id].pop();
+          transaction_id++;
+          _id_count[ch_id].write(transaction_id);
+          /*_debug_sent_request_counter++;
+          std::cout << module_name << ": Sent AR transaction "
+                    << _debug_sent_request_counter << " @ channel " << ch_id
+                    << "!" << std::endl;*/
+        }
+
         if (!_lookup_indecies_fifo[ch_id].empty()) {
           uint64_t lookup_index = _lookup_indecies_fifo[ch_id].front();
           uint64_t table_base_addr = _base_addresses_fifo[ch_id].front();
@@ -133,7 +153,7 @@ void embedding_lookup::Tick() {
           }*/
 
           aximm_req_interface[ch_id].araddr.write(dst_addr);
-          aximm_req_interface[ch_id].arid.write(_id_count[ch_id].read());
+          aximm_req_interface[ch_id].arid.write(transaction_id);
           aximm_req_interface[ch_id].arlen.write(0);
           aximm_req_interface[ch_id].arburst.write(0);
           aximm_req_interface[ch_id].arsize.write(0);
@@ -147,24 +167,6 @@ void embedding_lookup::Tick() {
           aximm_req_interface[ch_id].wvalid.write(false);
         }
 
-        // Pop the FIFO if the transaction is accepted
-        if (aximm_req_interface[ch_id].arvalid.read() &&
-            aximm_req_interface[ch_id].arready.read()) {
-          /*if (ctrl_id == 0) {
-            std::cout << "ELU sent address "
-                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
-                      << std::endl;
-            cin.get();
-          }*/
-          _lookup_indecies_fifo[ch_id].pop();
-          _base_addresses_fifo[ch_id].pop();
-          _id_count[ch_id].write(_id_count[ch_id].read() + 1);
-          /*_debug_sent_request_counter++;
-          std::cout << module_name << ": Sent AR transaction "
-                    << _debug_sent_request_counter << " @ channel " << ch_id
-                    << "!" << std::endl;*/
-        }
-
         // Receiving transactions from AXI-MM NoC
         if (aximm_req_interface[ch_id].rvalid.read() &&
             aximm_req_interface[ch_id].rready.read()) {
diff --git a/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp b/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp
index 4f678fa..114f43b 100644
--- a/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp
@@ -116,6 +116,26 @@ void embedding_lookup::Tick() {
     for (unsigned int ctrl_id = 0; ctrl_id < _num_channels_per_ctrl.size();
          ctrl_id++) {
       for (unsigned int c = 0; c < _num_channels_per_ctrl[ctrl_id]; c++) {
+        // Pop the FIFO if the transaction is accepted
+        unsigned int transaction_id = _id_count[ch_id].read();
+        if (aximm_req_interface[ch_id].arvalid.read() &&
+            aximm_req_interface[ch_id].arready.read()) {
+          /*if (ctrl_id == 0) {
+            std::cout << "ELU sent address "
+                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
+                      << std::endl;
+            cin.get();
+          }*/
+          _lookup_indecies_fifo[ch_id].pop();
+          _base_addresses_fifo[ch_id].pop();
+          transaction_id++;
+          _id_count[ch_id].write(transaction_id);
+          /*_debug_sent_request_counter++;
+          std::cout << module_name << ": Sent AR transaction "
+                    << _debug_sent_request_counter << " @ channel " << ch_id
+                    << "!" << std::endl;*/
+        }
+
         if (!_lookup_indecies_fifo[ch_id].empty()) {
           uint64_t lookup_index = _lookup_indecies_fifo[ch_id].front();
           uint64_t table_base_addr = _base_addresses_fifo[ch_id].front();
@@ -134,7 +154,7 @@ void embedding_lookup::Tick() {
           }*/
 
           aximm_req_interface[ch_id].araddr.write(dst_addr);
-          aximm_req_interface[ch_id].arid.write(_id_count[ch_id].read());
+          aximm_req_interface[ch_id].arid.write(transaction_id);
           aximm_req_interface[ch_id].arlen.write(0);
           aximm_req_interface[ch_id].arburst.write(0);
           aximm_req_interface[ch_id].arsize.write(0);
@@ -148,24 +168,6 @@ void embedding_lookup::Tick() {
           aximm_req_interface[ch_id].wvalid.write(false);
         }
 
-        // Pop the FIFO if the transaction is accepted
-        if (aximm_req_interface[ch_id].arvalid.read() &&
-            aximm_req_interface[ch_id].arready.read()) {
-          /*if (ctrl_id == 0) {
-            std::cout << "ELU sent address "
-                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
-                      << std::endl;
-            cin.get();
-          }*/
-          _lookup_indecies_fifo[ch_id].pop();
-          _base_addresses_fifo[ch_id].pop();
-          _id_count[ch_id].write(_id_count[ch_id].read() + 1);
-          /*_debug_sent_request_counter++;
-          std::cout << module_name << ": Sent AR transaction "
-                    << _debug_sent_request_counter << " @ channel " << ch_id
-                    << "!" << std::endl;*/
-        }
-
         // Receiving transactions from AXI-MM NoC
         if (aximm_req_interface[ch_id].rvalid.read() &&
             aximm_req_interface[ch_id].rready.read()) {
-- 
2.43.0


From 932ede50ceed0824ff78e7c26f4c0939117d032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:26 +0000
Subject: [PATCH 43/54] fix: mlp's mvm updates its output when its output FIFO
 empties

Assign was not sensitive to the empty flag, so a result equal to the
FIFO's idle output (zeros) stayed valid after it was taken: it was sent
again and the FIFO underflowed.
---
 rad-sim/example-designs/mlp/modules/mvm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rad-sim/example-designs/mlp/modules/mvm.cpp b/rad-sim/example-designs/mlp/modules/mvm.cpp
index c412915..3565ec2 100644
--- a/rad-sim/example-designs/mlp/modules/mvm.cpp
+++ b/rad-sim/example-designs/mlp/modules/mvm.cpp
@@ -182,7 +182,8 @@ mvm::mvm(const sc_module_name &name, unsigned int id_mvm, unsigned int id_layer,
             << dl_fifo_rdata_signal << dm_fifo_rdata_signal
             << dest_layer_pipeline[RF_RD_LATENCY + COMPUTE_LATENCY - 1]
             << dest_mvm_pipeline[RF_RD_LATENCY + COMPUTE_LATENCY - 1]
-            << dl_fifo_rdata_signal << dm_fifo_rdata_signal;
+            << dl_fifo_rdata_signal << dm_fifo_rdata_signal
+            << ofifo_empty_signal;
   SC_CTHREAD(Tick, clk.pos());
   reset_signal_is(rst, true);
 
-- 
2.43.0


From 54cebadf5029d9eedeba1bb6ce63dcd19bc2dbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:52 +0000
Subject: [PATCH 44/54] fix: port names that begin with a net type or contain a
 keyword are kept whole

---
 rad-sim/scripts/verilog_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rad-sim/scripts/verilog_parser.py b/rad-sim/scripts/verilog_parser.py
index ee7bfc4..b915e0a 100644
--- a/rad-sim/scripts/verilog_parser.py
+++ b/rad-sim/scripts/verilog_parser.py
@@ -9,7 +9,7 @@ from minilexer import MiniLexer
 
 '''Verilog documentation parser'''
 
-#TODO: There may exist a bug with signal names that include reserved keywords. As of presently, input, inout, output, and parameter is patched.
+#TODO: There may exist a bug with signal names that include reserved keywords. As of presently, input, inout, output, the net types, signed, endmodule, and parameter is patched.
 #TODO: The `function_start` and `function_arg` tokens are not implemented. There are bugs when parsing functions from parameters.
 
 verilog_tokens = {
@@ -21,8 +21,8 @@ verilog_tokens = {
   ],
   'module': [
     (r'parameter\s+(signed|integer|realtime|real|time)?\s*(\[[^]]+\])?', 'parameter_start', 'parameters'),
-    (r'(input|inout|output)\s+(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)?\s*(signed)?\s*(\[[^]]+\])?', 'module_port_start', 'module_port'),
-    (r'endmodule', 'end_module', '#pop'),
+    (r'\b(input|inout|output)\b\s*(?:(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)\b)?\s*(?:(signed)\b)?\s*(\[[^]]+\])?', 'module_port_start', 'module_port'),
+    (r'\bendmodule\b', 'end_module', '#pop'),
     (r'/\*', 'block_comment', 'block_comment'),
     (r'//#\s*{{(.*)}}\n', 'section_meta'),
     (r'//.*\n', None),
@@ -43,7 +43,7 @@ verilog_tokens = {
     (r'\s*\)', None, '#pop'),
   ],
   'module_port': [
-    (r'\s*(input|inout|output)\s+(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)?\s*(signed)?\s*(\[[^]]+\])?', 'module_port_start'),
+    (r'\s*\b(input|inout|output)\b\s*(?:(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)\b)?\s*(?:(signed)\b)?\s*(\[[^]]+\])?', 'module_port_start'),
     (r'\s*(\w+)\s*,?', 'port_param'),
     (r'[);]', None, '#pop'),
     (r'//#\s*{{(.*)}}\n', 'section_meta'),
-- 
2.43.0


From c142c21ac7b09ce0f6c37cca5bccf31884ef8cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:52 +0000
Subject: [PATCH 45/54] fix: words of a block comment in a port list are not
 ports

---
 rad-sim/scripts/verilog_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rad-sim/scripts/verilog_parser.py b/rad-sim/scripts/verilog_parser.py
index b915e0a..cf5d937 100644
--- a/rad-sim/scripts/verilog_parser.py
+++ b/rad-sim/scripts/verilog_parser.py
@@ -30,6 +30,7 @@ verilog_tokens = {
   'parameters': [
     (r'\s*parameter\s+(signed|integer|realtime|real|time)?\s*(\[[^]]+\])?', 'parameter_start'),
     (r'(\w+)\s*=\s*\$*(\w+)\s*\(\w+', 'function_start', 'function'),
+    (r'/\*', 'block_comment', 'block_comment'),
     (r'\s*(\w+)[^),;\/]*', 'param_item'),
     (r'\s*,', None),
     (r'//.*\n', None),
@@ -46,6 +47,7 @@ verilog_tokens = {
     (r'\s*\b(input|inout|output)\b\s*(?:(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)\b)?\s*(?:(signed)\b)?\s*(\[[^]]+\])?', 'module_port_start'),
     (r'\s*(\w+)\s*,?', 'port_param'),
     (r'[);]', None, '#pop'),
+    (r'/\*', 'block_comment', 'block_comment'),
     (r'//#\s*{{(.*)}}\n', 'section_meta'),
     (r'//.*\n', None),
   ],
-- 
2.43.0


From 30e447861f9af745f4559b2dcb92aabab6772b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:05 +0000
Subject: [PATCH 46/54] fix: widths of ports with an ascending range or several
 packed dimensions

---
 rad-sim/scripts/generate_port_mappings.py | 23 +++++++++++++++--------
 rad-sim/scripts/verilog_parser.py         |  6 +++---
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/rad-sim/scripts/generate_port_mappings.py b/rad-sim/scripts/generate_port_mappings.py
index 29ede96..ce1e0f9 100644
--- a/rad-sim/scripts/generate_port_mappings.py
+++ b/rad-sim/scripts/generate_port_mappings.py
@@ -9,7 +9,8 @@ import re
 import verilog_parser as vlog
 from pathlib import Path
 
-verilog_range_regex = "\[(\d*):(\d*)\]"
+verilog_range_regex = r"\[(\d+):(\d+)\]"
+verilog_packed_range_regex = r"(\[\d+:\d+\])+"
 verilog_axis_regex = "axis_(.*)_(.*)"
 verilog_aximm_regex = "aximm_(.*)_(.*)"
 
@@ -20,6 +21,15 @@ aximm_slave_input_ports = ["awvalid", "awid", "awaddr", "awlen", "awsize", "awbu
                            "arvalid", "arid", "araddr", "arlen", "arsize", "arburst", "aruser",
                            "rready"]
 
+# Determines the number of bits in a range, which may have several packed dimensions. Outputs None if the bounds are not literals
+def determine_range_width(port_range):
+    if not re.fullmatch(verilog_packed_range_regex, port_range):
+        return None
+    width = 1
+    for (left, right) in re.findall(verilog_range_regex, port_range):
+        width *= abs(int(left) - int(right)) + 1
+    return width
+
 # Determines the width of the port. Outputs the width if successful, "?" if failure
 def determine_port_width(port):
     if not port.data_type:
@@ -27,18 +37,15 @@ def determine_port_width(port):
     
     port_properties = port.data_type.split()
     # explicitly define test cases, default behavior if no cases match is to output ?
+    width = None
     if len(port_properties) == 1:
-        indices = re.match(verilog_range_regex, port_properties[0])
         if port_properties[0] == "reg" or port_properties[0] == "logic":
             return 1
-        elif indices and len(indices.groups()) == 2:
-            return int(indices.groups()[0]) - int(indices.groups()[1]) + 1
+        width = determine_range_width(port_properties[0])
     elif len(port_properties) == 2:
-        indices = re.match(verilog_range_regex, port_properties[1])
-        if indices and len(indices.groups()) == 2:
-            return int(indices.groups()[0]) - int(indices.groups()[1]) + 1
+        width = determine_range_width(port_properties[1])
     
-    return "?"
+    return "?" if width is None else width
 
 # RegEx pattern matching for AXI-S ports. Returns capture groups with information on the AXI-S interface name, and the AXI-S port.
 def match_axis_regex(port):
diff --git a/rad-sim/scripts/verilog_parser.py b/rad-sim/scripts/verilog_parser.py
index cf5d937..40eb0a3 100644
--- a/rad-sim/scripts/verilog_parser.py
+++ b/rad-sim/scripts/verilog_parser.py
@@ -21,7 +21,7 @@ verilog_tokens = {
   ],
   'module': [
     (r'parameter\s+(signed|integer|realtime|real|time)?\s*(\[[^]]+\])?', 'parameter_start', 'parameters'),
-    (r'\b(input|inout|output)\b\s*(?:(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)\b)?\s*(?:(signed)\b)?\s*(\[[^]]+\])?', 'module_port_start', 'module_port'),
+    (r'\b(input|inout|output)\b\s*(?:(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)\b)?\s*(?:(signed)\b)?\s*(\[[^]]+\](?:\s*\[[^]]+\])*)?', 'module_port_start', 'module_port'),
     (r'\bendmodule\b', 'end_module', '#pop'),
     (r'/\*', 'block_comment', 'block_comment'),
     (r'//#\s*{{(.*)}}\n', 'section_meta'),
@@ -44,7 +44,7 @@ verilog_tokens = {
     (r'\s*\)', None, '#pop'),
   ],
   'module_port': [
-    (r'\s*\b(input|inout|output)\b\s*(?:(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)\b)?\s*(?:(signed)\b)?\s*(\[[^]]+\])?', 'module_port_start'),
+    (r'\s*\b(input|inout|output)\b\s*(?:(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)\b)?\s*(?:(signed)\b)?\s*(\[[^]]+\](?:\s*\[[^]]+\])*)?', 'module_port_start'),
     (r'\s*(\w+)\s*,?', 'port_param'),
     (r'[);]', None, '#pop'),
     (r'/\*', 'block_comment', 'block_comment'),
@@ -188,7 +188,7 @@ def parse_verilog(text):
         new_ptype += ' ' + signed
 
       if vec_range is not None:
-        new_ptype += ' ' + vec_range
+        new_ptype += ' ' + ''.join(vec_range.split())
 
       # Complete pending items
       for i in param_items:
-- 
2.43.0


From 04810236633ea69ce103713bdf560d388a1f5b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:26 +0000
Subject: [PATCH 47/54] fix: a parameter declared after the ports does not
 change the type of the last port

---
 rad-sim/scripts/verilog_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rad-sim/scripts/verilog_parser.py b/rad-sim/scripts/verilog_parser.py
index 40eb0a3..71db432 100644
--- a/rad-sim/scripts/verilog_parser.py
+++ b/rad-sim/scripts/verilog_parser.py
@@ -129,6 +129,7 @@ def parse_verilog(text):
   saved_type = None
   mode = 'input'
   ptype = 'wire'
+  generic_type = ''
 
   metacomments = []
   parameters = []
@@ -172,10 +173,10 @@ def parse_verilog(text):
       if vec_range is not None:
         new_ptype += ' ' + vec_range
 
-      ptype = new_ptype
+      generic_type = new_ptype
 
     elif action == 'param_item':
-      generics.append(VerilogParameter(groups[0], 'in', ptype))
+      generics.append(VerilogParameter(groups[0], 'in', generic_type))
 
     elif action == 'module_port_start':
       new_mode, net_type, signed, vec_range = groups
-- 
2.43.0


From 8fd1e2a80b9667ad13883fc94a92e4a528f80a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:26 +0000
Subject: [PATCH 48/54] fix: generated wrappers take the design context that
 RADSimModule needs

---
 rad-sim/scripts/generate_wrapper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rad-sim/scripts/generate_wrapper.py b/rad-sim/scripts/generate_wrapper.py
index f9cc9de..e482744 100644
--- a/rad-sim/scripts/generate_wrapper.py
+++ b/rad-sim/scripts/generate_wrapper.py
@@ -24,7 +24,8 @@ def generate_source_wrapper(design_name, modules_folder, dataw, mappings, axis_r
     with open(modules_folder / (design_name + ".cpp"), "w") as wrapper_cpp_file:
       wrapper_cpp_file.write("#include <" + design_name + ".hpp>\n\n")
 
-      wrapper_cpp_file.write(design_name + "::" + design_name + "(const sc_module_name &name) : RADSimModule(name) {\n")
+      wrapper_cpp_file.write(design_name + "::" + design_name + "(const sc_module_name &name, RADSimDesignContext* radsim_design) : RADSimModule(name, radsim_design) {\n")
+      wrapper_cpp_file.write("\tthis->radsim_design = radsim_design;\n")
 
       wrapper_cpp_file.write("\t" + "char " + design_inst + "_name[25];\n")
       wrapper_cpp_file.write("\tstd::string " + design_inst + "_name_str = std::string(name);\n")
@@ -100,6 +101,7 @@ def generate_header_wrapper(design_name, modules_folder, mappings, axis_roles, a
       wrapper_hpp_file.write("private:\n")
       wrapper_hpp_file.write("\t" + verilated_design + "* " + design_inst + ";\n\n")
       wrapper_hpp_file.write("public:\n")
+      wrapper_hpp_file.write("\tRADSimDesignContext* radsim_design;\n")
 
       # inputs and outputs
       if not design_name in mappings:
@@ -131,7 +133,7 @@ def generate_header_wrapper(design_name, modules_folder, mappings, axis_roles, a
           else:
               wrapper_hpp_file.write("\taximm_slave_port " + aximm_interface + ";\n")
 
-      wrapper_hpp_file.write("\n\t" + design_name + "(const sc_module_name &name);\n")
+      wrapper_hpp_file.write("\n\t" + design_name + "(const sc_module_name &name, RADSimDesignContext* radsim_design);\n")
       wrapper_hpp_file.write("\t~" + design_name + "();\n\n")
 
       wrapper_hpp_file.write("\tSC_HAS_PROCESS(" + design_name + ");\n")
-- 
2.43.0


From ed7eb6492e1ec52360191b068f418398cb6b9a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:26 +0000
Subject: [PATCH 49/54] fix: generated wrappers do not overflow a fixed buffer
 with the instance name

---
 rad-sim/scripts/generate_wrapper.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rad-sim/scripts/generate_wrapper.py b/rad-sim/scripts/generate_wrapper.py
index e482744..0c0ef89 100644
--- a/rad-sim/scripts/generate_wrapper.py
+++ b/rad-sim/scripts/generate_wrapper.py
@@ -27,10 +27,8 @@ def generate_source_wrapper(design_name, modules_folder, dataw, mappings, axis_r
       wrapper_cpp_file.write(design_name + "::" + design_name + "(const sc_module_name &name, RADSimDesignContext* radsim_design) : RADSimModule(name, radsim_design) {\n")
       wrapper_cpp_file.write("\tthis->radsim_design = radsim_design;\n")
 
-      wrapper_cpp_file.write("\t" + "char " + design_inst + "_name[25];\n")
       wrapper_cpp_file.write("\tstd::string " + design_inst + "_name_str = std::string(name);\n")
-      wrapper_cpp_file.write("\tstd::strcpy(" + design_inst + "_name, " + design_inst + "_name_str.c_str());\n\n")
-      wrapper_cpp_file.write("\t" + design_inst + " = new " + verilated_design + "{" + design_inst + "_name};\n")
+      wrapper_cpp_file.write("\t" + design_inst + " = new " + verilated_design + "{" + design_inst + "_name_str.c_str()};\n")
 
       # inputs and outputs connections
       if not design_name in mappings:
-- 
2.43.0


From 0be8cc1c18b48b89322504132abb9e4a3534e356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:48 +0000
Subject: [PATCH 50/54] fix: wrappers of modules without AXI interfaces can be
 instantiated

---
 rad-sim/scripts/generate_wrapper.py | 55 ++++++++++++++---------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/rad-sim/scripts/generate_wrapper.py b/rad-sim/scripts/generate_wrapper.py
index 0c0ef89..38559cd 100644
--- a/rad-sim/scripts/generate_wrapper.py
+++ b/rad-sim/scripts/generate_wrapper.py
@@ -39,8 +39,7 @@ def generate_source_wrapper(design_name, modules_folder, dataw, mappings, axis_r
         for port in mappings[design_name]:
           wrapper_cpp_file.write("\t" + design_inst + "->" + port[2] + "(" + port[3] + ");\n")
 
-      if axis_roles != None or aximm_roles != None:
-        wrapper_cpp_file.write("\n\tthis->RegisterModuleInfo();\n")
+      wrapper_cpp_file.write("\n\tthis->RegisterModuleInfo();\n")
       wrapper_cpp_file.write("}\n\n")
 
       wrapper_cpp_file.write(design_name + "::~" + design_name + "() {\n")
@@ -48,31 +47,30 @@ def generate_source_wrapper(design_name, modules_folder, dataw, mappings, axis_r
       wrapper_cpp_file.write("\tdelete " + design_inst + ";\n")
       wrapper_cpp_file.write("}\n\n")
 
-      if axis_roles != None or aximm_roles != None:
-        wrapper_cpp_file.write("void " + design_name + "::RegisterModuleInfo() {\n")
-        wrapper_cpp_file.write("\tstd::string port_name;\n")
-        wrapper_cpp_file.write("\t_num_noc_axis_slave_ports = 0;\n")
-        wrapper_cpp_file.write("\t_num_noc_axis_master_ports = 0;\n")
-        wrapper_cpp_file.write("\t_num_noc_aximm_slave_ports = 0;\n")
-        wrapper_cpp_file.write("\t_num_noc_aximm_master_ports = 0;\n\n")
-
-        if axis_roles != None:
-          for axis_interface, axis_role in axis_roles.items():
-            wrapper_cpp_file.write("\tport_name = module_name + \"." + axis_interface + "\";\n")
-            if axis_role == "master":
-                wrapper_cpp_file.write("\tRegisterAxisMasterPort(port_name, &" + axis_interface + ", " + dataw + ", 0);\n\n")
-            else:
-                wrapper_cpp_file.write("\tRegisterAxisSlavePort(port_name, &" + axis_interface + ", " + dataw + ", 0);\n\n")
-
-        if aximm_roles != None:
-          for aximm_interface, aximm_role in aximm_roles.items():
-            wrapper_cpp_file.write("\tport_name = module_name + \"." + aximm_interface + "\";\n")
-            if aximm_role == "master":
-                wrapper_cpp_file.write("\tRegisterAximmMasterPort(port_name, &" + aximm_interface + ", " + dataw + ");\n\n")
-            else:
-                wrapper_cpp_file.write("\tRegisterAximmSlavePort(port_name, &" + aximm_interface + ", " + dataw + ");\n\n")
-        
-        wrapper_cpp_file.write("}\n")
+      wrapper_cpp_file.write("void " + design_name + "::RegisterModuleInfo() {\n")
+      wrapper_cpp_file.write("\tstd::string port_name;\n")
+      wrapper_cpp_file.write("\t_num_noc_axis_slave_ports = 0;\n")
+      wrapper_cpp_file.write("\t_num_noc_axis_master_ports = 0;\n")
+      wrapper_cpp_file.write("\t_num_noc_aximm_slave_ports = 0;\n")
+      wrapper_cpp_file.write("\t_num_noc_aximm_master_ports = 0;\n\n")
+
+      if axis_roles != None:
+        for axis_interface, axis_role in axis_roles.items():
+          wrapper_cpp_file.write("\tport_name = module_name + \"." + axis_interface + "\";\n")
+          if axis_role == "master":
+              wrapper_cpp_file.write("\tRegisterAxisMasterPort(port_name, &" + axis_interface + ", " + dataw + ", 0);\n\n")
+          else:
+              wrapper_cpp_file.write("\tRegisterAxisSlavePort(port_name, &" + axis_interface + ", " + dataw + ", 0);\n\n")
+
+      if aximm_roles != None:
+        for aximm_interface, aximm_role in aximm_roles.items():
+          wrapper_cpp_file.write("\tport_name = module_name + \"." + aximm_interface + "\";\n")
+          if aximm_role == "master":
+              wrapper_cpp_file.write("\tRegisterAximmMasterPort(port_name, &" + aximm_interface + ", " + dataw + ");\n\n")
+          else:
+              wrapper_cpp_file.write("\tRegisterAximmSlavePort(port_name, &" + aximm_interface + ", " + dataw + ");\n\n")
+      
+      wrapper_cpp_file.write("}\n")
 
 # Generates the accompanying C++ header wrapper file
 def generate_header_wrapper(design_name, modules_folder, mappings, axis_roles, aximm_roles):
@@ -135,8 +133,7 @@ def generate_header_wrapper(design_name, modules_folder, mappings, axis_roles, a
       wrapper_hpp_file.write("\t~" + design_name + "();\n\n")
 
       wrapper_hpp_file.write("\tSC_HAS_PROCESS(" + design_name + ");\n")
-      if axis_roles != None or aximm_roles != None:
-        wrapper_hpp_file.write("\tvoid RegisterModuleInfo();\n")
+      wrapper_hpp_file.write("\tvoid RegisterModuleInfo();\n")
       wrapper_hpp_file.write("};\n")
 
 # Parses the port mappings file
-- 
2.43.0


From c99064ace26daf6db218c9bd277dc3b940b5ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:48 +0000
Subject: [PATCH 51/54] fix: generate_wrapper refuses interface roles other
 than master and slave

---
 rad-sim/scripts/generate_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rad-sim/scripts/generate_wrapper.py b/rad-sim/scripts/generate_wrapper.py
index 38559cd..febf705 100644
--- a/rad-sim/scripts/generate_wrapper.py
+++ b/rad-sim/scripts/generate_wrapper.py
@@ -162,6 +162,7 @@ def read_port_mappings(port_mapping_file):
 
         # Add the parsed data to data structures to be used during wrapper generation
         (keyword, axis_role, rtl_port, axis_interface, axis_port) = components
+        if axis_role != "master" and axis_role != "slave": raise ValueError("The role of an AXI-S port must be either master or slave.")
         radsim_port = axis_interface + "." + axis_port
         mappings[current_module].append((keyword, axis_role, rtl_port, radsim_port))
         if current_module not in axis_roles:
@@ -179,6 +180,7 @@ def read_port_mappings(port_mapping_file):
 
         # Add the parsed data to data structures to be used during wrapper generation
         (keyword, aximm_role, rtl_port, aximm_interface, aximm_port) = components
+        if aximm_role != "master" and aximm_role != "slave": raise ValueError("The role of an AXI-MM port must be either master or slave.")
         radsim_port = aximm_interface + "." + aximm_port
         mappings[current_module].append((keyword, aximm_role, rtl_port, radsim_port))
         if current_module not in aximm_roles:
-- 
2.43.0


From e5ba220ca86038b5b57d411ae5486a79af1e3c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:04 +0000
Subject: [PATCH 52/54] fix: inputs of functions and tasks and words in strings
 are not ports

---
 rad-sim/scripts/verilog_parser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rad-sim/scripts/verilog_parser.py b/rad-sim/scripts/verilog_parser.py
index 71db432..9458bfc 100644
--- a/rad-sim/scripts/verilog_parser.py
+++ b/rad-sim/scripts/verilog_parser.py
@@ -23,6 +23,8 @@ verilog_tokens = {
     (r'parameter\s+(signed|integer|realtime|real|time)?\s*(\[[^]]+\])?', 'parameter_start', 'parameters'),
     (r'\b(input|inout|output)\b\s*(?:(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)\b)?\s*(?:(signed)\b)?\s*(\[[^]]+\](?:\s*\[[^]]+\])*)?', 'module_port_start', 'module_port'),
     (r'\bendmodule\b', 'end_module', '#pop'),
+    (r'\b(?:function|task)\b', None, 'subroutine'),
+    (r'"(?:\\.|[^"\\\n])*"', None),
     (r'/\*', 'block_comment', 'block_comment'),
     (r'//#\s*{{(.*)}}\n', 'section_meta'),
     (r'//.*\n', None),
@@ -52,6 +54,13 @@ verilog_tokens = {
     (r'//.*\n', None),
   ],
 
+  'subroutine': [
+    (r'\bend(?:function|task)\b', None, '#pop'),
+    (r'\bendmodule\b', 'end_module', '#pop:2'),
+    (r'/\*', 'block_comment', 'block_comment'),
+    (r'"(?:\\.|[^"\\\n])*"', None),
+    (r'//.*\n', None),
+  ],
   'block_comment': [
     (r'\*/', 'end_comment', '#pop'),
   ],
-- 
2.43.0


From ae7be37f2885ea3dd4977aec14052c1c8e094af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:27 +0000
Subject: [PATCH 53/54] fix: mlp_int8 loader FIFO names do not fit their
 25-byte buffers

---
 rad-sim/example-designs/mlp_int8/modules/inst_loader.cpp   | 2 +-
 rad-sim/example-designs/mlp_int8/modules/weight_loader.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/example-designs/mlp_int8/modules/inst_loader.cpp b/rad-sim/example-designs/mlp_int8/modules/inst_loader.cpp
index 2643641..5744ef4 100644
--- a/rad-sim/example-designs/mlp_int8/modules/inst_loader.cpp
+++ b/rad-sim/example-designs/mlp_int8/modules/inst_loader.cpp
@@ -16,7 +16,7 @@ inst_loader::inst_loader(const sc_module_name &name, RADSimDesignContext* radsim
   this->radsim_design = radsim_design;
   module_name = name;
 
-  char fifo_name[25];
+  char fifo_name[50];
   std::string fifo_name_str;
 
   fifo_name_str = "inst_loader_inst_fifo";
diff --git a/rad-sim/example-designs/mlp_int8/modules/weight_loader.cpp b/rad-sim/example-designs/mlp_int8/modules/weight_loader.cpp
index fa0fa15..43767bc 100644
--- a/rad-sim/example-designs/mlp_int8/modules/weight_loader.cpp
+++ b/rad-sim/example-designs/mlp_int8/modules/weight_loader.cpp
@@ -22,7 +22,7 @@ weight_loader::weight_loader(const sc_module_name &name, RADSimDesignContext* ra
   this->radsim_design = radsim_design;
   module_name = name;
 
-  char fifo_name[25];
+  char fifo_name[50];
   std::string fifo_name_str;
 
   fifo_name_str = "weight_loader_weight_fifo";
-- 
2.43.0


From 7b14c70b581a89b5f5a427e275820a5a7df04079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:01 +0000
Subject: [PATCH 54/54] fix: HMC crossbar compares a link's age with another
 link's number, which starves a link

---
 rad-sim/sim/dram/DRAMsim3/src/hmc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/hmc.cc b/rad-sim/sim/dram/DRAMsim3/src/hmc.cc
index 5f5c23b..3abb34f 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/hmc.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/hmc.cc
@@ -598,7 +598,7 @@ std::vector<int> HMCMemorySystem::BuildAgeQueue(std::vector<int> &age_counter) {
         if (age_counter[pos] > 0) {
             bool is_inserted = false;
             for (auto it = age_queue.begin(); it != age_queue.end(); it++) {
-                if (age_counter[pos] > *it) {
+                if (age_counter[pos] > age_counter[*it]) {
                     age_queue.insert(it, pos);
                     is_inserted = true;
                     break;
-- 
2.43.0

