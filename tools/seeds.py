"""Planted bugs: edits of original lines, the demonstration that tells them apart."""
N = "sim/noc/"
D = "sim/dram/DRAMsim3/src/"
SEEDS = {}


def seed(name, prop, needs, breaks, edits, case=None, demo=None, files=None):
    SEEDS[name] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits)
    if case:
        SEEDS[name]["case"] = case
    else:
        SEEDS[name].update(demo=demo, files=files or {})


def axis(spec, place, clk=("a 0 0", "b 0 0"), **kw):
    return dict(dict(src="axis_demo.cpp", libs=["booksim", "noc", "radsim"], place=list(place), clk_lines=list(clk), spec=list(spec)), **kw)


def aximm(spec, place, **kw):
    clk = [p.split()[0] + " 0 0" for p in place]
    return dict(dict(src="aximm_demo.cpp", libs=["radsim", "noc", "booksim"], place=list(place), clk_lines=clk, spec=list(spec)), **kw)


def mem(spec, queue=64, cfg="DDR4_8Gb_x16_2400", period=3.32):
    return dict(src="mem_demo.cpp", libs=["dram", "radsim", "noc", "booksim", "dramsim3"], place=[], clk_lines=[], clks=[period],
                dram=dict(num_controllers=1, clk_periods=[period], queue_sizes=[queue], config_files=[cfg]), spec=["period %g" % period] + spec)


def dram(spec):
    return dict(src="dram_demo.cpp", libs=["dramsim3"], flags=["-DCMD_TRACE"], spec=spec)


SHARED = ["s a.i0 512 0 0,2", "s a.i1 512 1 0,3", "s b.i0 512 0 1", "s b.i1 512 1 0,0,9",
          "m a.o0 512 0 24 b.i0,b.i1 0", "m a.o1 512 1 24 b.i1,b.i0 0", "m b.o0 512 0 24 a.i0,a.i1 0", "m b.o1 512 1 24 a.i1,a.i0 0"]
PL2 = ["a 0 0 axis", "b 0 3 axis"]

# ------------------------------------------------------------------ P01
seed("P01-stale-output-fifo", "P01", "two slave ports behind one adapter, packets that fit into one flit and arrive on a VC other than the one tried first", "a packet is presented at the wrong port of its adapter",
     [(N + "axis_master_adapter.cpp", """        if (!_ejection_afifos[highest_priority_fifo_id].empty()) {
          dest_output_fifo = _ejection_afifos[highest_priority_fifo_id]
                                 .front()
                                 ._dest_interface.to_uint();
          fifo_has""", """        if (!_ejection_afifos[highest_priority_fifo_id].empty()) {
          fifo_has""")], axis(["period 5"] + SHARED, PL2, noc=dict(payload_width=[600])))
seed("P01-width-of-first-port", "P01", "two master ports of different width behind one adapter", "transfers of the wider port lose their upper data bits",
     [(N + "axis_slave_adapter.cpp", "unsigned int num_flits = _num_flits_per_packet[used_interface_id];",
       "unsigned int num_flits = _num_flits_per_packet[0];")],
     axis(["period 5", "s a.i0 64 0 0", "s b.i0 512 0 0", "s b.i1 64 0 0", "m a.o0 64 0 8 b.i1 0", "m a.o1 512 0 8 b.i0 0", "m b.o0 64 0 8 a.i0 0"], PL2))
seed("P01-one-accept-per-cycle", "P01", "two slave ports of one adapter accepting in the same cycle", "the second port's transfer is presented again",
     [(N + "axis_master_adapter.cpp", """          _output_afifos[interface_id].pop();
          _output_chunk[interface_id] = 0;
        }
      }
""", """          _output_afifos[interface_id].pop();
          _output_chunk[interface_id] = 0;
          accepted = true;
        }
      }
"""), (N + "axis_master_adapter.cpp", """      if (axis_interfaces[interface_id].tready.read() &&
          axis_interfaces[interface_id].tvalid.read()) {
        sc_packet output""", """      if (!accepted && axis_interfaces[interface_id].tready.read() &&
          axis_interfaces[interface_id].tvalid.read()) {
        sc_packet output"""), (N + "axis_master_adapter.cpp", """  while (true) {
    for (unsigned int interface_id = 0; interface_id < _num_axis_interfaces;
         interface_id++) {
      if (""", """  while (true) {
    bool accepted = false;
    for (unsigned int interface_id = 0; interface_id < _num_axis_interfaces;
         interface_id++) {
      if (""")][::-1], axis(["period 5"] + SHARED, PL2))

# ------------------------------------------------------------------ P02
seed("P02-credit-needs-free-output", "P02", "vcs busy and output buffer exactly one short of full", "a router with a full output buffer wedges",
     [(N + "booksim/routers/iq_router.cpp", "_output_buffer[dest_output].size()>=(size_t)(_output_buffer_size))) {",
       "_output_buffer[dest_output].size()>=(size_t)(_output_buffer_size - 1))) {")],
     axis(["period 5"] + SHARED, PL2, noc=dict(output_buffer_size=[1])))

# ------------------------------------------------------------------ P03 / P04 / P05
MM = ["init i0 6", "init i1 6", "tgt t0", "tgt t1"]
MMP = ["i0 0 0 aximm", "i1 0 3 aximm", "t0 0 1 aximm", "t1 0 2 aximm"]
seed("P05-credit-by-queue", "P05", "several VCs per packet type", "credits of ejected memory-mapped requests go to another VC",
     [(N + "aximm_master_adapter.cpp", "make_pair(_node_id, processed_flit._vc_id.to_uint()));", "make_pair(_node_id, (int)highest_priority_fifo_id));")],
     aximm(["period 5"] + MM, MMP, noc=dict(vcs=[10])))
seed("P03-stale-bresp", "P03", "a write response whose resp differs from that of the read data captured before it", "the write response carries the resp of the read",
     [(N + "aximm_master_adapter.cpp", """      _i_resp.write(aximm_interface.bresp.read());
      _i_user""", """      _i_user""")], aximm(["period 5"] + MM, MMP))
seed("P04-early-data-blocks-address", "P04", "write data offered before its address, with a read address taken last",
     "write data waits for its address and the address for the data",
     [(N + "aximm_slave_adapter.cpp", """      _awready = !_injection_afifo_full && aximm_interface.awvalid.read();
      flag = _awready;""", """      _awready = !_injection_afifo_full && aximm_interface.awvalid.read() && !aximm_interface.wvalid.read();
      flag = _awready;""")], aximm(["period 5", "wearly 1", "awdelay 30"] + MM, MMP))
seed("P03-data-without-address", "P03", "write data offered before its address was taken, with a read address taken last", "the data is accepted and dropped",
     [(N + "aximm_slave_adapter.cpp", """      flag = _awready;
      _wready = !_injection_afifo_full && !flag &&
                aximm_interface.wvalid.read() && _got_aw.read();
      flag |= _wready;""", """      flag = _awready;
      _wready = !_injection_afifo_full && !flag &&
                aximm_interface.wvalid.read();
      flag |= _wready;""")],
     aximm(["period 5", "wearly 1", "awdelay 30"] + MM, MMP))
# ------------------------------------------------------------------ P09 / P10
seed("P10-write-popped-while-full", "P10", "more writes than the DRAM model takes at once", "a write is dropped and never answered",
     [("sim/dram/mem_controller.cpp", """          if (_dramsim->WillAcceptTransaction(write_addr, true)) {
            _dramsim->AddTransaction(write_addr, true);
            _write_data_queue[ch_id].pop();
            _write_address_queue[ch_id].pop();
            _outstanding_write_requests[ch_id].push(
                std::make_tuple(resp_addr, write_data, last));
          }
        }
        // Adjust""", """          if (_dramsim->WillAcceptTransaction(write_addr, true)) {
            _dramsim->AddTransaction(write_addr, true);
            _outstanding_write_requests[ch_id].push(
                std::make_tuple(resp_addr, write_data, last));
          }
          _write_data_queue[ch_id].pop();
          _write_address_queue[ch_id].pop();
        }
        // Adjust""")], mem(["op W 0 %d 24 0" % (512 * k) for k in range(6)] + ["op R 0 %d 24 1" % (512 * k) for k in range(6)]))
seed("P09-bank-mask", "P09", "words that differ only in their row", "rows alias: a read returns another word's data",
     [("sim/dram/mem_controller.cpp", """field_values["ro"] = working_addr & ((1 << _field_widths["ro"]) - 1);""",
       """field_values["ro"] = working_addr & ((1 << (_field_widths["ro"] - 1)) - 1);""")],
     mem(["op W 0 0 1 0", "op W 0 %d 1 0" % (128 * 4 * 32768), "op R 0 0 1 1", "op R 0 %d 1 1" % (128 * 4 * 32768)]))

# ------------------------------------------------------------------ P11 / P12
seed("P11-faw-off-by-one", "P11", "five activates of one rank within the four-activate window", "tFAW is violated",
     [(D + "channel_state.cc", "four_aw_[rank].size() >= 4) {", "four_aw_[rank].size() > 4) {")],
     dram(["ini DDR4_8Gb_x16_2400", "repeat 4"] + ["r 0 0 %d %d 3 0" % (b % 2, b // 2) for b in range(8)]))
seed("P11-close-page-wtr", "P11", "close-page policy, a write then a read of another bank of the bank group", "tWTR_L is violated",
     [(D + "timing.cc", """    other_banks_same_bankgroup[static_cast<int>(CommandType::WRITE_PRECHARGE)] =
        std::vector<std::pair<CommandType, int> >{
            {CommandType::READ, write_to_read_l},
            {CommandType::WRITE, write_to_write_l},
            {CommandType::READ_PRECHARGE, write_to_read_l},""", """    other_banks_same_bankgroup[static_cast<int>(CommandType::WRITE_PRECHARGE)] =
        std::vector<std::pair<CommandType, int> >{
            {CommandType::READ, write_to_read_l},
            {CommandType::WRITE, write_to_write_l},
            {CommandType::READ_PRECHARGE, write_to_read_s},""")],
     dram(["ini DDR4_8Gb_x16_2400 row_buf_policy=CLOSE_PAGE unified_queue=True", "repeat 20", "w 0 0 0 0 5 0", "r 0 0 0 1 5 0"]))
seed("P11-sref-exit-refb", "P11", "self-refresh and per-bank refresh together, or a read-with-precharge right before a refresh",
     "a refresh follows a read with auto-precharge before the precharge has finished",
     [(D + "timing.cc", """            {CommandType::ACTIVATE, readp_to_act},
            {CommandType::REFRESH, read_to_activate},
            {CommandType::REFRESH_BANK, read_to_activate},""", """            {CommandType::ACTIVATE, readp_to_act},
            {CommandType::REFRESH, read_to_activate},
            {CommandType::REFRESH_BANK, read_to_precharge},""")],
     dram(["ini DDR4_8Gb_x16_2400 row_buf_policy=CLOSE_PAGE refresh_policy=BANK_LEVEL_STAGGERED tREFIb=200 tRFCb=120 tRAS=26", "repeat 600"] +
          ["r 0 0 %d %d 3 0" % (b % 2, b // 2) for b in range(8)]))
seed("P12-bank-wrap", "P12", "per-bank refresh on a device with fewer bank groups than banks per group", "some banks are never refreshed",
     [(D + "refresh.cc", "next_bank_ = (next_bank_ + 1) % config_.banks_per_group;", "next_bank_ = (next_bank_ + 1) % config_.bankgroups;")],
     dram(["ini DDR4_8Gb_x16_2400 refresh_policy=BANK_LEVEL_STAGGERED tREFIb=200 tRFCb=120", "run 20000", "repeat 100000", "r 0 0 0 0 5 0", "gap 20"]))
seed("P12-rank-queues", "P12", "two ranks with per-bank queues and rank-level refresh under load", "the refreshing rank's queues keep issuing",
     [(D + "command_queue.cc", "if (i / config_.banks == ref.Rank()) {", "if (i / config_.banks_per_group == ref.Rank()) {")],
     dram(["ini DDR4_8Gb_x16_2400 channel_size=16384 tREFI=1500", "run 9000", "repeat 100000", "r 0 0 0 0 7 1", "r 0 1 1 1 9 2", "w 0 1 0 1 9 2", "r 0 1 1 0 3 2"]))

# ------------------------------------------------------------------ P06 / P07 / P08
BS = N + "booksim/"


def bs(*spec):
    return dict(src="bs_demo.cpp", libs=["booksim", "noc", "radsim"], place=[], clk_lines=[], spec=list(spec))


seed("P06-xy-yx-shared-vcs", "P06", "mesh with xy_yx routing, YX packets on the XY packets' VCs", "packets can wait for each other in a cycle",
     [(BS + "routefunc.cpp", """      out_port = dor_next_mesh( r->GetID(), f->dest, false );
      vcEnd -= available_vcs;
    } else {
      out_port = dor_next_mesh( r->GetID(), f->dest, true );
      vcBegin += available_vcs;""", """      out_port = dor_next_mesh( r->GetID(), f->dest, false );
      vcEnd -= available_vcs - 1;
    } else {
      out_port = dor_next_mesh( r->GetID(), f->dest, true );
      vcBegin += available_vcs;""")],
     bs("net topology=mesh routing_function=xy_yx k=3 num_vcs=4 types=1", "walk 60 cdg"))
seed("P06-anynet-reverse-latency", "P06", "a file network whose links are slower in one direction", "packets take a path that is longer than the shortest one",
     [(BS + "networks/anynet.cpp", "int new_dist = dist[min_cand] + i->second.second;", "int new_dist = dist[min_cand] + router_list[1][i->first][min_cand].second;")],
     bs("net topology=anynet routing_function=min k=1 num_vcs=2 types=1 file=router_0_node_0_router_1_5_router_2_1/router_1_node_1_router_0_1_router_2_1/router_2_node_2_router_0_1_router_1_1",
        "lat 0 1 2", "lat 1 0 1", "lat 2 0 1"))
seed("P06-valiant-phase-turn", "P06", "valiant torus routing, the intermediate node in the same ring as the destination", "the second phase continues in the ring without a fresh dateline VC: packets can wait for each other in a cycle",
     [(BS + "routefunc.cpp", """    if ( ( phase == 0 ) && ( r->GetID( ) == f->intm ) ) {
      phase = 1; // Go to phase 1
      in_channel = 2*gN; // ensures correct vc selection at the beginning of phase 2
    }
  
    int ring_part = f->ph & 1; // kept while continuing in the same ring
    dor_next_torus( r->GetID( ), (phase == 0) ? f->intm : f->dest, in_channel,
		    &out_port, &ring_part, false );

    f->ph = 2 * phase + ring_part;

    // at the destination router, we don't need to separate VCs by phase, etc.
    if((phase == 0) || (r->GetID() != f->dest)) {

      int const ring""", """    if ( ( phase == 0 ) && ( r->GetID( ) == f->intm ) ) {
      phase = 1; // Go to phase 1
    }
  
    int ring_part = f->ph & 1; // kept while continuing in the same ring
    dor_next_torus( r->GetID( ), (phase == 0) ? f->intm : f->dest, in_channel,
		    &out_port, &ring_part, false );

    f->ph = 2 * phase + ring_part;

    // at the destination router, we don't need to separate VCs by phase, etc.
    if((phase == 0) || (r->GetID() != f->dest)) {

      int const ring""")],
     bs("net topology=torus routing_function=valiant k=4 num_vcs=4 types=1", "walk 300 cdg"))
seed("P07-islip-pointer-modulus", "P07", "more inputs than outputs", "the inputs above the number of outputs starve",
     [(BS + "allocators/islip.cpp", "_gptrs[output] = ( input + 1 ) % _inputs;", "_gptrs[output] = ( input + 1 ) % _outputs;")],
     bs("alloc islip 4 2", "0>0 1>0 2>0 3>0 x 12 each in", "alloc islip 3 3", "0>0 1>0 2>0 0>1 1>2 x 12 each in"))
seed("P07-wavefront-priority-pair", "P07", "wavefront allocator, a request whose input and output priorities differ", "the request is never granted",
     [(BS + "allocators/wavefront.cpp", "_priorities.insert(make_pair(out_pri, in_pri));", "_priorities.insert(make_pair(in_pri, out_pri));")],
     bs("alloc wavefront 3 3", "0>0:1/2 1>1:1/2 x 3 each in"))
seed("P08-tree-updates-all", "P08", "tree arbiter whose groups hold several requesters", "a requester of a group that keeps losing starves",
     [(BS + "arbiters/tree_arb.cpp", "    _group_arbiters[last_winner]->UpdateState();\n", "    for(int i = 0; i < (int)_group_arbiters.size(); ++i) {\n      _group_arbiters[i]->UpdateState();\n    }\n")],
     bs("arb tree(2,round_robin) 4", *["r0 r1 r2 r3 = %d!" % i for i in (0, 2, 1, 3, 0, 2, 1, 3)]))
seed("P08-matrix-stale-request", "P08", "matrix arbiter, a cycle without requests after one with a request", "the arbiter selects an input that does not request",
     [(BS + "arbiters/matrix_arb.cpp", """void MatrixArbiter::Clear()
{
  _last_req = -1;
  Arbiter::Clear();""", """void MatrixArbiter::Clear()
{
  if ( _num_reqs > 1 )
    _last_req = -1;
  Arbiter::Clear();""")],
     bs("arb matrix 3", "r1 = 1!", "= -1"))
seed("P08-rr-pointer", "P08", "round-robin arbiter with some inputs idle", "the input that follows the idle ones gets more than its share",
     [(BS + "arbiters/roundrobin_arb.cpp", "_pointer = ( _selected + 1 ) % _size ;", "_pointer = ( _pointer + 1 ) % _size ;")],
     bs("arb round_robin 4", *["r0 r3 = %d!" % (i % 2 * 3) for i in range(8)]))

# ------------------------------------------------------------------ P13
seed("P13-address-32bit", "P13", "a word address whose byte address needs more than 32 bits", "addresses above 4 GB alias with low ones",
     [(D + "configuration.cc", """Address Config::AddressMapping(uint64_t hex_addr) const {
  hex_addr >>= shift_bits;
""", """Address Config::AddressMapping(uint64_t hex_addr) const {
  hex_addr = static_cast<uint32_t>(hex_addr) >> shift_bits;
""")], dict(src="map_demo.cpp", libs=["dramsim3"], flags=[], spec=["DDR4_8Gb_x16_2400", "DDR3_4Gb_x8_1600", "HBM2_8Gb_x128"]))
seed("P13-rank-of-bankgroup", "P13", "a device with several bank groups and several ranks", "words of the second rank alias with words of the first, and accesses never reach it",
     [("sim/dram/mem_controller.cpp", """  field_values["bg"] = working_addr & ((1 << _field_widths["bg"]) - 1);
  working_addr >>= _field_widths["bg"];
""", """  field_values["bg"] = working_addr & ((1 << _field_widths["bg"]) - 1);
""")], mem(["op W 0 0 1 0", "op W 0 %d 1 0" % (1 << 26), "op R 0 0 1 1", "op R 0 %d 1 1" % (1 << 26)]))
seed("P13-column-bits", "P13", "GDDR and HBM devices", "the DRAM uses only half of the columns, words alias",
     [(D + "configuration.cc", "  int actual_col_bits = LogBase2(columns) - col_low_bits;", "  int actual_col_bits = LogBase2(IsHBM() ? columns / 2 : columns) - col_low_bits;")],
     dict(src="map_demo.cpp", libs=["dramsim3"], flags=[], spec=["DDR4_8Gb_x16_2400", "DDR3_4Gb_x8_1600", "HBM2_8Gb_x128"]))

# ------------------------------------------------------------------ the seeds below run one scenario of a check
def captured(module, f, *a, **kw):
    """the files of a scenario, as module.f builds them"""
    import os, sys, types
    sys.path.insert(0, "/verif")
    from vlib import build as B
    m = types.ModuleType(module)
    src = open("/verif/checks/%s.py" % module).read()
    assert src.rstrip().endswith("main()")
    m.__file__ = "/verif/checks/%s.py" % module
    exec(compile(src, module, "exec"), m.__dict__)
    got, old = {}, (B.variant, B.write_root, os.symlink)
    try:
        B.variant = lambda cfg, tag="": (got.update({"example-designs/vtest/config.yml": B.to_yaml(cfg)}), ("v", "/nonexistent"))[1]
        B.write_root = lambda r, files: got.update(files)
        os.symlink = lambda *x: None
        fn = getattr(m, f) if isinstance(f, str) else f(m)
        fn(*a, **kw)
    finally:
        B.variant, B.write_root, os.symlink = old
    return got


def multirad(prop, fn, *a, **kw):
    return dict(src=["multirad.cpp", "sim_globals.cpp"], hdr=["hutil.hpp", "explore.hpp"], libs=["radsim", "noc", "booksim"],
                files=captured("multirad", fn, *a, **kw), args=[["prop=" + prop, "scen=@W@:1"]])


def config(**kw):
    sys_path()
    from vlib import build as B
    return {"example-designs/vtest/config.yml": B.to_yaml(B.merged(**kw))}


def sys_path():
    import sys
    sys.path.insert(0, "/verif")


def design(name, harness, defs, args):
    import yaml
    sys_path()
    from vlib import build as B
    cfg = yaml.safe_load(open("/repo/rad-sim/example-designs/%s/config.yml" % name))
    for sec in cfg.values():
        if "design" in sec:
            sec["design"].update(name="vtest", noc_placement=["vtest.place"])
            sec["design"].setdefault("clk_periods", [5.0])
    d = "example-designs/" + name
    return dict(src=[harness, "sim_globals.cpp"], hdr=["hutil.hpp", "explore.hpp", "design_env.hpp"], libs=["radsim", "noc", "booksim"],
                files={"example-designs/vtest/config.yml": B.to_yaml(cfg)}, flags=[defs] if defs else [], incs=[d, d + "/modules"],
                repo_srcs=[d + "/modules/*.cpp", d + "/*.cpp"], args=args)


seed("P14-latency-youngest", "P14", "two transfers waiting for the same RAD and a third behind them",
     "a transfer leaves the inter-RAD network before its latency has passed",
     [("sim/radsim_inter_rad.cpp", "fifos_latency_counters[i].erase(fifos_latency_counters[i].begin()); //to reset counter, remove first elem",
       "fifos_latency_counters[i].pop_back(); //to reset counter, remove one elem")],
     multirad("P14", "direct", "d", 2, 5, 1, 1, 1000))
seed("P14-closed-window-stays-open", "P14", "a bandwidth below one transfer per cycle, a RAD whose transfer waits for a full queue when the window closes",
     "a RAD gets more than the configured bandwidth",
     [("sim/radsim_inter_rad.cpp", """                all_axis_slave_ports[i]->tready.write(true);
            }
            else {
                all_axis_slave_ports[i]->tready.write(false);
            }
""", """                all_axis_slave_ports[i]->tready.write(true);
            }
            else if (all_axis_slave_ports[i]->tvalid.read()) {
                all_axis_slave_ports[i]->tready.write(false);
            }
""")], multirad("P14", "direct", "d", 2, 1, 1, 4, 1000))
seed("P15-portal-pops-unready", "P15", "a portal whose NoC adapter is not ready when a transfer from another RAD waits", "the transfer is lost on its way to the module",
     [("sim/portal.cpp", "if (axis_portal_master_interface.tvalid.read() && axis_portal_master_interface.tready.read()) { // && test_ready_toggle) { ",
       "if (axis_portal_master_interface.tvalid.read()) {")],
     multirad("P15", lambda m: lambda: m.root("d", 2, ["noc", "net 1 1 1 1000", "s a.i", "s b.i", "m a.o 6 *:b.i,1:b.i"], None,
                                              ["a 0 0 axis", "b 0 3 axis", "portal_inst 0 1 axis"], ["a", "b", "portal_inst"])))
seed("P22-last-rad-decides", "P22", "several RADs, the one with the highest number done first", "the simulation ends while the other RADs still run",
     [("sim/radsim_cluster.cpp", """        if (!(all_rads[rad_id]->is_rad_done())) {
            return true;
        }
    }
    return false;""", """        if (rad_id == num_rads - 1) {
            return !(all_rads[rad_id]->is_rad_done());
        }
    }
    return false;""")],
     dict(src=["endcode.cpp"], hdr=["hutil.hpp", "explore.hpp", "vtest_system.hpp"], libs=["radsim", "noc", "booksim"], files=config(rads=2),
          generated_main=True, args=[["rads=2"]]))
seed("P18-keeps-first-shared", "P18", "a shared integer knob that is written twice", "the first value is read back",
     [("sim/radsim_config.cpp", "  _int_knobs_shared[key] = val;", "  _int_knobs_shared.insert({key, val});")],
     dict(src=["knob_demo.cpp"], hdr=[], libs=["radsim", "noc", "booksim"], files=config(), args=[["@W@"]]))
seed("P19-injection-of-tail", "P19", "a transfer of several flits, stalls between its flits", "the injection time in the trace is that of a later flit",
     [("sim/noc/axis_slave_adapter.cpp", "        if (booksim_flit->head)\n          NoCTransactionTelemetry::RecordTransactionHeadInjection(",
       "        if (booksim_flit->tail)\n          NoCTransactionTelemetry::RecordTransactionHeadInjection(")],
     dict(src=["axis_noc.cpp", "sim_globals.cpp"], hdr=["hutil.hpp", "explore.hpp", "noc_flits.hpp"], libs=["radsim", "noc", "booksim"],
          files=captured("noc", lambda m: lambda: m.S.make("d", over={}, ports=m.S.fan_in(4)[0], place=m.S.fan_in(4)[1])), args=[["prop=P19", "scen=@W@:1:m"]]))
seed("P20-ofifo-headroom", "P20", "the receiver of a matrix-vector engine stalls for as long as its output FIFO takes to fill",
     "results in the pipeline overflow the output FIFO",
     [("example-designs/mlp/modules/mvm.cpp", """      new fifo<sc_int<32>>(fifo_name, FIFO_SIZE, LANES,
                           FIFO_SIZE - COMPUTE_LATENCY - RF_RD_LATENCY - 4, 0);""",
       """      new fifo<sc_int<32>>(fifo_name, FIFO_SIZE, LANES, FIFO_SIZE - 4, 0);""")],
     design("mlp", "ex_nn.cpp", "-DDESIGN_MLP", [["scen=@W@:0:mlong0"]]))

PY = '#!/bin/sh\nexec python3 "$(dirname "$0")/demo.py"\n'
WRAP = '''import os, subprocess, sys, tempfile
repo = os.getcwd()
w = tempfile.mkdtemp(prefix="demo")
os.makedirs(w + "/d/modules/rtl")
open(w + "/d/modules/rtl/m.v", "w").write(%r)
r = subprocess.run([sys.executable, "-B", repo + "/rad-sim/scripts/generate_port_mappings.py", w + "/d", "m.v", "--overwrite"], stdout=subprocess.DEVNULL)
got = [l for l in open(w + "/d/modules/rtl/port.map").read().splitlines() if l]
want = %r
print("\\n".join(got))
sys.exit(r.returncode != 0 or got != want)
'''
seed("P21-phantom-ports", "P21", "a file with several modules of different ports, then one without ports of its own name", "the map of a module lists ports of the module before it",
     [("scripts/verilog_parser.py", """      ports = collections.OrderedDict()
      param_items = []
      sections = []
      port_param_index = 0
""", """      ports = collections.OrderedDict()
      sections = []
      port_param_index = 0
""")], demo=PY, files={"demo.py": WRAP % ("module a (input x, output [3:0] y);\nendmodule\nmodule b (output z, input [7:0] u);\nendmodule\n",
                                          ["module a", "input 1 x x", "output 4 y y", "module b", "output 1 z z", "input 8 u u"])})
seed("P21-role-of-responses", "P21", "a memory-mapped interface whose first port is a read response", "the interface gets the opposite role",
     [("scripts/generate_port_mappings.py", '                           "rready"]', '                           "rready", "rvalid", "rdata", "rlast"]')],
     demo=PY, files={"demo.py": WRAP % ("module a (output aximm_m_rvalid, input aximm_m_rready, input aximm_m_arvalid);\nendmodule\n",
                                       ["module a", "aximm slave aximm_m_rvalid aximm_m rvalid", "aximm slave aximm_m_rready aximm_m rready",
                                        "aximm slave aximm_m_arvalid aximm_m arvalid"])})
CFG = '''import os, shutil, subprocess, sys, tempfile
repo = os.getcwd()
w = tempfile.mkdtemp(prefix="demo")
for d in ("sim/noc", "bin", "example-designs/x", "example-designs/y"):
    os.makedirs(w + "/" + d)
for n in "xy":
    open(w + "/example-designs/" + n + "/config.yml", "w").write(%r)
open(w + "/bin/cmake", "w").write("#!/bin/sh\\nexit 0\\n")
os.chmod(w + "/bin/cmake", 0o755)
shutil.copy(repo + "/rad-sim/config.py", w)
r = subprocess.run([sys.executable, "config.py", "x", "y"], cwd=w, env=dict(os.environ, PATH=w + "/bin:" + os.environ["PATH"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
knobs = [l.strip() for l in open(w + "/sim/radsim_knobs")] if r.returncode == 0 else [r.stdout.decode()[-300:]]
print("\\n".join(knobs))
sys.exit(not all(k in knobs for k in %r))
'''
CL = "cluster:\n  sim_driver_period: 5.0\n  telemetry_log_verbosity: 0\n  telemetry_traces: []\n  num_rads: 2\n  cluster_configs: [%s]\n"
seed("P17-knobs-in-file-order", "P17", "a cluster that assigns its configurations to the RADs in another order than the file has them",
     "a RAD gets the knobs of another configuration",
     [("config.py", """        curr_config_num = config_names.index(curr_config_name)
        for param in radsim_knobs[curr_config_num]:""", """        curr_config_num = config_id if len(config_names) > config_id else config_names.index(curr_config_name)
        for param in radsim_knobs[curr_config_num]:""")],
     demo=PY, files={"demo.py": CFG % ("config one:\n  design:\n    name: x\n    clk_periods: [5.0]\n    noc_placement: [x.place]\nconfig two:\n  design:\n    name: y\n"
                                      "    clk_periods: [2.0]\n    noc_placement: [y.place]\n" + CL % "two, one",
                                      ["design_name 0 y", "design_name 1 x", "design_clk_periods 0 2.0", "design_clk_periods 1 5.0"])})
seed("P17-shared-section-first", "P17", "two configurations and a shared section before them in the file", "only one of the configurations gets the shared parameters",
     [("config.py", "for i in range(0, num_configs): #use num_configs from command line in case NoC sections are earlier in yaml file",
       "for i in range(0, max(1, config_counter)):")],
     demo=PY, files={"demo.py": CFG % ("noc:\n  vcs: [10]\n  num_packet_types: [5]\nconfig one:\n  design:\n    name: x\n    clk_periods: [5.0]\n    noc_placement: [x.place]\n"
                                      "config two:\n  design:\n    name: y\n    clk_periods: [2.0]\n    noc_placement: [y.place]\n" + CL % "one, two",
                                      ["noc_vcs 0 10", "noc_vcs 1 10"])})
SEEDS = {k: v for k, v in SEEDS.items() if v}

# ------------------------------------------------------------------ P23
DIRTY = [dict(DEMO_DIRTY=k) for k in "012"]
seed("P23-vc-priority-unset", "P23", "routers built on memory that held something else before (a design that freed memory)",
     "the priority of a virtual channel starts at whatever was in memory, so switch allocation differs from run to run",
     [(BS + "vc.cpp", "_state(idle), _out_port(-1), _out_vc(-1), _pri(0), _watched(false), ", "_state(idle), _out_port(-1), _out_vc(-1), _watched(false), ")],
     axis(SHARED, PL2, envs=DIRTY))
seed("P23-drain-counter-unset", "P23", "a DRAM controller built on memory that held something else before",
     "the write-drain counter starts at whatever was in memory, so the first writes are scheduled differently or never",
     [(D + "controller.cc", """      last_trans_clk_(0),
      write_draining_(0) {""", """      last_trans_clk_(0) {""")],
     dict(dram(["ini DDR4_8Gb_x16_2400", "run 6000", "repeat 60", "W 0 0 0 0 5 0", "r 0 0 1 0 5 0", "w 0 0 0 1 6 0", "R 0 0 0 0 5 9"]), envs=DIRTY))

# ------------------------------------------------------------------ P16
def nocs(n, **kw):
    return dict(type=["2d"] * n, num_nocs=n, clk_period=[1.0] * n, payload_width=[82] * n, topology=["mesh"] * n, dim_x=[2] * n, dim_y=[2] * n,
                routing_func=["dim_order"] * n, vcs=[5] * n, vc_buffer_size=[8] * n, output_buffer_size=[8] * n, num_packet_types=[5] * n,
                router_uarch=["iq"] * n, vc_allocator=["islip"] * n, sw_allocator=["islip"] * n, credit_delay=[1] * n, routing_delay=[1] * n,
                vc_alloc_delay=[1] * n, sw_alloc_delay=[1] * n, **kw)


def adaps(n, clks):
    return dict(clk_period=clks, fifo_size=[16] * n, obuff_size=[2] * n, in_arbiter=["fixed_rr"] * n, out_arbiter=["priority_rr"] * n, vc_mapping=["direct"] * n)


seed("P16-bits-of-three-nocs", "P16", "three NoCs and an AXI-MM target on the third one", "the base address of the port names the next node",
     [("sim/design_context.cpp", "int noc_bits = (int)ceil(log2(num_nocs));", "int noc_bits = (int)log2(num_nocs);")],
     aximm(["period 5"] + MM, ["i0 2 0 aximm", "i1 2 3 aximm", "t0 2 1 aximm", "t1 2 2 aximm"], noc=nocs(3), noc_adapters=adaps(3, [1.25])))
seed("P16-id-by-line", "P16", "port-by-port placement lines that name an output before an input of the same node", "an input is given the interface id of another port",
     [("sim/design_context.cpp", """          std::get<2>(_port_placement[port_name]) = master_port_id;""",
       """          std::get<2>(_port_placement[port_name]) = port_id;""")],
     axis(["period 5"] + SHARED, ["a.i0 0 0 axis", "a.o0 0 0 axis", "a.i1 0 0 axis", "a.o1 0 0 axis", "b 0 3 axis"], noc=dict(payload_width=[600])))

# ------------------------------------------------------------------ P20, mlp_int8
I8 = "example-designs/mlp_int8/modules/"
seed("P20-int8-output-headroom", "P20", "the receiver of an int8 matrix-vector engine stalls for as long as its output FIFO takes to fill",
     "results in the datapath overflow the output FIFO", [(I8 + "sysc_mvm.cpp", "(fifo_name, FIFOD, FIFOD - DATAPATH_DELAY - 4);", "(fifo_name, FIFOD, FIFOD - 4);")],
     design("mlp_int8", "ex_int8.cpp", "", [["scen=@W@:0:mlong0"]]))
seed("P20-int8-address-sensitivity", "P20", "two weight words of equal content for consecutive addresses of one register file", "the second word is sent to the address of the first",
     [(I8 + "weight_loader.cpp", "            << rf_addr_fifo_empty << rf_addr_fifo_odata << rf_addr_fifo_almost_full \n",
       "            << rf_addr_fifo_empty << rf_addr_fifo_almost_full \n")],
     design("mlp_int8", "ex_int8.cpp", "", [["scen=@W@:1:wload4"]]))

seed("P12-hmc-age-of-rest", "P12", "more requests in one cycle burst than an HMC has links, and nothing after them", "a request behind another one on its link is never forwarded",
     [(D + "hmc.cc", """            if (link_req_queues_[src_link].empty()) {
                link_age_counter_[src_link] = 0;
            } else {
                link_age_counter_[src_link] = 1;
            }
""", """            link_age_counter_[src_link] = 0;
""")], dram(["ini HMC_2GB_4Lx16", "run 3000", "repeat 24", "w 0 0 0 0 5 0", "R 1 0 0 0 5 0", "w 4 0 0 0 5 0"]))
seed("P12-hmc-full-quad", "P12", "a crossbar queue of one entry and two links that send to the same quadrant in one cycle", "responses of an HMC vault stay in the crossbar",
     [(D + "hmc.cc", """            if (quad_resp_queues_[src_quad].size() == 0) {
                quad_age_counter_[src_quad] = 0;
            } else {
                quad_age_counter_[src_quad] = 1;
            }""", """            quad_age_counter_[src_quad] = quad_resp_queues_[src_quad].size() > 1;""")],
     dram(["ini HMC_2GB_4Lx16", "run 3000", "repeat 24", "R 0 0 0 0 5 0", "R 1 0 0 0 5 0", "R 2 0 0 0 5 0", "R 3 0 0 0 5 0"]))
