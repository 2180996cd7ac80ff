# ---------------------------------------------------------------- NoC, AXI-S
prop("P01", "AXI-streaming transfers cross the NoC exactly once, intact and in order",
     "Every AXI-streaming transfer that a module hands to a NoC port is presented exactly once at the port its destination "
     "fields name, with the same data, user, last, destination and id values, and never at any other port. "
     "Transfers from one master port to one slave port arrive in the order in which they were accepted. "
     "This holds for any sender/receiver stall pattern, clock-period ratio, topology and set of ports sharing an adapter.",
     ["schedules", "inputs", "configurations"],
     "all stall/destination schedules of senders and receivers within a deviation bound, over a set of clock ratios, topologies, widths, buffer depths, port sharing",
     "The design tests run one fixed configuration with always-ready consumers and compare only final results; none stalls receivers, changes clock ratios or checks individual transfers.",
     ["sim/noc/axis_master_adapter.cpp", "sim/noc/axis_slave_adapter.cpp", "sim/noc/radsim_noc.cpp", "sim/noc/noc_utils.cpp", "sim/noc/sc_flit.cpp"],
     ["packetization and injection @ sim/noc/axis_slave_adapter.cpp", "ejection, depacketization and per-port output @ sim/noc/axis_master_adapter.cpp",
      "per-node credit return @ sim/noc/radsim_noc.cpp"],
     check="noc.py P01", technique="stateless exhaustive exploration of the implementation (fork-based, deviation-bounded)",
     note="Every environment schedule with at most 2 (quick) / 3 (thorough) deviations from always-ready, on the real adapters, radsim_noc and BookSim, over the listed configurations. Assumes SystemC's scheduler.",
     observe=["master/slave port signals of user modules"])
prop("P02", "AXI-streaming outputs hold under back-pressure and traffic always drains",
     "Once a NoC output port presents a valid transfer it keeps it valid and unchanged until the receiver accepts it. "
     "Whenever every receiver eventually becomes ready, every pending and accepted transfer is eventually delivered: no stall pattern deadlocks the network or an adapter. "
     "One port whose receiver is slow only delays traffic; it never causes loss.",
     ["schedules", "configurations"],
     "all stall schedules within a deviation bound, including long receiver stalls that fill every buffer between sender and receiver, over clock ratios and buffer depths",
     "The tests never stall a receiver long enough to fill a VC, FIFO or output buffer.",
     ["sim/noc/axis_master_adapter.cpp", "sim/noc/axis_slave_adapter.cpp", "sim/noc/radsim_noc.cpp", "sim/noc/booksim/buffer_state.cpp", "sim/noc/booksim/routers/iq_router.cpp"],
     ["output buffer and handshake @ sim/noc/axis_master_adapter.cpp", "VC credit check before injection @ sim/noc/axis_slave_adapter.cpp",
      "credit return per node @ sim/noc/radsim_noc.cpp"],
     check="noc.py P02", technique="stateless exhaustive exploration of the implementation (fork-based, deviation-bounded)",
     note="As P01, with a bounded-response progress monitor (3000 node cycles without any transfer although all receivers are ready) and a handshake monitor on every slave port.")
prop("P03", "AXI memory-mapped requests and responses cross the NoC exactly once and intact",
     "Every AXI memory-mapped read-address, write-address, write-data, read-data and write-response transfer accepted by the NoC is presented exactly once, with every field the channel carries unchanged. "
     "Requests go to the port of the node selected by the most significant address bits, write data follows its own write address, and responses return to the port of the node named in their user field. "
     "Transfers of one channel between the same two ports keep their order.",
     ["schedules", "inputs", "configurations"],
     "all interleavings of channel requests and all stall schedules of initiators and targets within a deviation bound, over clock ratios and link widths",
     "Only the two dlrm designs use the memory-mapped ports, in one configuration, reads only, with targets that never refuse a transfer; burst fields and write paths are not checked.",
     ["sim/noc/aximm_master_adapter.cpp", "sim/noc/aximm_slave_adapter.cpp", "sim/noc/aximm_interface.hpp", "sim/noc/radsim_noc.cpp"],
     ["request packetization and routing by address @ sim/noc/aximm_slave_adapter.cpp", "request output and response packetization @ sim/noc/aximm_master_adapter.cpp"],
     check="noc.py P03", technique="stateless exhaustive exploration of the implementation (fork-based, deviation-bounded)",
     note="Every stall schedule of all five channels of initiators and targets with at most 1 (quick) / 2 (thorough) deviations, with and without write data run-ahead; every field of every transfer compared. Domain: one initiator per target for writes, or writes of one initiator at a time (AXI without WID cannot interleave write data).")
prop("P04", "AXI memory-mapped traffic always drains under back-pressure",
     "Whenever every initiator and target eventually becomes ready, every accepted memory-mapped request and response is eventually delivered, whatever the order in which the five channels stall. "
     "A valid transfer presented by the NoC stays valid and unchanged until it is accepted. "
     "Responses can make progress while requests are blocked.",
     ["schedules", "configurations"],
     "all stall schedules of the five channels within a deviation bound, including long stalls that fill every buffer",
     "The tests never stall a memory-mapped channel.",
     ["sim/noc/aximm_master_adapter.cpp", "sim/noc/aximm_slave_adapter.cpp"],
     ["valid/ready handling @ sim/noc/aximm_master_adapter.cpp", "per-type virtual channels @ sim/noc/noc_utils.cpp"],
     check="noc.py P04", technique="stateless exhaustive exploration of the implementation (fork-based, deviation-bounded)",
     note="As P03, with stalls long enough to fill every buffer, a bounded-response progress monitor and a hold monitor on every output channel.")
prop("P05", "NoC flow control conserves buffer credits",
     "A router or adapter never sends a flit without a free downstream buffer slot, so no buffer overflows, and every slot taken is returned exactly once. "
     "After all traffic has been consumed every node and every router again sees all of its credits and an idle network. ",
     ["schedules", "configurations"],
     "all injection/consumption schedules within the bound, over clock ratios, VC counts, buffer depths and allocators",
     "A leaked or duplicated credit shows only after long runs or heavy contention; the tests compare outputs of light traffic.",
     ["sim/noc/radsim_noc.cpp", "sim/noc/axis_slave_adapter.cpp", "sim/noc/axis_master_adapter.cpp", "sim/noc/booksim/buffer_state.cpp", "sim/noc/booksim/routers/iq_router.cpp", "sim/noc/booksim/credit.cpp"],
     ["credit generation on ejection @ sim/noc/radsim_noc.cpp", "credit accounting @ sim/noc/booksim/buffer_state.cpp", "router credit return @ sim/noc/booksim/routers/iq_router.cpp"],
     check="noc.py P05", technique="stateless exhaustive exploration of the implementation (fork-based, deviation-bounded)",
     note="Credit counters of every node and router are compared with their idle values after every phase of every explored schedule.")
prop("P19", "NoC telemetry reports what actually happened",
     "For every delivered transaction there is exactly one trace, with its true source and destination node, interface type and data width. "
     "Its time stamps are the times at which the transaction was accepted, packetized, injected, ejected, reassembled and delivered, hence non-decreasing; its latency is delivery minus acceptance, and its hop count is the number of routers on its path. "
     "The written statistics files contain exactly these values.",
     ["schedules", "configurations"],
     "all schedules within the bound over clock ratios and node pairs",
     "No test looks at the telemetry or statistics output.",
     ["sim/radsim_telemetry.cpp", "sim/radsim_utils.cpp", "sim/noc/axis_slave_adapter.cpp", "sim/noc/axis_master_adapter.cpp"],
     ["record functions @ sim/radsim_telemetry.cpp", "call sites @ sim/noc/axis_master_adapter.cpp"],
     check="noc.py P19", technique="stateless exhaustive exploration of the implementation (fork-based, deviation-bounded)",
     note="Each trace of each explored execution is compared with the harness's own observation of acceptance and delivery on the port signals.")
# ------------------------------------------------------------------ BookSim
prop("P06", "Every topology and routing function delivers every packet without deadlock",
     "On every topology and routing function that the configuration accepts, a packet from any node to any node reaches exactly its destination, using only virtual channels of its own packet type, whatever the random and adaptive choices. "
     "Dimension-ordered, adaptive minimal and shortest-path routing take a shortest path, express links never lengthen it, and the other functions stay within a fixed bound. "
     "No set of packets can block each other forever in a mesh, torus or concentrated mesh.",
     ["configurations", "inputs", "schedules"],
     "all source/destination pairs, packet types, random outcomes, credit states and VC choices, over topologies, sizes, VC counts and network files",
     "The tests use one mesh size per design and one routing function.",
     ["sim/noc/booksim/routefunc.cpp", "sim/noc/booksim/networks/kncube.cpp", "sim/noc/booksim/networks/cmesh.cpp", "sim/noc/booksim/networks/anynet.cpp"],
     ["routing functions @ sim/noc/booksim/routefunc.cpp", "channel wiring @ sim/noc/booksim/networks/kncube.cpp", "network file and tables @ sim/noc/booksim/networks/anynet.cpp"],
     check="route.py", technique="explicit-state exploration of the implementation (all packet states of the real network), deadlock by fixpoint on the reached graph",
     note="Real Network objects and routing functions; every reachable (channel, VC, packet state) for every packet with every random outcome and credit comparison, over 21 function/topology pairs, 1-5 routers per dimension, 1-5 packet types, 1-3x the minimal VC count, and every connected anynet graph of up to 3 (thorough 4) routers over a latency alphabet in three file forms. Deadlock: greatest fixpoint of blockable channel/VCs is empty (wormhole; ejection always drains). Deadlock of arbitrary anynet graphs is not claimed.")
prop("P07", "Switch and VC allocators grant conflict-free matchings and starve nobody",
     "In every cycle each allocator grants only requested input/output pairs, at most one grant per input and per output, and grants something whenever there is a request; the matching is of maximum size for max_size and maximal for wavefront and for islip, select and pim with as many iterations as ports. "
     "Adding and removing requests leaves exactly the requests that were added and not removed. "
     "With constant requests every request is granted again and again by the islip, select, separable and wavefront allocators (every input by max_size), and the outcome depends on nothing but earlier requests and grants.",
     ["histories", "configurations"],
     "all request matrices (with priorities) of small shapes from every reachable internal state of each allocator",
     "Allocators are only exercised by light example traffic.",
     ["sim/noc/booksim/allocators/islip.cpp", "sim/noc/booksim/allocators/separable_input_first.cpp", "sim/noc/booksim/allocators/wavefront.cpp", "sim/noc/booksim/allocators/allocator.cpp",
      "sim/noc/booksim/allocators/selalloc.cpp", "sim/noc/booksim/allocators/maxsize.cpp", "sim/noc/booksim/allocators/pim.cpp", "sim/noc/booksim/allocators/loa.cpp"],
     ["allocators @ sim/noc/booksim/allocators/allocator.cpp"],
     check="bsalloc.py P07", technique="explicit-state exploration of the implementation (states identified by probe responses)",
     note="Breadth-first search over all reachable states of the real allocator objects, every request matrix of the shape (2x2, 2x3, 3x2, 3x3) with one or two priorities from every state; every random choice of pim enumerated; fairness decided on the cycles of the reached graph. Shapes larger than 3x3 are not explored.")
prop("P08", "Arbiters pick a requester by priority and share fairly",
     "An arbiter with pending requests always selects one of them, of the highest requested priority, and reports its id, label and priority; without requests it selects none. "
     "Among persistent equal-priority requesters every one is served once before any is served twice by the round-robin and matrix arbiters, and within a bounded number of selections by the tree arbiters. "
     "A selection that is not confirmed leaves the order unchanged.",
     ["histories"],
     "all request histories over all reachable arbiter states, small sizes",
     "No unit test exists for arbiters.",
     ["sim/noc/booksim/arbiters/roundrobin_arb.cpp", "sim/noc/booksim/arbiters/matrix_arb.cpp", "sim/noc/booksim/arbiters/tree_arb.cpp", "sim/noc/booksim/arbiters/prio_arb.cpp"],
     ["arbiters @ sim/noc/booksim/arbiters/arbiter.cpp"],
     check="bsalloc.py P08", technique="explicit-state exploration of the implementation (states identified by probe responses)",
     note="Breadth-first search over all reachable states of the real arbiter objects of 1-5 inputs (trees up to 2x3), every request set with two priorities from every state; fairness decided on the reached graph.")
# --------------------------------------------------------------------- DRAM
prop("P09", "The memory controller returns the data last written",
     "A read beat returns the value of the most recent write to that word of that channel that was acknowledged before the read was issued, the initial content if there was none, and never data of another word or channel. "
     "All beats of a burst read or write consecutive words.",
     ["histories", "schedules", "inputs"],
     "all short sequences of reads and writes over colliding addresses and channels, with stalls",
     "The design tests only read preloaded contents.",
     ["sim/dram/mem_controller.cpp"],
     ["address mapping and contents @ sim/dram/mem_controller.cpp", "callbacks @ sim/dram/mem_controller.cpp"],
     check="mem.py P09", technique="stateless exhaustive exploration of the implementation (fork-based)", note="Every sequence of 3 (quick) / 4 (thorough) read/write bursts over colliding and distinct addresses of two channels, with every placement of response stalls within the bound, against an independent memory model.")
prop("P10", "The memory controller answers every request exactly once, in order",
     "Each accepted read burst yields exactly its number of read beats with only the last one marked last, and each accepted write burst exactly one write response; each answer carries the return address given with its request. "
     "Answers of a channel come in the order of its requests, and none is lost or duplicated whatever the stalls of the requester.",
     ["histories", "schedules"],
     "all short sequences of bursts over channels with response stalls within a bound",
     "The design tests use single-beat reads with an always-ready requester.",
     ["sim/dram/mem_controller.cpp"],
     ["request and response queues @ sim/dram/mem_controller.cpp"],
     check="mem.py P10", technique="stateless exhaustive exploration of the implementation (fork-based)", note="Every sequence as in P09, with write data before or after its address, every placement of response stalls within the bound, small queues and a progress monitor.")
prop("P11", "DRAM command streams respect the device's protocol and timing",
     "For every request sequence the DRAM model issues only commands legal in the bank's state (read/write only to the open row, activate only to a closed bank, refresh only when idle) and never closer together than the device's timing parameters allow, including the four-activate window.",
     ["histories", "configurations"],
     "all request sequences up to a bound over banks/rows/ranks for several devices",
     "One end-to-end example test checks nothing about commands.",
     ["sim/dram/DRAMsim3/src/timing.cc", "sim/dram/DRAMsim3/src/bankstate.cc", "sim/dram/DRAMsim3/src/channel_state.cc", "sim/dram/DRAMsim3/src/command_queue.cc"],
     ["timing tables @ sim/dram/DRAMsim3/src/timing.cc", "bank state machine @ sim/dram/DRAMsim3/src/bankstate.cc"],
     check="dram.py P11", technique="stateless exhaustive exploration of the implementation (fork-based)", note="Every request sequence of 3-5 transactions over row hits, row and bank conflicts, bank groups, ranks and channels with every gap pattern, repeated, around refreshes, for several devices (HMC included), page, queue and refresh policies; every pair of issued commands checked against an independent timing and state model built from the device file.")
prop("P12", "Every DRAM transaction completes exactly once and refreshes are never starved",
     "Every accepted DRAM transaction is completed by exactly one callback with its own address, on the read callback if it was a read and the write callback otherwise. "
     "Under any load every rank or bank is refreshed at the configured rate within a bounded postponement, and no link of an HMC is passed over for as long as the load lasts.",
     ["histories", "configurations"],
     "all request sequences up to a bound, several devices, row-buffer and refresh policies",
     "No test counts callbacks or refreshes under load.",
     ["sim/dram/DRAMsim3/src/controller.cc", "sim/dram/DRAMsim3/src/refresh.cc", "sim/dram/DRAMsim3/src/dram_system.cc"],
     ["transaction queues @ sim/dram/DRAMsim3/src/controller.cc", "refresh scheduler @ sim/dram/DRAMsim3/src/refresh.cc"],
     check="dram.py P12", technique="stateless exhaustive exploration of the implementation (fork-based)", note="As P11, plus sustained load over several refresh intervals; exactly-once callback monitor, bounded-response progress monitor and refresh-rate monitor per rank or bank.")
prop("P13", "DRAM address mapping is one-to-one and in range",
     "For every shipped device configuration, distinct word addresses within the device's capacity map to distinct channel/rank/bank-group/bank/row/column locations within the device's bounds, and controller and DRAM model agree on the channel.",
     ["inputs", "configurations"],
     "all shipped device files and every word address of each device; for the controller's translation every window of 11 (18) address bits, all carry boundaries, up to three bits set or clear",
     "No test maps more than a few addresses of one device.",
     ["sim/dram/DRAMsim3/src/configuration.cc", "sim/dram/DRAMsim3/src/dram_system.cc", "sim/dram/mem_controller.cpp"],
     ["address fields @ sim/dram/DRAMsim3/src/configuration.cc", "controller-side translation @ sim/dram/mem_controller.cpp"],
     check="addrmap.py", technique="explicit-state exhaustive enumeration of the implementation's address space (bitmap of locations)",
     note="Every word address of every distinct device geometry (thorough: of every device file) through the real Config::AddressMapping and GetChannel, against an independent reading of the device file; the controller's AddressMapping/ChannelFromAddr over the windows stated (thorough: additionally every word of the devices up to 2 GB).")
# ---------------------------------------------------------------- multi-RAD
prop("P14", "The inter-RAD network delivers once, in order, at the configured latency",
     "A transfer accepted from one RAD is delivered exactly once to the RAD its destination names, with its contents intact, in order per source and destination RAD, and never earlier than the configured latency (exactly at it, plus one output register, when its queue is free). "
     "Accepted transfers are never dropped, whatever the back-pressure and traffic from other RADs, and each RAD stays within its configured bandwidth and gets it in full while the network has room.",
     ["schedules", "configurations"],
     "all injection and stall schedules within a bound for 2-3 RADs over latencies, bandwidths and FIFO depths",
     "One two-RAD design runs one schedule.",
     ["sim/radsim_inter_rad.cpp", "sim/portal.cpp"],
     ["FIFO-and-counter network @ sim/radsim_inter_rad.cpp"],
     check="multirad.py P14", technique="stateless exhaustive schedule exploration of the implementation (fork-based explorer, bounded deviations)",
     note="2-3 RADs on the real RADSimInterRad and portals; all injection/destination/stall schedules with up to 1-2 (thorough 2-3) deviations over a grid of latency, bandwidth and queue depth.")
prop("P15", "A transfer addressed to another RAD reaches the named module there",
     "A streaming transfer whose destination names another RAD is carried by the local portal, the inter-RAD network and the remote portal to the node named as the remote node, exactly once, in order, with its data and user fields unchanged.",
     ["schedules", "configurations"],
     "all sender/receiver stall schedules within the bound on two- and three-RAD systems whose portals are clocked at the simulation driver period",
     "One two-RAD design, one schedule.",
     ["sim/portal.cpp", "sim/radsim_inter_rad.cpp", "sim/noc/axis_slave_adapter.cpp", "sim/radsim_cluster.cpp"],
     ["portal FIFOs @ sim/portal.cpp", "portal redirection @ sim/noc/axis_slave_adapter.cpp"],
     check="multirad.py P15", technique="stateless exhaustive schedule exploration of the implementation (fork-based explorer, bounded deviations)",
     note="Complete RADs (modules, NoC, adapters, portal) joined by the real inter-RAD network; all schedules with 1 (thorough 2) deviations over clock ratios, widths, buffer sizes and placements. Known finding remote-interface.")
# --------------------------------------------------------- design and config
prop("P16", "Module placement and clocks are applied exactly as written",
     "Every module port ends up attached to the NoC and node its placement line names, with the clock periods its clock line names, and the queries for its destination id, interface id and base address identify that port uniquely. "
     "This holds for every order and form of lines (whole module or single port), for modules that share a node and for several NoCs of different sizes. "
     "Files with a missing, unknown or duplicate port, an AXI-S port on an AXI-MM node, two AXI-MM modules on a node, or different clocks on a shared node are rejected.",
     ["inputs", "configurations"],
     "all small placement/clock files: modules, ports, nodes, NoCs, line forms and orders",
     "Each design has one fixed placement file.",
     ["sim/design_context.cpp", "sim/radsim_module.cpp", "sim/noc/radsim_noc.cpp"],
     ["placement and clock parser @ sim/design_context.cpp", "adapter creation @ sim/noc/radsim_noc.cpp"],
     check="placement.py P16", technique="stateless exhaustive exploration of the implementation (fork-based)",
     note="Every placement/clock file of the bounded space elaborated by the real parser, NoC and adapters; every pair of ports probed by a transfer addressed with the queried destination, so node, NoC, interface id, clocks and base address are judged by what arrives where and when.")
prop("P17", "The configuration script produces exactly the configured system",
     "For every accepted configuration the generated constants, simulator knobs and network files describe exactly the requested system per RAD: sizes, widths, counts, clock periods and topology, with defaults only where nothing was given. "
     "Derived widths can represent every node, virtual channel, packet type and field of the configuration, and the generated main program creates each RAD's design on that RAD. "
     "Unknown parameters, topologies and configuration names, virtual channels that do not divide among the packet types, and clusters without exactly one configuration per RAD are rejected.",
     ["configurations"],
     "all combinations of at most 2 (thorough 3) deviations from a default configuration over a per-parameter value alphabet, one to three RADs (and 9 and 17 sections), one or two NoCs, section orders",
     "The tests use six fixed configuration files and check nothing but that the design builds and runs.",
     ["config.py"],
     ["parsing and defaults @ config.py", "generators @ config.py"],
     check="cfggen.py P17", technique="exhaustive enumeration of a bounded configuration space on the implementation",
     note="Every configuration of the space goes through the real config.py; the header is compiled and its constants and bit fields printed, knobs and network files are read by the simulator's own parsers, every distinct main program is linked with stub designs and run. Oracle: an independent reading of the configuration.")
prop("P18", "Simulator knobs read back the values that were written",
     "Every knob written by the configuration script, or through the knob interface, is read back by the simulator with the value last written, its type, index and RAD. "
     "Unknown knobs and queries of a knob never written, of another type, beyond the vector's length or beyond the RADs are reported, never answered with another knob's value.",
     ["configurations", "inputs", "histories"],
     "all histories of 3 (thorough 4) writes over two keys, six types, shared and two RADs; all configurations with at most 1 (thorough 2) deviations",
     "The tests read a handful of fixed knobs.",
     ["sim/radsim_config.cpp", "config.py"],
     ["knob store @ sim/radsim_config.cpp", "knob parser @ sim/radsim_config.cpp"],
     check="cfggen.py P18", technique="exhaustive enumeration of write histories and configurations on the implementation",
     note="The real RADSimConfig after every history, against a map; every knob file of the configuration space read back by the real parser with every wrong-type, wrong-RAD and out-of-range query tried in a forked child.")
prop("P20", "Example designs compute the documented result under any timing",
     "The FIFOs, adder, multiplier, matrix-vector engines, loaders, dispatchers, collectors, embedding lookup and feature interaction of the example designs (add, mult, mlp, mlp_int8, dlrm, dlrm_two_rad) produce exactly the documented result, once and in order, for every timing of their streaming inputs and outputs. A FIFO never loses, duplicates or reorders entries and reports empty, full and almost-full truthfully. A driver reports failure if and only if an output differs from the expected one.",
     ["schedules", "inputs", "operation sequences"],
     "all stall schedules within the deviation bound of each module, all FIFO operation sequences up to the depth, all mvm programs of two instructions, all single wrong outputs",
     "The tests run one timing and one input set only.",
     ["example-designs/mlp/modules/mvm.cpp", "example-designs/mlp/modules/fifo.cpp", "example-designs/mlp_int8/modules/sysc_mvm.cpp", "example-designs/mlp_int8/modules/datapath.cpp", "example-designs/add/modules/adder.cpp", "example-designs/mult/modules/mult.cpp", "example-designs/dlrm/modules/embedding_lookup.cpp", "example-designs/dlrm/modules/custom_feature_interaction.cpp"],
     ["module FSMs @ example-designs/mlp/modules/mvm.cpp"],
     check="designs.py P20", technique="stateless exhaustive exploration of the implementation (fork-based, deviation-bounded)",
     note="The real modules under a controlled environment that decides, at every cycle, whether each input is offered and each output accepted; reference function of the documented operation.")
prop("P21", "RTL wrapper generation maps every port to its role, width and signal once",
     "For every Verilog module description, generate_port_mappings.py lists each declared port exactly once with its direction and its width (or '?' and a warning when the width is not literal), and lists the ports named axis_{name}_{signal} / aximm_{name}_{signal} under their interface with the role (master or slave) their directions imply. The wrapper that generate_wrapper.py makes of such a map compiles against the simulator, connects each RTL port to the matching signal of the right type exactly once and registers each interface in its role with the given data width. Malformed port maps are refused.",
     ["inputs", "programs"],
     "all module descriptions of a bounded grammar: declaration forms, sequences of declarations, comments at all positions, module bodies, interface signals in all orders; all single-line defects of a port map",
     "The unit tests use two hand-made module objects and never run the parser, the wrapper's code or the compiler.",
     ["scripts/generate_port_mappings.py", "scripts/generate_wrapper.py", "scripts/verilog_parser.py"],
     ["parser @ scripts/verilog_parser.py", "role detection @ scripts/generate_port_mappings.py", "wrapper text @ scripts/generate_wrapper.py"],
     check="wrapgen.py", technique="exhaustive enumeration of module descriptions through the implementation, with the generated code executed",
     note="The real command lines; the grammar's meaning was cross-checked with Verilator; generated wrappers are compiled against the simulator and run with recording stand-ins for the RTL models.")
prop("P22", "The simulation ends when every RAD is done and reports failure as failure",
     "A cluster simulation keeps running until every RAD has signalled completion, and the process exit status is non-zero if and only if some RAD reported an error or the simulation could not complete.",
     ["schedules", "configurations"],
     "all orders of completion and error reports for 1-3 RADs",
     "The designs finish once, successfully.",
     ["sim/radsim_cluster.cpp", "sim/main.cpp", "sim/design_system.hpp"],
     ["completion flags @ sim/radsim_cluster.cpp"],
     check="endcode.py", technique="exhaustive enumeration of completion and failure histories on the implementation",
     note="The main.cpp that config.py generates for 1-3 RADs, linked with a design whose RADs complete and report failures at every combination of four times each.")
prop("P23", "Simulations are reproducible: results depend on the inputs only",
     "Running the same design with the same configuration and inputs twice gives the same result: every transfer happens in the same cycle with the same contents, every DRAM command is issued in the same cycle, and the statistics written are the same. In particular nothing depends on what memory held before, on where objects are allocated, on variables or members that were never set, or on the time of day.",
     ["environments", "schedules", "configurations"],
     "all executions (choice sequences within the deviation bound) of scenarios of every part of the simulator, in each of a set of environments that differ in heap contents, heap addresses, initial values of unset variables, process and clock",
     "Tests run in one environment, whose fresh memory is mostly zero, and compare no cycle counts between runs.",
     ["sim/noc/booksim/vc.cpp", "sim/noc/booksim/routers/iq_router.cpp", "sim/noc/booksim/flit.cpp", "sim/noc/axis_slave_adapter.cpp", "sim/noc/axis_master_adapter.cpp",
      "sim/noc/aximm_slave_adapter.cpp", "sim/dram/DRAMsim3/src/controller.cc", "sim/dram/DRAMsim3/src/command_queue.cc", "sim/dram/mem_controller.cpp", "sim/radsim_inter_rad.cpp"],
     ["initial state of routers and virtual channels @ sim/noc/booksim/vc.cpp", "initial state of DRAM controllers @ sim/dram/DRAMsim3/src/controller.cc"],
     check="repro.py P23", technique="stateless exhaustive exploration of the implementation (fork-based), repeated per environment and compared execution by execution",
     note="The real code under a preloaded allocator that decides address order and contents of the heap, built twice with automatic variables set to zeros and to a pattern; the observation hash (events with their times, telemetry and DRAM statistics files) of every execution must agree.")
