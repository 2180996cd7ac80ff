"""P01-P05, P19: AXI-S and AXI-MM traffic over the real adapters and BookSim."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build as B
from vlib import axis_scen as S
from vlib.check import Check

RATIOS = [(5.0, 1.25, 1.0), (2.0, 1.25, 1.0), (3.32, 1.25, 1.0), (1.5, 1.25, 0.571), (1.0, 1.0, 1.0),
          (5.0, 5.0, 1.0), (1.25, 2.5, 1.0), (2.0, 0.8, 1.0), (1.0, 0.4, 1.0), (1.0, 1.25, 2.0)]


def axis(thorough, prop):
    q = []

    def add(name, gen, budget, flags="m", **kw):
        ports, place = gen
        q.append((name, budget + (1 if thorough else 0), flags, dict(ports=ports, place=place, **kw)))

    for i, (n, a, c) in enumerate(RATIOS):
        add("clk%d" % i, S.fan_in(4), 2 if i < 2 else 1, over=dict(clk_period=c, a_clk_period=a), node=n)
        add("clkS%d" % i, S.shared(2), 1, over=dict(clk_period=c, a_clk_period=a), node=n)
    add("fanout", S.fan_out(6), 1)
    add("shared", S.shared(3), 1)
    add("sharedT", S.shared(3, types=(3, 4)), 1)
    # ports of different widths behind one adapter (equal at the two ends of a flow)
    for i, (w, o) in enumerate([((64, 512), {}), ((512, 8), {}), ((128, 64), dict(payload_width=41))]):
        add("mixw%d" % i, S.shared(2, w), 1, over=o)
    # buffers at their smallest: credits, FIFO-full and output-buffer-full paths
    # (a packet must fit into vc_buffer_size and fifo_size flits: see known_findings.json)
    for i, (w, o) in enumerate([
            (8, dict(vc_buffer_size=2)), (8, dict(vc_buffer_size=2, a_fifo_size=2, a_obuff_size=1)), (512, dict(output_buffer_size=1)),
            (512, dict(a_fifo_size=8, a_obuff_size=1)), (128, dict(a_obuff_size=1, vc_buffer_size=3, a_fifo_size=4)),
            (128, dict(credit_delay=3, vc_buffer_size=3))]):
        add("buf%d" % i, S.fan_in(4, w), 1, over=o)
        add("bufS%d" % i, S.shared(2, w), 1, over=o)
    if prop == "P02":
        add("kfbuf", S.fan_in(2), 0, flags="mK", over=dict(vc_buffer_size=4))
    # router pipelines and allocators
    for i, o in enumerate([dict(vcs=10), dict(vc_allocator="wavefront", sw_allocator="separable_input_first"),
                           dict(vc_allocator="separable_output_first", sw_allocator="wavefront"),
                           dict(vc_allocator="pim", sw_allocator="loa", routing_delay=2, vc_alloc_delay=2),
                           dict(vc_allocator="max_size", sw_allocator="max_size", sw_alloc_delay=2, credit_delay=2),
                           dict(routing_func="xy_yx", vcs=10), dict(topology="torus", vcs=10), dict(vcs=1, num_packet_types=1)
                           ]):
        fl = "x" if "topology" in o or o.get("routing_func", "dim_order") != "dim_order" else "m"
        add("uarch%d" % i, S.fan_in(3), 1, flags=fl, over=o, opts=["inorder %d" % (o.get("vcs", 5) == 5)])
    if prop == "P01":
        add("kfvcs", S.fan_in(3), 1, flags="mK", over=dict(vcs=10))
    # topologies
    add("mesh3", S.mesh3(), 1, over=dict(dim_x=3, dim_y=3))
    add("mesh3k", S.mesh3(), 1, over=dict(dim_x=3, dim_y=2, output_buffer_size=2))
    add("torus3", S.mesh3(), 1, flags="x", over=dict(topology="torus", dim_x=3, dim_y=3, vcs=10), opts=["inorder 0"])
    add("cmesh", S.cmesh(), 1, flags="x", over=dict(type="3d", dim_x=2, dim_y=2, routing_func="dor_no_express"))
    # widths: one flit, many flits, narrow ports, several chunks per packet
    for i, (pw, w) in enumerate([(600, 512), (82, 8), (41, 128), (166, 512), (22, 64)]):
        add("wid%d" % i, S.fan_in(3, w), 1, over=dict(payload_width=pw))
        add("widS%d" % i, S.shared(2, w), 1, over=dict(payload_width=pw))
    return q


def aximm(thorough, prop):
    q = []
    d = 2 if thorough else 1

    def add(name, budget, **kw):
        kw.setdefault("inits", (0, 3))
        kw.setdefault("tgts", (1, 2))
        q.append((name, budget, "m", kw))

    ratios = [(5.0, 1.25, 1.0), (3.32, 1.25, 1.0), (2.0, 1.0, 0.571), (1.5, 1.25, 1.0), (2.0, 0.8, 1.0), (3.0, 1.0, 2.0)]
    for i, (n, a, c) in enumerate(ratios):
        for ra in (0, 1):
            add("mm%d%d" % (i, ra), d, over=dict(clk_period=c, a_clk_period=a), node=n, opts=["runahead %d" % ra])
    # adapter as fast as the module, or slower
    for i, (n, a, c) in enumerate([(5.0, 5.0, 1.0), (1.25, 2.5, 1.0), (1.0, 1.0, 1.0), (1.0, 1.25, 2.0)]):
        for k, o in enumerate([{}, dict(payload_width=600)]):
            add("mms%d%d" % (i, k), d, over=dict(clk_period=c, a_clk_period=a, **o), node=n, opts=["runahead %d" % (i % 2)])
    # write data offered before its address; several VCs per type (order is a known finding there)
    add("mmwe", d + 1, inits=(0,), tgts=(3,), over={}, opts=["wearly 1"])
    add("mmwe2", d, inits=(0, 3), tgts=(1, 2), over=dict(clk_period=1.0, a_clk_period=1.25), node=2.0, opts=["wearly 1", "runahead 1"])
    add("mm1x1", d + 1, inits=(0,), tgts=(3,), over={}, nops=3, opts=["runahead 1"])
    add("mm1x1b", d + 1, inits=(0,), tgts=(3,), over=dict(a_fifo_size=8, a_obuff_size=1), nops=3)
    add("mm2x1", d, inits=(0, 3), tgts=(1,), over={}, nops=4)
    for i, pw in enumerate([71, 33, 166, 600]):
        add("mmw%d" % i, d, inits=(0,), tgts=(3, 1), over=dict(payload_width=pw, a_fifo_size=32, vc_buffer_size=32))
    for i, dw in enumerate([64, 128]):
        add("mmd%d" % i, d, over={}, dataw=dw)
    for i, o in enumerate([dict(a_fifo_size=8), dict(sw_allocator="wavefront"), dict(routing_delay=2, vc_alloc_delay=2, sw_alloc_delay=2)]):
        add("mmb%d" % i, d, over=o)
    # several VCs per packet type, one flit per packet (order: see known_findings.json)
    add("mmv", d, over=dict(vcs=10, payload_width=600), opts=["inorder 0"])
    add("mmv2", d, over=dict(vcs=15, payload_width=600, vc_buffer_size=1, a_fifo_size=2), opts=["inorder 0"])
    if prop == "P03":
        add("kfmmvcs", d, over=dict(vcs=10))
        q[-1] = q[-1][:2] + ("mK",) + q[-1][3:]
    return q


def main():
    prop = sys.argv[1]
    c = Check(prop, sys.argv[2] if len(sys.argv) > 2 else None)
    only = sys.argv[3].split(",") if len(sys.argv) > 3 else None
    nj = B.Ninja()
    parts = []
    for harness, gen, make, props in (("axis_noc", axis, S.make, ("P01", "P02", "P05", "P19")),
                                      ("aximm_noc", aximm, S.aximm, ("P03", "P04", "P05", "P19"))):
        if prop not in props:
            continue
        scen, exes = [], {}
        for name, budget, flags, kw in gen(c.thorough, prop):
            if only and name not in only:
                continue
            v, root = make(name, **kw)
            scen.append((v, root, budget, flags))
            if v not in exes:
                exes[v] = nj.exe(harness, [B.HARNESS + "/%s.cpp" % harness, B.HARNESS + "/sim_globals.cpp"], v,
                                 ["radsim", "noc", "booksim"])
        if scen:
            parts.append((exes, scen))
    nj.run()
    for exes, scen in parts:
        c.run_scenarios(exes, scen, ["prop=" + prop])
    c.finish()


if __name__ == "__main__":
    main()
