"""P16: placement and clock files, each written, parsed and probed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build as B
from vlib import axis_scen as S
from vlib.check import Check

A = "mod a i:S j:S o:M"
A1 = "mod a i:S o:M"
Bm = "mod b i:S o:M p:M"
B1 = "mod b i:S o:M"
C, D, E = "mod c q:m", "mod d r:s", "mod e r:s"


def root(name, nodes, mods, over, mode="free", opts=()):
    cfg = B.merged(over, clks=(10.0, 20.0))
    vdir, r = B.variant(cfg, name)
    B.write_root(r, {"spec": "\n".join(["nodes " + " ".join(map(str, nodes)), "mode " + mode] + list(mods) + list(opts)) + "\n"})
    link = B.BUILD + "/%s/s_%s" % (B.repo_key(), name)
    if os.path.islink(link):
        os.unlink(link)
    os.symlink(r, link)
    return vdir, link


def one(**kw):
    o = S.noc(dict(dict(payload_width=600, clk_period=2.5), **kw))
    o["noc_adapters"]["clk_period"] = [1.25, 320.0]
    return o


def two(d=((2, 2), (2, 2))):
    n = len(d)
    return {"noc": dict(type=["2d"] * n, num_nocs=n, clk_period=[2.5] * n, payload_width=[600] * n, topology=["mesh"] * n,
                        dim_x=[x for x, _ in d], dim_y=[y for _, y in d], routing_func=["dim_order"] * n, vcs=[5] * n,
                        vc_buffer_size=[8] * n, output_buffer_size=[8] * n, num_packet_types=[5] * n, router_uarch=["iq"] * n,
                        vc_allocator=["islip"] * n, sw_allocator=["islip"] * n, credit_delay=[1] * n, routing_delay=[1] * n,
                        vc_alloc_delay=[1] * n, sw_alloc_delay=[1] * n),
            "noc_adapters": dict(clk_period=[1.25, 320.0], fifo_size=[16] * n, obuff_size=[2] * n, in_arbiter=["fixed_rr"] * n,
                                 out_arbiter=["priority_rr"] * n, vc_mapping=["direct"] * n)}


def scenarios(thorough):
    t = 1 if thorough else 0
    q = []
    o = one()
    # one NoC
    q.append((root("pl_axis", [4], [A, Bm], o, "dev", ["clocks"]), 2 + t))
    q.append((root("pl_mix", [4], [A1, C, D, E], o, "dev", ["clocks"]), 2 + t))
    q.append((root("pl_mm", [4], [C, D, E], o, "free"), t))
    q.append((root("pl_9", [9], [A, Bm, C, D, E], one(dim_x=3, dim_y=3), "dev", ["clocks"]), 1 + t))
    # two NoCs, of the same and of different size
    q.append((root("pl_2n", [4, 4], [A1, B1, C, D], two(), "dev", ["clocks"]), 2 + t))
    q.append((root("pl_2n49", [4, 9], [A1, B1, C, D, E], two(((2, 2), (3, 3))), "dev", ["clocks"]), 1 + t))
    # three and five NoCs (their number is no power of two); modules with ports of both protocols; names that contain each other
    q.append((root("pl_3n", [4, 4, 4], [C, D], two(((2, 2),) * 3), "free"), t))
    q.append((root("pl_5n", [4, 4, 4, 4, 4], [C, D], two(((2, 2),) * 5), "dev", ["clocks"]), 2 + t))
    q.append((root("pl_both", [9], ["mod a i:S q:m", "mod ab o:M r:s", "mod b i:S o:M"], one(dim_x=3, dim_y=3), "dev", ["clocks"]), 1 + t))
    q.append((root("pl_both3", [4, 4, 4], ["mod a i:S q:m", "mod aa o:M r:s"], two(((2, 2),) * 3), "dev", ["clocks"]), 2 + t))
    # inconsistent files
    for c, mods in (("axis_on_aximm", [A, C, D]), ("two_aximm", [A1, C, D, E]), ("missing", [A, C, D]),
                    ("unknown", [A, C]), ("same_name", [A, C])):
        q.append((root("pl_bad_" + c, [4], mods, o, "dev", ["conflict " + c]), 1 + t))
    return q


def main():
    c = Check("P16", sys.argv[2] if len(sys.argv) > 2 else None)
    only = sys.argv[3].split(",") if len(sys.argv) > 3 else None
    nj = B.Ninja()
    scen, exes = [], {}
    for (v, r), budget in scenarios(c.thorough):
        if only and os.path.basename(r)[2:] not in only:
            continue
        scen.append((v, r, budget, ""))
        if v not in exes:
            exes[v] = nj.exe("placement_h", [B.HARNESS + "/placement.cpp", B.HARNESS + "/sim_globals.cpp"], v,
                             ["radsim", "noc", "booksim"])
    nj.run()
    for v, r, b, _ in scen:
        if c.run_harness(exes[v], ["scen=%s:%d" % (r, b)]) and c.viol:
            break
    c.finish()


main()
