"""P07, P08: BookSim's allocators and arbiters."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build as B
from vlib.check import Check


def scen(prop, thorough):
    s = []
    if prop == "P08":
        for t, fair in (("round_robin", 11), ("matrix", 11), ("tree(2,round_robin)", 1), ("tree(2,matrix)", 1)):
            for n in ((1, 2, 3, 4, 5) if thorough else (1, 2, 3, 4)):
                if t[0] == "t" and n % 2:
                    continue
                s.append("arb:%s:%d:0:%d:pri" % (t, n, fair))
            s.append("arb:%s:%d:0:%d:bin" % (t, 6 if thorough else 5 if t[0] != "t" else 6, fair))
            s.append("arb:%s:%d:0:%d:neg" % (t, 4, fair))
        for t in ("round_robin", "tree(4,round_robin)"):
            s.append("arb:%s:8:0:%d:bin" % (t, 11 if t[0] == "r" else 1))
        s += ["arb:tree(3,round_robin):6:0:1:bin", "arb:tree(3,matrix):6:0:1:bin"]
        for n in (1, 2, 3, 4, 5):
            s.append("prio:prio:%d:0:11:pri" % n if n < 5 or thorough else "prio:prio:%d:0:11:bin" % n)
        return s
    rr = [("islip(1)", 2), ("islip(2)", 2), ("islip(3)", 2), ("select(1)", 2), ("select(2)", 2), ("select(3)", 2),
          ("separable_input_first(round_robin)", 2), ("separable_output_first(round_robin)", 2),
          ("separable_input_first(matrix)", 2), ("separable_output_first(matrix)", 2), ("separable_input_first(tree(1,round_robin))", 2),
          ("wavefront", 1), ("rr_wavefront", 2), ("loa", 0), ("max_size", 3)]
    for t, f in rr:
        for r, c in ((1, 1), (2, 2), (2, 3), (3, 2), (1, 3), (3, 1), (3, 3)) + (((2, 4), (4, 2)) if thorough else ()):
            if (r, c) == (3, 3) and ("matrix" in t or "tree" in t or (t.endswith(("(2)", "(3)", "select(1)", "round_robin)")) and not thorough)):
                continue
            s.append("alloc:%s:%d:%d:%d:bin" % (t, r, c, f))
        s.append("alloc:%s:2:2:%d:pri" % (t, f))
        s.append("alloc:%s:2:3:%d:two" % (t, f))
        s.append("alloc:%s:2:2:%d:neg" % (t, f))
    s += ["alloc:pim(1):2:2:0:bin", "alloc:pim(2):2:2:0:bin", "alloc:pim(1):2:3:0:bin", "alloc:pim(1):3:2:0:bin"]
    return s


def main():
    prop = sys.argv[1]
    c = Check(prop, sys.argv[2] if len(sys.argv) > 2 else None)
    nj = B.Ninja()
    vdir, _ = B.variant(B.merged(), "dram")
    exe = nj.exe("bsalloc", [B.HARNESS + "/alloc.cpp", B.HARNESS + "/sim_globals.cpp"], vdir, ["booksimd", "radsim", "noc"], link="-Wl,--wrap=_Z8ran_nextv -lsystemc -lpthread")
    nj.run()
    sc = scen(prop, c.thorough)
    if len(sys.argv) > 3:
        sc = [x for x in sc if any(o in x for o in sys.argv[3].split(","))]
    c.run_parallel([(exe, ["scen=" + x]) for x in sc])
    c.finish()


main()
