"""P06: BookSim's topologies and routing functions."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build as B
from vlib.check import Check


def scen(thorough):
    s = []
    K = lambda *k: k
    # (topology, function, routers per dimension, VCs per type, types)
    big = thorough
    grid = [("mesh", "dim_order", 1, (2, 3, 4, 5)), ("mesh", "dor", 1, (2, 3, 4)), ("mesh", "dim_order_pni", 0, (2, 3, 4)), ("mesh", "dim_order_ni", -1, (2, 3)),
            ("mesh", "xy_yx", 2, (2, 3, 4)), ("mesh", "adaptive_xy_yx", 2, (2, 3, 4)), ("mesh", "romm", 2, (2, 3, 4)), ("mesh", "romm_ni", -1, (2, 3)),
            ("mesh", "min_adapt", 2, (2, 3, 4)), ("mesh", "planar_adapt", 3, (2, 3, 4)), ("mesh", "valiant", 2, (2, 3, 4)),
            ("torus", "dim_order", 2, (2, 3, 4, 5)), ("torus", "dim_order_bal", 2, (2, 3, 4, 5)), ("torus", "dim_order_ni", -2, (2, 3)),
            ("torus", "min_adapt", 4, (2, 3, 4)), ("torus", "valiant", 4, (2, 3, 4)), ("torus", "valiant_ni", -4, (2, 3)),
            ("cmesh", "dor", 1, (2, 4)), ("cmesh", "dor_no_express", 1, (2, 3, 4)), ("cmesh", "xy_yx", 2, (2, 4)), ("cmesh", "xy_yx_no_express", 2, (2, 3, 4))]
    for t, f, v, ks in grid:
        if thorough:
            ks = tuple(ks) + ((6, 8) if t == "cmesh" and "no" not in f else (6,) if t == "cmesh" else (max(ks) + 1, max(ks) + 2))
        for k in ks:
            nodes = k * k
            lo = v if v > 0 else k if v == 0 else -v * nodes
            for m in (1, 2) + ((3,) if thorough else ()):
                if m > 1 and k > 4 and not thorough:
                    continue
                for types in (1, 2, 5):
                    if types > 1 and (k > 3 or m > 1) and not thorough or lo * m * types > 400:
                        continue
                    if k > 5 and (types > 1 or m > 1):
                        continue
                    s.append("%s:%s:%d:%d:%d" % (t, f, k, lo * m, types))
            # VC counts that do not divide evenly among the function's classes
            if lo > 1 and v > 0:
                for d in range(1, lo + (lo if thorough else 0)):
                    if d % lo and (k < 6 or thorough and k < 7):
                        s.append("%s:%s:%d:%d:%d:nolat" % (t, f, k, lo + d, 2 if k < 4 else 1))
            if v < 0 and lo <= 64:
                s.append("%s:%s:%d:%d:1:nolat" % (t, f, k, lo + k * k * (1 if v < -1 else 0) + (k * k - 1)))
    s += ["cmesh:dor:3:1:1", "cmesh:xy_yx:3:2:1"]  # known finding
    return s


def anynet(thorough):
    """all connected router graphs with latencies, as files of each form"""
    import itertools
    out = []
    for k in (1, 2, 3) + ((4,) if thorough else ()):
        pairs = list(itertools.combinations(range(k), 2))
        opts = [(0, 0), (1, 1), (1, 3), (3, 1), (2, 2)] if k < 4 else [(0, 0), (1, 1), (1, 3), (3, 1)]
        for ch in itertools.product(opts, repeat=len(pairs)):
            w = {}
            for (i, j), (a, b) in zip(pairs, ch):
                w[i, j], w[j, i] = a, b
            seen = {0}
            for _ in range(k):
                seen |= {j for i in seen for j in range(k) if j != i and w[i, j]}
            if len(seen) < k:
                continue
            e = "".join(str(w[i, j]) for i in range(k) for j in range(k) if i != j) or "-"
            homes = {1: ["0", "000"], 2: ["01", "10", "0011", "111"], 3: ["012", "210", "00122", "0200"], 4: ["0123", "3201"]}[k]
            for h in homes:
                for f in "RIN" if k < 4 else "R":
                    out.append("anynet:min:%d:1:2:%s:%s:%s:%s:nodeadlock" % (k, e, h, f, ("12113" * 2)[:len(h)]))
    return out


def main():
    c = Check("P06", sys.argv[1] if len(sys.argv) > 1 else None)
    nj = B.Ninja()
    vdir, _ = B.variant(B.merged(), "dram")
    exe = nj.exe("bsroute", [B.HARNESS + "/route.cpp", B.HARNESS + "/sim_globals.cpp"], vdir, ["booksimd", "radsim", "noc"], link="-Wl,--wrap=_Z8ran_nextv -lsystemc -lpthread")
    nj.run()
    if len(sys.argv) > 2 and ":" in sys.argv[2]:
        sc = sys.argv[2].split(",")
    else:
        sc = scen(c.thorough)
        if len(sys.argv) > 2:
            sc = [x for x in sc if any(o in x for o in sys.argv[2].split(","))]
    jobs = [(exe, ["scen=" + x]) for x in sc]
    if len(sys.argv) < 3 or "anynet" in sys.argv[2]:
        an = anynet(c.thorough)
        jobs += [(exe, ["scen=" + ";".join(an[i:i + 200])]) for i in range(0, len(an), 200)]
    c.run_parallel(jobs)
    c.finish()


main()
