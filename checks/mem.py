"""P09, P10: the memory controller over DRAMsim3."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build as B
from vlib.check import Check

DDR4 = dict(cfg="DDR4_8Gb_x16_2400", period=3.32)
HBM2 = dict(cfg="HBM2_8Gb_x128", period=2.0)
# devices whose word fits AXI4_MAX_DATAW; controller period = tCK * burst length / 2
DEVICES = [(d, t * n / 2) for d, t, n in (
    ("DDR4_8Gb_x16_2400", 0.83, 8), ("HBM2_8Gb_x128", 1.0, 4), ("DDR3_4Gb_x8_1600", 1.25, 8), ("LPDDR3_8Gb_x32_1600", 1.25, 8),
    ("HBM1_4Gb_x128", 2.0, 4), ("DDR4_8Gb_x8_3200", 0.63, 8), ("DDR4_4Gb_x4_2133", 0.94, 8), ("DDR3_8Gb_x16_1866", 1.07, 8),
    ("DDR4_4Gb_x16_2666", 0.75, 8), ("DDR3_1Gb_x8_1333", 1.5, 8), ("HBM2_4Gb_x128", 1.0, 4))]
# word addresses (in the controller's own field order bl,co,ba,ro,bg,ra,ch)
SAME = [0, 1]


def scen(thorough):
    """(name, device, queue size, budget, spec lines)"""
    q = []

    def add(name, dev, queue, budget, ops, nops, *opts):
        q.append((name, dev, queue, budget, ["op %s %d %d %d" % o for o in ops] + ["nops %d" % nops] + list(opts)))

    t = 1 if thorough else 0
    A, Bk, Row = 0, 128, 128 * 4  # DDR4 x16: 128 word columns, 4 banks
    ww = [("W", 0, 0, 1), ("R", 0, 0, 1), ("W", 0, 1, 1), ("R", 0, 1, 1)]
    add("hit", DDR4, 64, 0 + t, ww, 4, "fences 1")
    add("hit3", DDR4, 64, 1 + t, ww, 3, "runahead 1")
    mix = [("W", 0, 0, 2), ("R", 0, 0, 2), ("W", 0, Row, 1), ("R", 0, Row, 1), ("W", 0, Bk, 1), ("R", 0, Bk, 2)]
    add("mix", DDR4, 64, 0, mix, 4 + t)
    add("mix1", DDR4, 64, 1, mix, 3)
    add("small", DDR4, 18, 1, [("W", 0, 0, 2), ("R", 0, 0, 3), ("W", 0, Row, 1), ("R", 0, Row, 2)], 4, "runahead 1")
    add("small2", DDR4, 17, 1, [("W", 0, 0, 2), ("R", 0, 0, 1), ("W", 0, 1, 1)], 4, "runahead 1")
    # a row buffer conflict makes later reads overtake earlier ones inside the DRAM model
    add("ooo", DDR4, 64, 0, [("R", 0, 0, 1), ("R", 0, Row, 1), ("R", 0, 1, 2), ("W", 0, 1, 1), ("W", 0, Row, 1)], 5, "init 3")
    add("burst", DDR4, 20, 1, [("W", 0, 0, 20), ("R", 0, 4, 24), ("R", 0, 126, 4), ("W", 0, 126, 4)], 2, "runahead 1", "rs 0 3 200")
    add("long", DDR4, 64, 0, [("W", 0, 0, 256), ("R", 0, 0, 256)], 2, "rs 0 500")
    # around the first refreshes (tREFI = 9360 DRAM cycles)
    for i, w in enumerate([9330, 9350] if not thorough else [9330, 9335, 9340, 9345, 9350, 9360, 9400, 9700]):
        add("ref%d" % i, DDR4, 64, 0, mix, 3, "warm %d" % w)
    hb = [("W", 0, 0, 1), ("R", 0, 0, 2), ("W", -1, 0, 1), ("R", -1, 0, 2), ("R", 3, 0, 1)]
    add("hbm", HBM2, 64, 0 + t, hb, 4, "init 4")
    add("hbm1", HBM2, 64, 1, [("W", 0, 0, 2), ("R", 0, 0, 2), ("W", 7, 64, 1), ("R", 7, 64, 1)], 3, "runahead 1")
    add("hbms", HBM2, 18, 1, [("W", 1, 0, 2), ("R", 1, 0, 2), ("W", 2, 0, 1), ("R", 2, 0, 2)], 3, "init 4")
    for i, (d, p) in enumerate(DEVICES if thorough else DEVICES[:6]):
        add("dev%d" % i, dict(cfg=d, period=p), 64, 0, [], 1, "allbits 1")
    return q


def make(name, dev, queue, lines):
    cfg = B.merged({}, clks=(dev["period"],), dram=dict(num_controllers=1, clk_periods=[dev["period"]],
                                                       queue_sizes=[queue], config_files=[dev["cfg"]]))
    vdir, root = B.variant(cfg, "mem" + name)
    B.write_root(root, {"spec": "\n".join(["period %g" % dev["period"]] + lines) + "\n"})
    link = B.BUILD + "/%s/m_%s" % (B.repo_key(), name)
    if os.path.islink(link):
        os.unlink(link)
    os.symlink(root, link)
    return vdir, link


def main():
    prop = sys.argv[1]
    c = Check(prop, sys.argv[2] if len(sys.argv) > 2 else None)
    only = sys.argv[3].split(",") if len(sys.argv) > 3 else None
    nj = B.Ninja()
    scs, exes = [], {}
    for name, dev, queue, budget, lines in scen(c.thorough):
        if only and name not in only:
            continue
        v, root = make(name, dev, queue, lines)
        scs.append((v, root, budget, "m"))
        if v not in exes:
            exes[v] = nj.exe("mem_ctrl", [B.HARNESS + "/mem_ctrl.cpp", B.HARNESS + "/sim_globals.cpp"], v,
                             ["dram", "radsim", "noc", "booksim", "dramsim3"])
    nj.run()
    for v, root, budget, _ in scs:
        if c.run_harness(exes[v], ["prop=" + prop, "scen=%s:%d" % (root, budget)]) and c.viol:
            break
    c.finish()


if __name__ == "__main__":
    main()
