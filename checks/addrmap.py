"""P13: DRAM address mapping."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build as B
from vlib.check import Check

CFG = B.RS + "/sim/dram/DRAMsim3/configs/"


def geometry(name):
    t = open(CFG + name + ".ini").read()
    keys = "protocol bankgroups banks_per_group bankgroup_enable rows columns device_width BL num_dies block_size channel_size channels bus_width address_mapping hbm_dual_cmd".split()
    return tuple((re.findall(r"(?m)^\s*%s\s*=\s*([^;#\n]*?)\s*(?:[;#].*)?$" % k, t)[:1] or ["-"])[0] for k in keys)


def period(name):
    """controller clock period that the controller accepts for the device: tCK * burst length / 2"""
    t = open(CFG + name + ".ini").read()
    g = lambda k, d: float((re.findall(r"(?m)^\s*%s\s*=\s*([0-9.]+)" % k, t)[:1] or [d])[0])
    bl = g("BL", 8)
    if "HMC" in re.findall(r"(?m)^\s*protocol\s*=\s*(\w+)", t):
        bl = int(g("block_size", 64) * 8 / g("device_width", 8))
    tck = g("tCK", 1.0)
    x = round(tck * bl / 2, 6)
    return x if 2.0 * x / tck == bl else tck * bl / 2


def main():
    c = Check("P13", sys.argv[1] if len(sys.argv) > 1 else None)
    only = sys.argv[2].split(",") if len(sys.argv) > 2 else None
    devs = sorted(f[:-4] for f in os.listdir(CFG) if f.endswith(".ini"))
    n = len(devs)
    cfg = B.merged({}, clks=(5.0,), dram=dict(num_controllers=n, clk_periods=[period(d) for d in devs], queue_sizes=[32] * n, config_files=devs))
    vdir, root = B.variant(cfg, "addrmap")
    nj = B.Ninja()
    exe = nj.exe("addrmap_x", [B.HARNESS + "/addrmap.cpp", B.HARNESS + "/sim_globals.cpp"], vdir, ["dram", "radsim", "noc", "booksim", "dramsim3"])
    nj.run()
    B.write_root(root, {})
    tmp = B.BUILD + "/%s/amtmp" % B.repo_key()
    os.makedirs(tmp, exist_ok=True)
    seen = {}
    jobs = []
    for i, d in enumerate(devs):
        if only and d not in only:
            continue
        g = geometry(d)
        if c.thorough or g not in seen:
            jobs.append("full:%s:%d" % (d, i))
        if g not in seen and c.thorough and size(g) <= 2 << 30:
            jobs.insert(0, "ctrlall:%s:%d" % (d, i))
        seen[g] = 1
        jobs.append("ctrl:%s:%d:%d" % (d, i, 18 if c.thorough else 11))
    c.run_parallel([(exe, ["root=" + root, "tmp=" + tmp, "scen=" + x]) for x in jobs])
    c.extra["devices"] = len(devs)
    c.extra["geometries"] = len(seen)
    c.finish()


def size(g):
    try:
        return (int(g[9]) << 20) * int(g[10][0])
    except ValueError:
        return 1 << 60


main()
