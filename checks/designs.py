"""P20: the modules and drivers of the example designs, one by one, against
reference models, for every schedule of their interfaces within the bounds."""
import copy, glob, os, sys
import yaml
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build as B
from vlib.check import Check

ED = B.RS + "/example-designs/"


def design(nj, name, src, libs, defs="", skip=()):
    """Builds harness/<src> with the modules and the driver of design `name`."""
    cfg = yaml.safe_load(open(ED + name + "/config.yml"))
    for sec in cfg.values():
        if "design" in sec:
            sec["design"].update(name="vtest", noc_placement=["vtest.place"])
            sec["design"].setdefault("clk_periods", [5.0])
    vdir, root = B.variant(cfg, "design_" + name)
    d = ED + name
    srcs = sorted(f for f in glob.glob(d + "/modules/*.cpp") + glob.glob(d + "/*.cpp")
                  if not f.endswith(("_top.cpp", "_system.cpp")) and os.path.basename(f) not in skip)
    exe = nj.exe("ex_" + name, [B.HARNESS + "/" + src, B.HARNESS + "/sim_globals.cpp"] + srcs, vdir, libs,
                 extra_incs=[d, d + "/modules"], defs=defs)
    return exe, root


def main():
    c = Check("P20", sys.argv[2] if len(sys.argv) > 2 else None)
    only = sys.argv[3].split(",") if len(sys.argv) > 3 else None
    nj = B.Ninja()
    t = 1 if c.thorough else 0
    jobs = []

    def scen(d, q):
        if only and not any(o in d[0] or any(k.startswith(o) for _, k in q) for o in only):
            return
        for b, k in q:
            if not only or any(o in d[0] or k.startswith(o) for o in only):
                jobs.append((d, k, b))

    std = ["radsim", "noc", "booksim"]
    for n, defs in (("add", ""), ("mult", "-DDESIGN_MULT")):
        d = design(nj, n, "ex_add.cpp", std, defs)
        scen(d, [(0, "fifow%d" % (7 + t)), (0, "fifob%d" % (7 + t)), (2 + t, "client5"), (1 + t, "client20"),
                 (2 + t, "unit3"), (1 + t, "unit6"), (2 + t, "driver0")])
    for n, defs in (("mlp", "-DDESIGN_MLP"), ("dlrm", ""), ("dlrm_two_rad", "-DTWO_RAD")):
        d = design(nj, n, "ex_nn.cpp", std, defs)
        scen(d, [(0, "vfifo%d" % (8 + t)), (2 + t, "coll4"), (0, "colllong%d" % (2200 if n == "mlp" else 1100)), (1 + t, "msched4"),
                 (1 + t, "mload4"), (0, "mprog2"), (0, "mlong0"), (2 + t, "driver0")])
        if n == "mlp":
            scen(d, [(2 + t, "disp4"), (0, "displong2200")])
        else:
            scen(d, [(0, "afifo%d" % (8 + t)), (1 + t, "elk8"), (1 + t, "cfi6"), (0, "cfiprog2")])
    d = design(nj, "mlp_int8", "ex_int8.cpp", std, skip=("rtl_mvm.cpp",))
    scen(d, [(0, "bfifo%d" % (7 + t)), (1 + t, "coll4"), (0, "colllong150"), (1 + t, "disp4"), (0, "displong150"), (1 + t, "wload4"),
             (0, "wloadlong150"), (1 + t, "iload4"), (0, "iloadlong150"), (0, "mload0"), (0, "mprog2"), (1, "msched%d" % (5 + 15 * t)), (0, "mlong0"), (1, "driver0")])
    nj.run()
    import time
    for (exe, root), k, b in jobs:
        t0 = time.time()
        if c.run_harness(exe, ["scen=%s:%d:%s" % (root, b, k)]) and c.viol:
            break
        if os.environ.get("VERIF_TIMES"):
            print("@time %s %s %.1f" % (os.path.basename(exe), k, time.time() - t0), flush=True)
    c.finish()


if __name__ == "__main__":
    main()
