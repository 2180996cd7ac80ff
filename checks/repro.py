"""P23: every execution of a set of scenarios, explored again and again in environments that
differ in everything a simulation must not depend on - contents and addresses of its memory,
values of variables before their first assignment, process, time - observes the same."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build as B
from vlib import axis_scen as S
from vlib.check import Check
import designs, dram, mem, multirad, noc

# (build, PERTURB): automatic variables start as zeros (z) or as a pattern (p)
ENVS = [("z", "0 u"), ("p", "165 d"), ("p", "255 z")]
MORE = [("z", "1 z"), ("z", None), ("p", "85 u"), ("z", "255 d"), ("p", "0 z")]
NOC = ["clk0", "clkS2", "shared", "sharedT", "mixw1", "buf0", "bufS1", "buf5", "uarch0", "uarch1", "uarch2", "uarch3", "uarch4", "uarch6", "mesh3", "torus3",
       "cmesh", "wid3", "fanout"]
MM = ["mm00", "mm11", "mmwe", "mm2x1", "mmb1", "mmv", "mms00"]
MEM = ["hit3", "mix1", "burst", "ooo"]
IR = ["ir2_2_2_3", "ir3_3_1_1_6", "irq3_2_1", "mr_0", "mr_bw", "mr3"]
DRAM = ["seq0", "seq3", "var0", "var4", "var5", "hbm0", "hmc0", "hmcl1", "load0", "vref6"]
STD = ["radsim", "noc", "booksim"]


def jobs(nj, thorough, only):
    """(executable, arguments, scenario) of everything to be compared"""
    r = []

    def harness(name, libs, v, seen={}):
        k = (nj.tag, name, v)
        if k not in seen:
            seen[k] = nj.exe(name, [B.HARNESS + "/%s.cpp" % name, B.HARNESS + "/sim_globals.cpp"], v, libs)
        return seen[k]

    def want(n):
        return not only or any(n.startswith(o) for o in only)

    for name, gen, make, pick in (("axis_noc", noc.axis, S.make, NOC), ("aximm_noc", noc.aximm, S.aximm, MM)):
        for n, budget, flags, kw in gen(thorough, "P01" if name[2] == "i" else "P03"):
            if "K" not in flags and (n in pick or thorough) and want(n):
                v, root = make(n, **kw)
                r.append((harness(name, STD, v), "%s:%d:%s" % (root, min(budget, 1), flags)))
    for n, dev, queue, budget, lines in mem.scen(False):
        if (n in MEM or thorough) and want(n):
            v, root = mem.make(n, dev, queue, lines)
            r.append((harness("mem_ctrl", ["dram"] + STD + ["dramsim3"], v), "%s:%d" % (root, budget)))
    for (v, root), budget in multirad.scenarios(False, "P15"):
        n = os.path.basename(root)[2:]
        if budget >= 0 and (n in IR or thorough) and want(n):
            r.append((harness("multirad", STD, v), "%s:%d" % (root, min(budget, 1))))
    v, _ = B.variant(B.merged(), "dram")
    exe = None
    for n, text, lines in dram.scen("P12", False):
        if (n in DRAM or n.startswith("vref6") or thorough) and want(n):
            root = B.BUILD + "/%s/d_%s" % (B.repo_key(), n)
            B.write_root(root, {"dev.ini": text, "spec": "\n".join(["ini %s/dev.ini" % root] + lines) + "\n"})
            exe = exe or nj.exe("dram_seq", [B.HARNESS + "/dram.cpp"], v, ["dramsim3t"], defs="-DFMT_HEADER_ONLY=1 -DCMD_TRACE")
            r.append((exe, root))
    for name, src, defs, q in (("add", "ex_add.cpp", "", ["client20", "unit3", "driver0"]), ("mult", "ex_add.cpp", "-DDESIGN_MULT", ["unit3"]),
                               ("mlp", "ex_nn.cpp", "-DDESIGN_MLP", ["coll4", "mload4", "disp4", "mlong0"]),
                               ("dlrm", "ex_nn.cpp", "", ["coll4", "mlong0", "elk8", "cfi6", "afifo6"]),
                               ("mlp_int8", "ex_int8.cpp", "", ["coll4", "disp4", "wload4", "iload4", "mload0", "mprog1", "mlong0"])):
        if want(name):
            exe, root = designs.design(nj, name, src, STD, defs, skip=("rtl_mvm.cpp",))
            r += [(exe, "%s:%d:%s" % (root, 0 if k.startswith(("afifo", "mlong", "mload", "mprog")) else 1, k)) for k in q]
    return r


def main():
    c = Check("P23", sys.argv[2] if len(sys.argv) > 2 else None)
    only = sys.argv[3].split(",") if len(sys.argv) > 3 else None
    envs = ENVS + (MORE if c.thorough else [])
    so = B.BUILD + "/perturb.so"
    os.makedirs(B.BUILD, exist_ok=True)
    B.sh("gcc -O2 -shared -fPIC -fno-builtin -o %s.%d %s/perturb.c && mv %s.%d %s" % (so, os.getpid(), B.HARNESS, so, os.getpid(), so))
    todo = {}
    for b, how in (("z", "zero"), ("p", "pattern")):
        nj = B.Ninja(" -ftrivial-auto-var-init=" + how, "_" + b)
        todo[b] = jobs(nj, c.thorough, only)
        nj.run()
    logd = B.BUILD + "/%s/repro" % B.repo_key()
    os.makedirs(logd, exist_ok=True)
    compared = 0
    for i, _ in enumerate(todo["z"]):
        first = None
        for b, how in envs:
            exe, sc = todo[b][i]
            log = "%s/%d.log" % (logd, os.getpid())
            if os.path.exists(log):
                os.unlink(log)
            os.environ["EX_LOG"] = log
            t0 = time.time()
            # the harness is started through env, so that only it is given the allocator
            pre = ["PERTURB=" + how, "LD_PRELOAD=" + so] if how else []
            c.run_harness("/usr/bin/env", pre + [exe, "prop=P23", "scen=" + sc])
            got = {}
            for l in open(log) if os.path.exists(log) else []:
                k, h = l.rsplit(" ", 1)
                got[k] = h.strip()
            if c.viol or c.stats.get("cutoff") or float(os.environ["VERIF_DEADLINE_AT"]) < time.time():
                c.exhaustive = c.exhaustive and not c.stats.get("cutoff")
                c.add(scenarios_compared=i, scenarios_left=len(todo["z"]) - i)
                c.finish()
            if os.environ.get("VERIF_TIMES"):
                print("@time %s %s %.1f %d" % (sc.split("/")[-1], how, time.time() - t0, len(got)), flush=True)
            if not got:
                raise RuntimeError("no execution was logged: " + sc)
            if first is None:
                first = (b, how, got)
                continue
            compared += len(got)
            bad = sorted((k for k in set(got) | set(first[2]) if got.get(k) != first[2].get(k)), key=lambda k: (len(k), k))
            if bad:
                k = bad[0]
                c.violation("reproducibility: %d of %d executions observe something else when only memory contents, addresses or values "
                            "of unset variables differ (memory %s, variables %s against memory %s, variables %s): e.g. %s: %s against %s" % (
                                len(bad), len(got), first[1], first[0], how, b, k.replace(B.BUILD, ""), first[2].get(k), got.get(k)),
                            {"cmd": " ".join(pre + [exe, "prop=P23", "scen=" + sc]), "scenario": sc, "trace": k[k.rfind("[") + 1:-1]})
                c.finish()
    c.add(compared=compared, scenarios_compared=len(todo["z"]))
    c.finish()


main()
