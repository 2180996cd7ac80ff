"""Builds the code under test, from /repo's current working tree, into
/verif/.build.  Nothing outside /verif/.build is written."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
RS = REPO + "/rad-sim"
BUILD = VERIF + "/.build"
HARNESS = VERIF + "/harness"
CXXFLAGS = "-std=c++17 -O1 -w -fno-omit-frame-pointer"


def repo_key():
    return hashlib.sha1(REPO.encode()).hexdigest()[:8]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, check=True, **kw)


# ---------------------------------------------------------------- config.py
DEFAULT_YML = {
    "noc": dict(type=["2d"], num_nocs=1, clk_period=[1.0], payload_width=[82],
                topology=["mesh"], dim_x=[2], dim_y=[2], routing_func=["dim_order"],
                vcs=[5], vc_buffer_size=[8], output_buffer_size=[8],
                num_packet_types=[5], router_uarch=["iq"], vc_allocator=["islip"],
                sw_allocator=["islip"], credit_delay=[1], routing_delay=[1],
                vc_alloc_delay=[1], sw_alloc_delay=[1]),
    "noc_adapters": dict(clk_period=[1.25], fifo_size=[16], obuff_size=[2],
                         in_arbiter=["fixed_rr"], out_arbiter=["priority_rr"],
                         vc_mapping=["direct"]),
    "interfaces": dict(max_axis_tdata_width=512, axis_tuser_width=75),
    "cluster": dict(sim_driver_period=5.0, telemetry_log_verbosity=0,
                    telemetry_traces=["t0"], num_rads=1, cluster_configs=["rad1"]),
}


def to_yaml(cfg):
    out = []
    for sec, body in cfg.items():
        out.append("%s:" % sec)
        for k, v in body.items():
            if isinstance(v, dict):
                out.append("  %s:" % k)
                for k2, v2 in v.items():
                    out.append("    %s: %s" % (k2, repr(v2)))
            else:
                out.append("  %s: %s" % (k, repr(v)))
    return "\n".join(out) + "\n"


def run_config_py(root, designs, cfg, check=True, yml_text=None):
    """Runs /repo's config.py in the scratch directory `root` (a stub cmake
    keeps it from configuring a build) and returns the CompletedProcess."""
    os.makedirs(root + "/sim/noc", exist_ok=True)
    os.makedirs(root + "/bin", exist_ok=True)
    with open(root + "/bin/cmake", "w") as f:
        f.write("#!/bin/sh\nexit 0\n")
    os.chmod(root + "/bin/cmake", 0o755)
    shutil.copyfile(RS + "/config.py", root + "/config.py")
    for d in designs:
        os.makedirs(root + "/example-designs/" + d, exist_ok=True)
        with open(root + "/example-designs/%s/config.yml" % d, "w") as f:
            f.write(yml_text if yml_text is not None else to_yaml(cfg))
    if not os.path.exists(root + "/sim/dram"):
        os.symlink(RS + "/sim/dram", root + "/sim/dram")
    env = dict(os.environ, PATH=root + "/bin:" + os.environ["PATH"])
    return subprocess.run(["python3", "config.py"] + list(designs), cwd=root, env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          check=check)


def merged(over=None, dram=None, design="vtest", clks=(5.0,), rads=1, per_rad=None):
    import copy
    base = copy.deepcopy(DEFAULT_YML)
    names = ["rad%d" % (i + 1) for i in range(rads)]
    cfg = {}
    for i, n in enumerate(names):
        sec = {}
        if dram:
            sec["dram"] = copy.deepcopy(dram)
        sec["design"] = dict(name=design, noc_placement=["%s.place" % design], clk_periods=list(clks))
        cfg["config " + n] = sec
    cfg.update(base)
    cfg["cluster"]["num_rads"] = rads
    cfg["cluster"]["cluster_configs"] = names
    for k, v in (over or {}).items():
        cfg.setdefault(k, {}).update(v)
    return cfg


def write_root(root, files):
    for name, text in files.items():
        p = root + "/" + name
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)


# ------------------------------------------------------------------ compile
def includes():
    s = RS + "/sim"
    n = s + "/noc"
    b = n + "/booksim"
    d = s + "/dram/DRAMsim3"
    return [s, n, b] + [b + "/" + x for x in ("routers", "allocators", "arbiters", "networks", "power")] + [
        s + "/dram", d, d + "/src", d + "/ext/headers", d + "/ext/fmt/include", d + "/ext/fmt/include/fmt", HARNESS]


def sources(lib):
    s = RS + "/sim"
    b = s + "/noc/booksim"
    if lib in ("booksim", "booksimd"):
        r = []
        for x in ("", "/allocators", "/arbiters", "/networks", "/power", "/routers"):
            r += glob.glob(b + x + "/*.cpp")
        return sorted(r) + [b + "/y.tab.c", b + "/lex.yy.c"]
    if lib == "noc":
        return sorted(glob.glob(s + "/noc/*.cpp"))
    if lib == "radsim":
        return sorted(f for f in glob.glob(s + "/*.cpp") if os.path.basename(f) != "main.cpp")
    if lib in ("dramsim3", "dramsim3t"):
        skip = ("cpu.cc", "main.cc", "thermal.cc", "thermal_replay.cc")
        return sorted(f for f in glob.glob(s + "/dram/DRAMsim3/src/*.cc") if os.path.basename(f) not in skip)
    if lib == "dram":
        return sorted(f for f in glob.glob(s + "/dram/*.cpp") if not f.endswith("_test.cpp") or True)
    raise KeyError(lib)


PURE = ("booksim", "booksimd", "dramsim3", "dramsim3t")  # do not depend on radsim_defines.hpp


class Ninja:
    def __init__(self, flags="", tag=""):
        """flags: more compiler flags; tag keeps the objects of such a build apart."""
        CXXFLAGS = globals()["CXXFLAGS"] + flags
        self.tag = tag
        self.out = []
        self.seen = set()
        self.targets = []
        cc = "ccache " if shutil.which("ccache") and os.environ.get("VERIF_NOCCACHE") is None else ""
        self.out.append("rule cxx\n  command = %sg++ %s $defs $inc -x c++ -c $in -o $out -MMD -MF $out.d\n"
                        "  depfile = $out.d\n  deps = gcc\n" % (cc, CXXFLAGS))
        self.pch = BUILD + "/%s/pch%s/pre.hpp" % (repo_key(), tag)
        os.makedirs(os.path.dirname(self.pch), exist_ok=True)
        if not os.path.exists(self.pch):
            with open(self.pch, "w") as f:
                f.write("#include <systemc.h>\n")
        self.out.append("rule pch\n  command = g++ %s -x c++-header $in -o $out\n" % CXXFLAGS)
        self.out.append("build %s.gch: pch %s\n" % (self.pch, self.pch))
        self.out.append("rule cc\n  command = %sgcc -O1 -w%s $defs $inc -c $in -o $out -MMD -MF $out.d\n"
                        "  depfile = $out.d\n  deps = gcc\n" % (cc, flags))
        self.out.append("rule ar\n  command = rm -f $out && ar rcs $out $in\n")
        self.out.append("rule link\n  command = g++ -o $out $in $libs\n")

    def obj(self, src, odir, incs, defs="", pch=False):
        o = "%s/%s.o" % (odir, src.lstrip("/").replace("/", "_"))
        if o not in self.seen:
            self.seen.add(o)
            dep = ""
            if pch:
                defs += " -include " + self.pch
                dep = " | %s.gch" % self.pch
            self.out.append("build %s: %s %s%s\n  inc = %s\n  defs = %s\n" % (
                o, "cc" if src.endswith(".c") else "cxx", src, dep, " ".join("-I" + i for i in incs), defs))
        return o

    def lib(self, name, variant_dir, defs=""):
        if name in PURE:
            odir = BUILD + "/%s/pure%s" % (repo_key(), self.tag)
            incs = includes()
        else:
            odir = variant_dir + self.tag
            incs = [variant_dir] + includes()
        a = odir + "/lib%s.a" % name
        if a not in self.seen:
            objs = [self.obj(f, odir + "/" + name, incs,
                             defs + {"dramsim3": " -DFMT_HEADER_ONLY=1", "dramsim3t": " -DFMT_HEADER_ONLY=1 -DCMD_TRACE", "booksimd": " -D_GLIBCXX_ASSERTIONS"}.get(name, "") + (" -Dmain=lib_main" if os.path.basename(f) == "main.cpp" else ""), pch=name not in PURE) for f in sources(name)]
            self.seen.add(a)
            self.out.append("build %s: ar %s\n" % (a, " ".join(objs)))
        return a

    def exe(self, name, srcs, variant_dir, libs, extra_incs=(), defs="", link="-lsystemc -lpthread", extra_srcs=()):
        incs = list(extra_incs) + [variant_dir] + includes()
        odir = variant_dir + self.tag + "/h_" + name
        objs = [self.obj(f, odir, incs, defs, pch=not f.endswith(".c")) for f in list(srcs) + list(extra_srcs)]
        archives = [self.lib(l, variant_dir) for l in libs]
        e = variant_dir + self.tag + "/" + name
        self.out.append("build %s: link %s | %s\n  libs = -Wl,--start-group %s -Wl,--end-group %s\n" % (
            e, " ".join(objs), " ".join(archives), " ".join(archives), link))
        self.targets.append(e)
        return e

    def run(self, jobs=8, quiet=True):
        os.makedirs(BUILD, exist_ok=True)
        text = "\n".join(self.out)
        h = hashlib.sha1(text.encode()).hexdigest()[:10]
        f = BUILD + "/build_%s.ninja" % h
        with open(BUILD + "/lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            with open(f, "w") as fh:
                fh.write("builddir = %s/nj_%s\n" % (BUILD, h) + text)
            env = dict(os.environ)
            env.setdefault("CCACHE_DIR", BUILD + "/ccache")
            env.pop("VERIF_SEED", None)
            env.setdefault("CCACHE_SLOPPINESS", "pch_defines,time_macros")
            p = subprocess.run(["ninja", "-f", f, "-j", str(jobs)] + self.targets, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                sys.stdout.write("\n".join(l[:300] for l in p.stdout.splitlines() if not l.startswith(("[", "g++ ", "ccache ")))[-1500:])
                raise RuntimeError("build failed")


def variant(cfg, tag=""):
    """Generates radsim_defines.hpp for `cfg` through config.py and returns
    (variant dir, root dir)."""
    import json
    h = hashlib.sha1((json.dumps(cfg, sort_keys=True) + tag).encode()).hexdigest()[:10]
    root = BUILD + "/%s/cfg_%s" % (repo_key(), h)
    os.makedirs(root, exist_ok=True)
    with open(root + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        run_config_py(root, ["vtest"], cfg)
        text = open(root + "/sim/radsim_defines.hpp").read().replace(root, "@ROOT@")
        vh = hashlib.sha1(text.encode()).hexdigest()[:10]
        vdir = BUILD + "/%s/v_%s" % (repo_key(), vh)
        os.makedirs(vdir, exist_ok=True)
        f = vdir + "/radsim_defines.hpp"
        text = text.replace("@ROOT@", RS)
        if not os.path.exists(f) or open(f).read() != text:
            with open(f, "w") as fh:
                fh.write(text)
    return vdir, root
