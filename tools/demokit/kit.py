"""Builds and runs a small SystemC test bench against the sources in the current
directory (/repo), inside a temporary directory.
usage: kit.py case.json   (next to this file)"""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

here = os.path.dirname(os.path.abspath(__file__))
case = json.load(open(os.path.join(here, sys.argv[1] if len(sys.argv) > 1 else "case.json")))
repo = os.getcwd()
rs = repo + "/rad-sim"
s, n = rs + "/sim", rs + "/sim/noc"
d = s + "/dram/DRAMsim3"
work = tempfile.mkdtemp(prefix="demo")
DEF = {"noc": dict(type=["2d"], num_nocs=1, clk_period=[1.0], payload_width=[82], topology=["mesh"], dim_x=[2], dim_y=[2],
                   routing_func=["dim_order"], vcs=[5], vc_buffer_size=[8], output_buffer_size=[8], num_packet_types=[5],
                   router_uarch=["iq"], vc_allocator=["islip"], sw_allocator=["islip"], credit_delay=[1], routing_delay=[1],
                   vc_alloc_delay=[1], sw_alloc_delay=[1]),
       "noc_adapters": dict(clk_period=[1.25], fifo_size=[16], obuff_size=[2], in_arbiter=["fixed_rr"],
                            out_arbiter=["priority_rr"], vc_mapping=["direct"]),
       "interfaces": dict(max_axis_tdata_width=512, axis_tuser_width=75),
       "cluster": dict(sim_driver_period=5.0, telemetry_log_verbosity=0, telemetry_traces=["t0"], num_rads=1, cluster_configs=["rad1"])}

DIRTY = r"""
#include <cstdlib>
#include <cstdint>
#include <new>
// memory as a larger program leaves it behind: zeros only by accident
void *operator new(size_t n) {
  static int kind = getenv("DEMO_DIRTY") ? atoi(getenv("DEMO_DIRTY")) : 0;
  static uint64_t r = 88172645463325252ull;
  uint32_t *p = (uint32_t *)malloc(n + 8);
  for (size_t i = 0; i < (n + 3) / 4; i++) {
    r ^= r << 13, r ^= r >> 7, r ^= r << 17;
    p[i] = kind == 0 ? 0 : kind == 1 ? (uint32_t)(r % 9) : (uint32_t)r;
  }
  return p;
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
"""


def yml(c):
    o = []
    for k, v in c.items():
        o.append(k + ":")
        for a, b in v.items():
            if isinstance(b, dict):
                o.append("  %s:" % a)
                o += ["    %s: %r" % x for x in b.items()]
            else:
                o.append("  %s: %r" % (a, b))
    return "\n".join(o) + "\n"


def srcs(lib):
    b = n + "/booksim"
    if lib == "booksim":
        r = []
        for p in ("", "/routers", "/allocators", "/arbiters", "/networks", "/power"):
            r += glob.glob(b + p + "/*.cpp")
        return r + [b + "/y.tab.c", b + "/lex.yy.c"]
    if lib == "noc":
        return glob.glob(n + "/*.cpp")
    if lib == "radsim":
        return [f for f in glob.glob(s + "/*.cpp") if os.path.basename(f) != "main.cpp"]
    if lib == "dram":
        return glob.glob(s + "/dram/*.cpp")
    return [f for f in glob.glob(d + "/src/*.cc") if os.path.basename(f) not in ("cpu.cc", "main.cc", "thermal.cc", "thermal_replay.cc")]


def main():
    rads = case.get("rads", 1)
    cfg = {}
    for i in range(rads):
        sec = {}
        if "dram" in case:
            sec["dram"] = case["dram"]
        sec["design"] = dict(name="vtest", noc_placement=["vtest.place"], clk_periods=case.get("clks", [5.0]))
        cfg["config rad%d" % (i + 1)] = sec
    for k, v in DEF.items():
        cfg[k] = dict(v, **case.get(k, {}))
    cfg["cluster"].update(num_rads=rads, cluster_configs=["rad%d" % (i + 1) for i in range(rads)])
    for p in ("sim/noc", "bin", "example-designs/vtest"):
        os.makedirs(work + "/" + p)
    open(work + "/bin/cmake", "w").write("#!/bin/sh\nexit 0\n")
    os.chmod(work + "/bin/cmake", 0o755)
    shutil.copy(rs + "/config.py", work)
    os.symlink(s + "/dram", work + "/sim/dram")
    open(work + "/example-designs/vtest/config.yml", "w").write(yml(cfg))
    open(work + "/example-designs/vtest/vtest.place", "w").write("\n".join(case.get("place", [])) + "\n")
    open(work + "/example-designs/vtest/vtest.clks", "w").write("\n".join(case.get("clk_lines", [])) + "\n")
    open(work + "/spec", "w").write("\n".join(case.get("spec", [])) + "\n")
    subprocess.run(["python3", "config.py", "vtest"], cwd=work, env=dict(os.environ, PATH=work + "/bin:" + os.environ["PATH"]),
                   check=True, stdout=subprocess.DEVNULL)
    inc = [work + "/sim", s, n, n + "/booksim"] + [n + "/booksim/" + x for x in ("routers", "allocators", "arbiters", "networks", "power")] + [
        s + "/dram", d, d + "/src", d + "/ext/headers", d + "/ext/fmt/include", d + "/ext/fmt/include/fmt", here]
    flags = ["-O1", "-w", "-DFMT_HEADER_ONLY=1"] + ["-I" + i for i in inc] + case.get("flags", [])
    jobs = [f for l in case["libs"] for f in srcs(l)] + [os.path.join(here, case["src"])]

    def cc(f):
        o = work + "/" + f.replace("/", "_") + ".o"
        cmd = ["gcc"] if f.endswith(".c") else ["g++", "-std=c++17"]
        if "/booksim/" in f and os.path.basename(f) == "main.cpp":
            cmd.append("-Dmain=lib_main")
        subprocess.run(cmd + flags + ["-c", f, "-o", o], check=True)
        return o
    if "envs" in case:
        open(work + "/dirty.cpp", "w").write(DIRTY)
        jobs.append(work + "/dirty.cpp")
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, sorted(jobs, key=lambda f: -os.path.getsize(f))))
    subprocess.run(["g++", "-o", work + "/demo"] + objs + ["-lsystemc", "-lpthread"], check=True)
    rc = 0
    if "envs" in case:  # the same run over differently used memory must print the same
        outs = []
        for e in case["envs"]:
            try:
                p = subprocess.run([work + "/demo", repo], cwd=work, timeout=120, env=dict(os.environ, DEMO_SHOW="1", **e),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                outs.append("rc %d\n" % p.returncode + p.stdout.decode("utf8", "replace"))
            except subprocess.TimeoutExpired:
                outs.append("timed out")
        for i, o in enumerate(outs):
            for x, y in zip(outs[0].splitlines(), o.splitlines()):
                if x != y:
                    print("run 0: %s\nrun %d: %s" % (x, i, y))
                    break
            if o != outs[0] or not o.startswith("rc 0"):
                print("run %d differs from run 0 or fails" % i, o[-300:])
                rc = 1
        return rc
    for a in case.get("args", [[]]):
        try:
            p = subprocess.run([work + "/demo"] + (a or [repo]), cwd=work, timeout=120, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out, r = p.stdout.decode("utf8", "replace"), p.returncode
        except subprocess.TimeoutExpired:
            out, r = "timed out", 1
        print(a, "->", r, out[-600:])
        rc |= r != 0
    return rc


try:
    sys.exit(main())
finally:
    shutil.rmtree(work)
