"""Builds and runs a small SystemC test bench against the sources in the current
directory (/repo), inside a temporary directory.
usage: kit.py case.json   (next to this file)"""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

here = os.path.dirname(os.path.abspath(__file__))
case = json.load(open(os.path.join(here, sys.argv[1] if len(sys.argv) > 1 else "case.json")))
repo = os.getcwd()
rs = repo + "/rad-sim"
s, n = rs + "/sim", rs + "/sim/noc"
d = s + "/dram/DRAMsim3"
work = tempfile.mkdtemp(prefix="demo")


def srcs(lib):
    b = n + "/booksim"
    if lib == "booksim":
        r = []
        for p in ("", "/routers", "/allocators", "/arbiters", "/networks", "/power"):
            r += glob.glob(b + p + "/*.cpp")
        return r + [b + "/y.tab.c", b + "/lex.yy.c"]
    if lib == "noc":
        return glob.glob(n + "/*.cpp")
    if lib == "radsim":
        return [f for f in glob.glob(s + "/*.cpp") if os.path.basename(f) != "main.cpp"]
    if lib == "dram":
        return glob.glob(s + "/dram/*.cpp")
    return [f for f in glob.glob(d + "/src/*.cc") if os.path.basename(f) not in ("cpu.cc", "main.cc", "thermal.cc", "thermal_replay.cc")]


def main():
    for p in ("sim/noc", "bin", "example-designs/vtest"):
        os.makedirs(work + "/" + p)
    open(work + "/bin/cmake", "w").write("#!/bin/sh\nexit 0\n")
    os.chmod(work + "/bin/cmake", 0o755)
    shutil.copy(rs + "/config.py", work)
    os.symlink(s + "/dram", work + "/sim/dram")
    for f, t in case["files"].items():
        open(work + "/" + f, "w").write(t)
    subprocess.run(["python3", "config.py", "vtest"], cwd=work, env=dict(os.environ, PATH=work + "/bin:" + os.environ["PATH"]),
                   check=True, stdout=subprocess.DEVNULL)
    inc = [work + "/sim", s, n, n + "/booksim"] + [rs + "/" + x for x in case.get("incs", [])] + [n + "/booksim/" + x for x in ("routers", "allocators", "arbiters", "networks", "power")] + [
        s + "/dram", d, d + "/src", d + "/ext/headers", d + "/ext/fmt/include", d + "/ext/fmt/include/fmt", here]
    flags = ["-O1", "-w", "-DFMT_HEADER_ONLY=1"] + ["-I" + i for i in inc] + case.get("flags", [])
    jobs = [f for l in case["libs"] for f in srcs(l)] + [os.path.join(here, f) for f in case["src"]] + [
        f for g in case.get("repo_srcs", []) for f in glob.glob(rs + "/" + g) if not f.endswith(("_top.cpp", "_system.cpp", "rtl_mvm.cpp"))]
    if case.get("generated_main"):
        open(work + "/main_gen.cpp", "w").write("#include <systemc.h>\n#define sc_main generated_main\n" + open(work + "/sim/main.cpp").read())
        jobs.append(work + "/main_gen.cpp")

    def cc(f):
        o = work + "/" + f.replace("/", "_") + ".o"
        cmd = ["gcc"] if f.endswith(".c") else ["g++", "-std=c++17"]
        if "/booksim/" in f and os.path.basename(f) == "main.cpp":
            cmd.append("-Dmain=lib_main")
        subprocess.run(cmd + flags + ["-c", f, "-o", o], check=True)
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, sorted(jobs, key=lambda f: -os.path.getsize(f))))
    subprocess.run(["g++", "-o", work + "/demo"] + objs + ["-lsystemc", "-lpthread"], check=True)
    rc = 0
    for a in case["args"]:
        a = [x.replace("@W@", work) for x in a]
        try:
            p = subprocess.run([work + "/demo"] + a, cwd=work, timeout=250, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out, r = p.stdout.decode("utf8", "replace"), p.returncode
        except subprocess.TimeoutExpired:
            out, r = "timed out", 1
        print(a, "->", r, out[-600:])
        rc |= r != 0 or "@violation" in out
    return rc


try:
    sys.exit(main())
finally:
    shutil.rmtree(work)
