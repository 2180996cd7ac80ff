"""P22: end of the simulation and exit status, on the main.cpp that config.py generates."""
import os, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build as B
from vlib.check import Check


def main():
    c = Check("P22", sys.argv[1] if len(sys.argv) > 1 else None)
    nj = B.Ninja()
    runs = []
    for rads in (1, 2, 3):
        vdir, root = B.variant(B.merged(rads=rads), "endcode")
        v = root + "/v"  # this variant reads the knobs of its own root
        os.makedirs(v, exist_ok=True)
        shutil.copyfile(root + "/sim/radsim_defines.hpp", v + "/radsim_defines.hpp")
        text = "#include <systemc.h>\n#define sc_main generated_main\n" + open(root + "/sim/main.cpp").read()
        if not os.path.exists(v + "/main_gen.cpp") or open(v + "/main_gen.cpp").read() != text:
            open(v + "/main_gen.cpp", "w").write(text)
        exe = nj.exe("endcode", [B.HARNESS + "/endcode.cpp"], v, ["radsim", "noc", "booksim"], extra_srcs=[v + "/main_gen.cpp"])
        runs.append((exe, ["rads=%d" % rads]))
    nj.run()
    for e, a in runs:
        c.run_harness(e, a)
    c.finish()


main()
