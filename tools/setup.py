"""Warms the compile cache (the checks rebuild from /repo's tree anyway)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build as B
os.makedirs(B.BUILD, exist_ok=True)
vdir, root = B.variant(B.merged(clks=(5.0,)), "setup")
nj = B.Ninja()
nj.exe("axis_noc", [B.HARNESS + "/axis_noc.cpp", B.HARNESS + "/sim_globals.cpp"], vdir,
       ["radsim", "noc", "dram", "booksim", "dramsim3"])
nj.run()
print("ok")
