#!/usr/bin/env python3
"""trycheck.py NAME [PROP] [scenarios]: runs the property's check against a copy of /repo with the planted bug NAME."""
import json, os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check_cmd
n = sys.argv[1]
wt = "/tmp/trywt_" + n
shutil.rmtree(wt, ignore_errors=True)
subprocess.run("git clone -q /repo %s && git -C %s apply /verif/seeded/%s/patch.diff" % (wt, wt, n), shell=True, check=True)
p = sys.argv[2] if len(sys.argv) > 2 else json.load(open("/verif/seeded/%s/meta.json" % n))["property"]
t = time.time()
r = subprocess.run(check_cmd.cmd(p) + (" " + sys.argv[3] if len(sys.argv) > 3 else ""), shell=True, cwd="/verif", env=dict(os.environ, VERIF_REPO=wt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print(n, p, "rc", r.returncode, "%.0f s" % (time.time() - t))
print("\n".join([l for l in r.stdout.splitlines() if not l.startswith("@")][-4:]))
shutil.rmtree(wt, ignore_errors=True)
