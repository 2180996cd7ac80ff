#!/usr/bin/env python3
"""mkseed.py NAME.. : (re)creates /verif/seeded/NAME from tools/seeds.py: applies the edits in a
scratch copy of /repo, checks that only original lines change, runs the demonstration on the
clean and on the changed copy.  Options: -t also builds and runs the repository's tests;
-c also runs the property's check against the changed copy."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds
BASE = "ab869ce"
KIT = os.path.dirname(os.path.abspath(__file__)) + "/demokit"
OUT = "/verif/seeded"
WT = "/tmp/seedwt"


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def make(name, opts):
    s = seeds.SEEDS[name]
    wt = WT + "_" + name
    shutil.rmtree(wt, ignore_errors=True)
    assert sh("git -C /repo worktree prune; git clone -q /repo %s && git -C %s checkout -q HEAD" % (wt, wt)).returncode == 0
    for f, old, new in s["edits"]:
        p = wt + "/rad-sim/" + f
        t = open(p).read()
        if t.count(old) != 1:
            print(name, "EDIT MATCHES", t.count(old), f, repr(old[:60]))
            return False
        open(p, "w").write(t.replace(old, new))
    diff = sh("git diff", wt).stdout
    cur = None
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            cur = sh("git -C /repo show %s:%s" % (BASE, l[6:])).stdout.splitlines()
        elif l.startswith("-") and cur is not None and l[1:] not in cur:
            print(name, "NOT ORIGINAL:", l)
            if "-f" not in opts:
                return False
    d = OUT + "/" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    if "case" in s and "files" in s["case"]:
        shutil.copy(KIT + "/kit2.py", d + "/kit.py")
        for f in s["case"]["src"] + s["case"].pop("hdr"):
            shutil.copy((KIT if os.path.exists(KIT + "/" + f) else "/verif/harness") + "/" + f, d)
        open(d + "/case.json", "w").write(json.dumps(s["case"], indent=1))
        demo = '#!/bin/sh\nexec python3 "$(dirname "$0")/kit.py"\n'
    elif "case" in s:
        shutil.copy(KIT + "/kit.py", d)
        shutil.copy(KIT + "/globals.hpp", d)
        shutil.copy(KIT + "/" + s["case"]["src"], d)
        open(d + "/case.json", "w").write(json.dumps(s["case"], indent=1))
        demo = '#!/bin/sh\nexec python3 "$(dirname "$0")/kit.py"\n'
    else:
        for fn, body in s["files"].items():
            open(d + "/" + fn, "w").write(body)
        demo = s["demo"]
    open(d + "/demo.sh", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/meta.json", "w").write(json.dumps(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), indent=1))
    a = sh("sh %s/demo.sh" % d, "/repo")
    b = sh("sh %s/demo.sh" % d, wt)
    print(name, "demo clean rc", a.returncode, "patched rc", b.returncode)
    ok = a.returncode == 0 and b.returncode != 0
    if not ok or "-v" in opts:
        print("CLEAN:", a.stdout[-1500:], "\nPATCHED:", b.stdout[-1500:])
    else:
        print("   patched says:", b.stdout.strip()[-300:].replace("\n", " | "))
    if "-c" in opts and (ok or "-v" in opts):
        import check_cmd
        r = sh(check_cmd.cmd(s["prop"]), "/verif", dict(VERIF_REPO=wt))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print("   check rc", r.returncode, v[:2], "" if v else r.stdout[-400:])
    shutil.rmtree(wt, ignore_errors=True)
    return ok


def main():
    opts = [a for a in sys.argv[1:] if a.startswith("-")]
    names = [a for a in sys.argv[1:] if not a.startswith("-")] or list(seeds.SEEDS)
    for n in names:
        if not make(n, opts):
            print("FAILED", n)


main()
