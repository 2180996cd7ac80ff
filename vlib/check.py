"""Common driver: runs harness binaries, aggregates counts, writes evidence,
prints VIOLATION / KNOWN-FINDING lines, sets the exit status."""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import sys
import time

from . import build as B

VERIF = B.VERIF


class Violation(Exception):
    pass


class Check:
    def __init__(self, prop, tier=None, level="model_checking"):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.level = level
        self.t0 = time.time()
        self.stats = {}
        self.samples = []
        self.viol = []
        self.known_hit = []
        self.assumptions = []
        self.extra = {}
        self.exhaustive = True
        self.known = load_known(prop)
        # safety net: harnesses stop branching here and report a cut-off
        os.environ.setdefault("VERIF_DEADLINE_AT", "%d" % (self.t0 + (600 if self.thorough else 400)))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add(self, **kw):
        for k, v in kw.items():
            self.stats[k] = self.stats.get(k, 0) + v

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, msg, replay_info):
        """replay_info: dict describing how to reproduce.  Listed known findings
        are reported as such and do not fail the check."""
        for k in self.known:
            if re.search(k["match"], msg) and all(
                    re.search(b, str(replay_info.get(a, ""))) for a, b in k.get("where", {}).items()):
                if k["id"] not in [x["id"] for x in self.known_hit]:
                    self.known_hit.append(k)
                return
        self.viol.append((msg, replay_info))

    # ------------------------------------------------------------- harness run
    def parse(self, out, cmd):
        v = {}
        for line in out.splitlines():
            if line.startswith("@stat "):
                _, k, n = line.split()
                if k in ("cutoff",) and int(n) > 0:
                    self.exhaustive = False
                self.add(**{k: int(n)})
            elif line.startswith("@sample "):
                self.sample(line[8:])
            elif line.startswith("@scen "):
                self.extra.setdefault("scenarios", []).append(line[6:])
            elif line.startswith("@violation "):
                v["msg"] = line[11:]
            elif line.startswith("@scenario "):
                v["scenario"] = line[10:]
            elif line.startswith("@trace"):
                v["trace"] = line[7:]
        if v:
            self.violation(v["msg"], {"cmd": cmd, "scenario": v.get("scenario", ""), "trace": v.get("trace", "")})
        return v

    def run_harness(self, exe, args, timeout=860):
        cmd = [exe] + args
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        out = p.stdout.decode("utf8", "replace")
        v = self.parse(out, " ".join(cmd))
        if "@stat" not in out:
            sys.stdout.write(out[-2000:] + p.stderr.decode("utf8", "replace")[-2000:])
            raise RuntimeError("harness produced no report (rc %d): %s" % (p.returncode, " ".join(cmd)))
        return v

    def run_scenarios(self, exe_of, scen, args=()):
        """scen: list of (variant dir, root, budget, flags).  Iterative
        deepening: every scenario at budget 1, then those that go to 2, ...
        Scenarios with the flag K (site of a known finding) run on their own."""
        for v, root, budget, flags in scen:
            if "K" in flags:
                self.run_harness(exe_of[v], list(args) + ["scen=%s:%d:%s" % (root, budget, flags)])
        scen = [s for s in scen if "K" not in s[3]]
        if not scen:
            return
        top = max(s[2] for s in scen)
        for b in range(1, top + 1):
            by = {}
            for v, root, budget, flags in scen:
                # budget b only if it is the last one or a stop on the way to it
                if budget >= b and (b in (1, budget)):
                    by.setdefault(v, []).append("%s:%d:%s" % (root, b, flags))
            for v, sc in by.items():
                if self.run_harness(exe_of[v], list(args) + ["scen=" + ",".join(sc)]):
                    if self.viol:
                        return

    def run_parallel(self, jobs, workers=8, timeout=860):
        """jobs: list of (exe, args)."""
        with cf.ThreadPoolExecutor(workers) as ex:
            fs = [ex.submit(self.run_harness, e, a, timeout) for e, a in jobs]
            for f in fs:
                f.result()

    # ------------------------------------------------------------------ finish
    def finish(self):
        cov = dict(self.stats)
        if self.level == "model_checking":
            cov.setdefault("states", cov.get("choice_points", 0))
            cov.setdefault("transitions", cov.get("forks", 0))
            cov.setdefault("traces_validated_against_impl", cov.get("execs", 0))
        cov["samples"] = self.samples or ["(none)"]
        cov["exhaustive"] = self.exhaustive
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        rc = 0
        for i, (msg, info) in enumerate(self.viol[:int(os.environ.get("VERIF_MAXV", "5"))]):
            d = VERIF + "/.build/replay"
            os.makedirs(d, exist_ok=True)
            path = "%s/%s_%d.json" % (d, self.prop, i)
            with open(path, "w") as f:
                json.dump({"property": self.prop, "message": msg, **info}, f, indent=1, default=str)
            print("  %s" % msg)
            print("  scenario %s trace [%s]" % (info.get("scenario", ""), info.get("trace", "")))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc = 1
        if rc == 0:
            s = " ".join("%s=%s" % (k, v) for k, v in sorted(self.stats.items()))
            print("OK property=%s tier=%s %s (%.1fs)" % (self.prop, self.tier, s, time.time() - self.t0))
        sys.stdout.flush()
        sys.exit(rc)


def load_known(prop):
    f = VERIF + "/known_findings.json"
    if not os.path.exists(f):
        return []
    d = json.load(open(f))
    return [k for k in d.get("findings", []) if k["property"] == prop]
