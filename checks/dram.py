"""P11, P12: DRAMsim3 command streams, callbacks and refreshes."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build as B
from vlib.check import Check

CFG = B.RS + "/sim/dram/DRAMsim3/configs/"


def ini(name, **over):
    t = open(CFG + name + ".ini").read()
    for k, v in over.items():
        t, n = re.subn(r"(?m)^%s\s*=.*$" % k, "%s = %s" % (k, v), t)
        if not n:
            sec = "[timing]" if k.startswith("t") and not k.startswith("trans") else "[system]"
            if k in ("hbm_dual_cmd", "bankgroup_enable"):
                sec = "[dram_structure]"
            if k in ("num_links", "block_size", "xbar_queue_depth"):
                sec = "[hmc]"
            t = t.replace(sec, "%s\n%s = %s" % (sec, k, v), 1)
    return t


# letters: channel rank bankgroup bank row column
A, RowB, ColC, BankD, BgE, RankF = "0 0 0 0 5 0", "0 0 0 0 6 0", "0 0 0 0 5 9", "0 0 0 1 5 0", "0 0 1 0 5 0", "0 1 0 0 5 0"


def letters(*addrs, kinds="RW"):
    return ["L %s %s" % (k, a) for a in addrs for k in kinds]


FULL = letters(A, RowB, ColC, BankD, BgE, RankF)
SMALL = letters(A, RowB, BankD, RankF)
# 8 activates to different banks (four-activate window)
FAW = letters(*["0 0 %d %d 3 0" % (b % 2, b // 2) for b in range(8)], kinds="R")
# parameter, dominant value, negligible value
PAR = [("tRAS", 160, 20), ("tRCD", 70, 5), ("tRP", 70, 5), ("tRTP", 60, 1), ("tWR", 90, 1), ("tWTR_L", 45, 1), ("tWTR_S", 45, 1), ("tCCD_L", 40, 4),
       ("tCCD_S", 30, 4), ("tRRD_L", 50, 4), ("tRRD_S", 40, 4), ("tFAW", 200, 16), ("tRFC", 600, 60), ("tRFCb", 180, 20), ("tRTRS", 20, 1),
       ("AL", 12, 0), ("CWL", 40, 4), ("CL", 44, 6)]
BASE = ["DDR4_8Gb_x16_2400", "HBM2_8Gb_x128", "DDR3_4Gb_x8_1600", "GDDR5_8Gb_x32", "LPDDR4_8Gb_x16_2400", "GDDR6_8Gb_x16"]


def scen(prop, thorough):
    q = []

    def add(name, text, *lines):
        q.append((name, text, list(lines)))

    def devs():
        return sorted(f[:-4] for f in os.listdir(CFG) if f.endswith(".ini") and not f.startswith("HMC"))

    # refresh interval made short so that refreshes fall into the explored window
    fast = dict(tREFI=700)
    for i, n in enumerate(BASE):
        o = dict(channel_size=16384) if n[:3] == "DDR" else {}
        add("seq%d" % i, ini(n, **o), *FULL, "depth %d" % (4 if thorough else 3), "gaps 0 %d" % (3 + 4 * i) if thorough else "gaps %d" % (3 + 4 * i if i % 2 else 0))
        add("long%d" % i, ini(n, **o), *SMALL, "depth %d" % (5 if thorough else 4), "gaps 0", "repeat 3")
        add("faw%d" % i, ini(n), *FAW[:6 if thorough else 5], "depth 5", "gaps 0", "repeat 2")
    variants = [dict(row_buf_policy="CLOSE_PAGE"), dict(queue_structure="PER_RANK"), dict(unified_queue="True"),
                dict(refresh_policy="RANK_LEVEL_SIMULTANEOUS"), dict(refresh_policy="BANK_LEVEL_STAGGERED", tREFIb=200, tRFCb=120),
                dict(enable_self_refresh="True", sref_threshold=60, tCKESR=40), dict(AL=4), dict(refresh_policy="RANK_LEVEL_SIMULTANEOUS", enable_self_refresh="True", sref_threshold=20, tCKESR=20),
                dict(cmd_queue_size=1, trans_queue_size=2), dict(row_buf_policy="CLOSE_PAGE", unified_queue="True", trans_queue_size=4),
                dict(row_buf_policy="CLOSE_PAGE", refresh_policy="BANK_LEVEL_STAGGERED", tREFIb=200, tRFCb=120, tRAS=60)]
    for i, v in enumerate(variants):
        text = ini("DDR4_8Gb_x16_2400", channel_size=16384, **dict(fast, **v))
        add("var%d" % i, text, *FULL, "depth 3", "gaps 0 13" if thorough else "gaps %d" % (i % 2 * 13), "run 2400")
        # requests placed all around a refresh
        for k in range(0, 90, 6 if thorough else 18):
            add("vref%d_%d" % (i, k), text, *SMALL, "depth %d" % (3 if thorough else 2), "warm %d" % (640 + k), "gaps 0 5", "run 2400")
    # two ranks of HBM: dual command issue
    for i, v in enumerate([dict(channel_size=2048, channels=2), dict(channel_size=2048, channels=1, tCCD_S=2, row_buf_policy="CLOSE_PAGE"),
                           dict(channel_size=2048, refresh_policy="BANK_LEVEL_STAGGERED", channels=1)]):
        add("hbm%d" % i, ini("HBM2_8Gb_x128", **dict(dict(tREFI=900), **v)), *FULL, "depth %d" % (4 if thorough else 3), "gaps 0 7" if thorough else "gaps 3", "run 2700")
        # a column write to one rank and a read of the other can be ready in the same cycle
        add("hbmrw%d" % i, ini("HBM2_8Gb_x128", **dict(dict(tREFI=900), **v)), "L v 0 0 0 0 5 0", "L v 0 0 1 0 5 0", "L q 0 1 0 0 5 0", "L q 0 1 1 0 5 4",
            "L q 0 0 1 0 5 20", "depth %d" % (4 if thorough else 3), "gaps 0 2", "repeat 24", "run 2700")
    # HMC: vaults behind the link and quadrant crossbar; queues of one and two entries; one link
    vault = lambda *ch: ["%d 0 0 0 5 0" % c for c in ch]
    for i, (n, o) in enumerate([("HMC_2GB_4Lx16", {}), ("HMC_2GB_4Lx16", dict(xbar_queue_depth=1)), ("HMC2_8GB_4Lx16", dict(xbar_queue_depth=2, num_links=2)),
                                ("HMC_4GB_4Lx16", dict(num_links=1, xbar_queue_depth=2, block_size=128)), ("HMC_2GB_4Lx16", dict(block_size=32, trans_queue_size=2, cmd_queue_size=1))]):
        add("hmc%d" % i, ini(n, **dict(fast, **o)), *letters(*vault(0, 4, 1), "0 0 0 1 5 0", "0 0 0 0 6 0"), "depth %d" % (4 if thorough else 3), "gaps 0 5" if thorough else "gaps 0", "run 1500")
        add("hmcl%d" % i, ini(n, **dict(fast, **o)), *letters(*vault(0, 4, 1), kinds="Rw"), "depth %d" % (4 if thorough else 3), "gaps 0", "repeat 24")
    # the read that a drained write waits for is still queued
    add("drain", ini("DDR4_8Gb_x16_2400", trans_queue_size=4, cmd_queue_size=2), *letters(A, RowB, ColC), "depth %d" % (5 if thorough else 4),
        "gaps 0", "repeat 8")
    if prop == "P12" or prop == "all":
        # sustained load over several refresh intervals
        for i, n in enumerate(BASE):
            sysl = letters("0 0 0 0 5 0", "0 0 1 0 6 3", kinds="RW") + letters("0 0 0 0 7 1", "0 1 1 1 9 2", kinds="rw")
            add("load%d" % i, ini(n, tREFI=1500), *sysl, "depth 2" if not thorough else "depth 3", "repeat 100000", "run 6000")
        for i, v in enumerate(variants[:6] + variants[7:]):
            add("vload%d" % i, ini("DDR4_8Gb_x16_2400", channel_size=16384, **dict(dict(tREFI=1500), **v)), *sysl,
                "depth 2" if not thorough else "depth 3", "repeat 100000", "run 6600")
        # all links contend for one quadrant, and for two; none of them may be passed over for as long as the load lasts
        for i, (n, o) in enumerate([("HMC_2GB_4Lx16", {}), ("HMC2_8GB_4Lx16", dict(xbar_queue_depth=2)), ("HMC_2GB_4Lx16", dict(block_size=32, num_links=2))]):
            add("hmcs%d" % i, ini(n, **o), *letters(*vault(0, 1, 2, 4), kinds="rw"), "depth %d" % (3 if thorough else 2), "repeat 100000", "run 12000", "age 7500")
        # shipped refresh intervals
        for n in devs() if thorough else devs()[::4]:
            add("ship_" + n, ini(n), *letters("0 0 0 0 5 0", "0 1 1 1 9 2", kinds="Rw"), "depth 1", "repeat 100000", "run 40000")
    if prop == "P11" or prop == "all":
        # every bank of the device, a new row each time
        allb = lambda kind: ["L %s 0 0 %d %d 3 0" % (kind, b % 2, b // 2) for b in range(8)]
        for i, n in enumerate(BASE):
            add("act%d" % i, ini(n), *allb("r"), "depth 2", "gaps 0", "repeat %d" % (60 if thorough else 24))
            # 32 activates in a window need many banks in flight
            add("act32_%d" % i, ini(n, **({"t32AW": 420} if n[:4] == "GDDR" else {})), *(["L r 0 0 %d %d 3 0" % (b % 4, b // 4) for b in range(16)]),
                *(["prog " + " ".join(map(str, p)) for p in (range(16), range(15, -1, -1), [b // 4 + b % 4 * 4 for b in range(16)])]), "repeat 12")
        for i, v in enumerate(variants):
            for k, e in enumerate([{}, dict(tRAS=26), dict(tRAS=60)]):
                add("loadp%d_%d" % (i, k), ini("DDR4_8Gb_x16_2400", channel_size=16384, **dict(dict(fast, **v), **e)), *allb("r"),
                    "depth %d" % (3 if thorough else 2), "repeat %d" % (400 if thorough else 150))
        # every timing parameter in turn made dominant, and made negligible
        for pol in ("OPEN_PAGE", "CLOSE_PAGE"):
            for ref in ("RANK_LEVEL_STAGGERED", "BANK_LEVEL_STAGGERED"):
                b = dict(channel_size=16384, row_buf_policy=pol, refresh_policy=ref, tREFI=700, tREFIb=200, tRFCb=120)
                for k, hi, lo in PAR:
                    for tag, val in (("hi", hi), ("lo", lo)):
                        if ref[0] == "B" and not thorough and k not in ("tRAS", "tRP", "tRFCb", "tWR", "tRTP", "tRRD_L"):
                            continue
                        add("par_%s_%s_%s%s" % (k, tag, pol[0], ref[0]), ini("DDR4_8Gb_x16_2400", **dict(b, **{k: val})), *letters(A, BankD, BgE, RankF, kinds="RWrw"),
                            "depth %d" % (3 if thorough else 2), "repeat 30")
        for n in devs() if thorough else devs()[::4]:
            add("dev_" + n, ini(n), *letters(A, RowB, BankD, BgE, RankF), "depth %d" % (3 if thorough else 2), "gaps 0 2", "repeat 2")
    return q


def main():
    prop = sys.argv[1]
    c = Check(prop, sys.argv[2] if len(sys.argv) > 2 else None)
    only = sys.argv[3].split(",") if len(sys.argv) > 3 else None
    nj = B.Ninja()
    vdir, _ = B.variant(B.merged(), "dram")
    exe = nj.exe("dram_seq", [B.HARNESS + "/dram.cpp"], vdir, ["dramsim3t"], defs="-DFMT_HEADER_ONLY=1 -DCMD_TRACE", link="-lsystemc -lpthread")
    roots = []
    for name, text, lines in scen(prop, c.thorough):
        if only and not any(name.startswith(o) for o in only):
            continue
        root = B.BUILD + "/%s/d_%s" % (B.repo_key(), name)
        B.write_root(root, {"dev.ini": text, "spec": "\n".join(["ini %s/dev.ini" % root] + lines) + "\n"})
        roots.append(root)
    nj.run()
    for i in range(0, len(roots), 20):
        if c.run_harness(exe, ["prop=" + prop, "scen=" + ",".join(roots[i:i + 20])]) and c.viol:
            break
    c.finish()


if __name__ == "__main__":
    main()
