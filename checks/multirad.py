"""P14, P15: several RADs joined by the inter-RAD network through their portals."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build as B
from vlib import axis_scen as S
from vlib.check import Check


def root(name, rads, spec, over=None, place=None, mods=()):
    cfg = B.merged(S.noc(over or {}), rads=rads)
    vdir, r = B.variant(cfg, name)
    files = {"spec": "\n".join(["rads %d" % rads, "period 5"] + spec) + "\n"}
    if place:
        d = "example-designs/vtest/vtest."
        files[d + "place"] = "\n".join(place) + "\n"
        files[d + "clks"] = "".join("%s 0 0\n" % m for m in mods)
    B.write_root(r, files)
    link = B.BUILD + "/%s/s_%s" % (B.repo_key(), name)
    if os.path.islink(link):
        os.unlink(link)
    os.symlink(r, link)
    return vdir, link


def direct(name, rads, lat, acc, tot, slots, count=6, opts=()):
    return root(name, rads, ["net %d %d %d %d" % (lat, acc, tot, slots),
                              "m d.o %d %s" % (count, ",".join("%d:d.i" % r for r in range(rads))), "s d.i"] + list(opts))


def scenarios(thorough, prop):
    q = []
    t = 1 if thorough else 0
    u = 2 if prop == "P14" else 1
    # latency x bandwidth x queue depth, two and three RADs
    for lat in (0, 1, 2, 5, 12):
        for acc, tot in ((1, 1), (1, 2), (2, 3), (1, 4), (3, 4)):
            q.append((direct("ir2_%d_%d_%d" % (lat, acc, tot), 2, lat, acc, tot, 1000), 1 + t))
    for lat, acc, tot, slots in ((1, 1, 1, 1000), (3, 1, 1, 6), (3, 2, 3, 1000), (6, 1, 1, 4)):
        q.append((direct("ir3_%d_%d_%d_%d" % (lat, acc, tot, slots), 3, lat, acc, tot, slots), 1 + t))
    for slots in (1, 2, 3, 4):
        for lat in (1, 4):
            q.append((direct("irq2_%d_%d" % (slots, lat), 2, lat, 1, 1, slots), u + t))
            q.append((direct("irq3_%d_%d" % (slots, lat), 3, lat, 1, 1, slots), 1 + t))
    if prop == "P15":
        def noc(name, rads, net, ports, place, over=None, opts=(), budget=1):
            mods = [p.split()[0] for p in place]
            q.append((root(name, rads, ["noc", "net %d %d %d %d" % net] + ports + list(opts), over, place, mods), budget + t))

        one = ["s a.i", "s b.i", "m a.o 4 *:b.i,0:b.i,1:b.i,*:a.i", "m b.o 4 *:a.i,*:b.i"]
        pl = ["a 0 0 axis", "b 0 3 axis", "portal_inst 0 1 axis"]
        for i, o in enumerate([{}, dict(clk_period=1.25, a_clk_period=2.5), dict(clk_period=0.571, a_clk_period=1.25),
                               dict(payload_width=600), dict(a_fifo_size=8, a_obuff_size=1, vc_buffer_size=8), dict(clk_period=5.0, a_clk_period=5.0)]):
            noc("mr_%d" % i, 2, (3, 1, 1, 1000), one, pl, o)
        noc("mr_bw", 2, (1, 1, 4, 3), one, pl)
        noc("mr_slot", 2, (9, 2, 3, 1), one, pl)
        # the portal in other corners, several modules sending through one portal
        for k, n in enumerate((0, 2, 3)):
            rest = [x for x in range(4) if x != n]
            noc("mr_at%d" % k, 2, (2, 1, 1, 1000), ["s a.i", "s b.i", "s c.i", "m a.o 4 *:c.i,*:b.i", "m b.o 4 *:c.i", "m c.o 4 *:c.i"],
                ["a 0 %d axis" % rest[0], "b 0 %d axis" % rest[1], "c 0 %d axis" % rest[2], "portal_inst 0 %d axis" % n])
        noc("mr3", 3, (2, 1, 1, 4), ["s a.i", "s b.i", "m a.o 3 0:b.i,1:b.i,2:b.i"], pl)
        noc("mr3x3", 2, (2, 1, 1, 1000), ["s a.i", "s b.i", "m a.o 4 *:b.i,*:a.i,1:b.i", "m b.o 4 0:a.i"],
            ["a 0 2 axis", "b 0 7 axis", "portal_inst 0 5 axis"], dict(dim_x=3, dim_y=3))
        # two interfaces on the remote node
        q.append((root("mr_intf", 2, ["noc", "net 2 1 1 1000"] + ["s b.i", "s b.j", "m a.o 4 *:b.j,*:b.i"], None, pl, [x.split()[0] for x in pl]), -1))
    return q


def main():
    prop = sys.argv[1]
    c = Check(prop, sys.argv[2] if len(sys.argv) > 2 else None)
    only = sys.argv[3].split(",") if len(sys.argv) > 3 else None
    nj = B.Ninja()
    scen, exes = [], {}
    for (v, r), budget in scenarios(c.thorough, prop):
        if only and os.path.basename(r)[2:] not in only:
            continue
        scen.append((v, r, max(budget, 0), "K" if budget < 0 else ""))
        if v not in exes:
            exes[v] = nj.exe("multirad", [B.HARNESS + "/multirad.cpp", B.HARNESS + "/sim_globals.cpp"], v,
                             ["radsim", "noc", "booksim"])
    nj.run()
    c.run_scenarios(exes, scen, ["prop=" + prop])
    c.finish()


if __name__ == "__main__":
    main()
