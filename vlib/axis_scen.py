"""Scenario generator for the AXI-S / telemetry / credit checks."""
import os
from . import build as B


def noc(over):
    n = {}
    a = {}
    for k, v in over.items():
        if k.startswith("a_"):
            a[k[2:]] = [v]
        else:
            n[k] = [v]
    return {"noc": n, "noc_adapters": a}


def make(name, over=None, node=5.0, ports=(), place=(), mods=None, iface=None, opts=(), clks=None):
    """Returns (variant dir, root).  ports: spec lines; place: placement lines."""
    o = noc(over or {})
    if iface:
        o["interfaces"] = iface
    cfg = B.merged(o, clks=clks or (node,))
    vdir, root0 = B.variant(cfg, name)
    mods = mods or sorted({p.split()[1].split(".")[0] for p in ports})
    spec = ["place vtest.place", "clks vtest.clks", "period %g" % node] + ["mod " + m for m in mods] + list(ports) + list(opts)
    B.write_root(root0, {
        "example-designs/vtest/vtest.place": "\n".join(place) + "\n",
        "example-designs/vtest/vtest.clks": "\n".join("%s 0 0" % m for m in mods) + "\n",
        "spec": "\n".join(spec) + "\n"})
    link = B.BUILD + "/%s/s_%s" % (B.repo_key(), name)
    if os.path.islink(link):
        os.unlink(link)
    os.symlink(root0, link)
    return vdir, link


def aximm(name, inits, tgts, over=None, node=5.0, iface=None, opts=(), dataw=512, nops=4):
    """inits/tgts: node numbers.  Returns (variant dir, root)."""
    mods = ["i%d" % k for k in range(len(inits))] + ["t%d" % k for k in range(len(tgts))]
    cfg = B.merged(dict(noc(over or {}), **({"interfaces": iface} if iface else {})), clks=(node,))
    vdir, root0 = B.variant(cfg, name)
    place = ["%s 0 %d aximm" % (m, n) for m, n in zip(mods, list(inits) + list(tgts))]
    spec = ["period %g" % node, "dataw %d" % dataw] + ["init i%d %d" % (k, nops) for k in range(len(inits))] + [
        "tgt t%d" % k for k in range(len(tgts))] + list(opts)
    B.write_root(root0, {
        "example-designs/vtest/vtest.place": "\n".join(place) + "\n",
        "example-designs/vtest/vtest.clks": "\n".join("%s 0 0" % m for m in mods) + "\n",
        "spec": "\n".join(spec) + "\n"})
    link = B.BUILD + "/%s/s_%s" % (B.repo_key(), name)
    if os.path.islink(link):
        os.unlink(link)
    os.symlink(root0, link)
    return vdir, link


def fan_in(c=4, w=512, t=(0, 0), place_nodes=(0, 3, 2)):
    ports = ["m a.o %d %d %d c.i" % (w, t[0], c), "m b.o %d %d %d c.i" % (w, t[1], c), "s c.i %d 0" % w]
    place = ["a %d" % 0 + " %d axis" % place_nodes[0], "b 0 %d axis" % place_nodes[1], "c 0 %d axis" % place_nodes[2]]
    return ports, place


def fan_out(c=6, w=512):
    ports = ["m a.o %d 0 %d b.i,c.i,a.i" % (w, c), "s a.i %d 0" % w, "s b.i %d 0" % w, "s c.i %d 0" % w]
    place = ["a 0 1 axis", "b 0 2 axis", "c 0 3 axis"]
    return ports, place


def shared(c=3, w=512, types=(0, 1)):
    """two masters and two slaves behind one adapter, at two nodes; w: one width, or one per
    interface (then flows stay between interfaces of equal width)"""
    ports = []
    ws = w if isinstance(w, tuple) else (w, w)
    for m, o in (("a", "b"), ("b", "a")):
        for k in (0, 1):
            ports.append("s %s.i%d %d %d" % (m, k, ws[k], types[k]))
        for k in (0, 1):
            dst = "%s.i%d" % (o, k) + (",%s.i%d" % (o, 1 - k) if ws[0] == ws[1] else ",%s.i%d" % (m, k))
            ports.append("m %s.o%d %d %d %d %s" % (m, k, ws[k], types[k], c, dst))
    place = ["a 0 0 axis", "b 0 3 axis"]
    return ports, place


def mesh3(c=2, w=512):
    """all-to-one plus one-to-all over a 3x3 mesh"""
    names = "abcdefghi"
    ports, place = [], []
    for k, n in enumerate(names):
        ports.append("s %s.i %d 0" % (n, w))
        place.append("%s 0 %d axis" % (n, k))
    for k, n in enumerate(names[:8]):
        if k in (0, 2, 6, 3):
            ports.append("m %s.o %d 0 %d i.i,%s.i,e.i" % (n, w, c, names[(k * 5 + 7) % 9]))
    return ports, place


def cmesh(c=2, w=512):
    """2x2 concentrated mesh (16 nodes; every router has 4 of them)"""
    nodes = [0, 1, 6, 10, 15]
    names = "abcde"
    ports, place = [], []
    for k, n in enumerate(names):
        ports.append("s %s.i %d 0" % (n, w))
        place.append("%s 0 %d axis" % (n, nodes[k]))
        if k < 3:
            ports.append("m %s.o %d 0 %d %s.i,%s.i,%s.i" % (n, w, c, names[(k + 3) % 5], names[4], names[(k + 1) % 5]))
    return ports, place
