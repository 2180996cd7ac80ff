"""P17 / P18: every configuration of a bounded space goes through the real
config.py; what comes out is read back by compiling the generated header, by the
simulator's own parsers and by running the generated main program, and compared
with an independent reading of the configuration."""
import itertools, json, multiprocessing as mp, os, shutil, subprocess, sys, traceback
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import yaml
from vlib import build as B
from vlib.check import Check

DESIGNS = ("add", "mlp", "dlrm")


class Omit:
    def __repr__(self):
        return "omitted"

    def __reduce__(self):
        return "OMIT"


OMIT = Omit()

# ------------------------------------------------------------ the space
# (section, parameter) -> values; the first one is the default of the space. Values of the lists
# that have one entry per NoC are given as pairs (first NoC, second NoC).
NOC = {
    "dims": [((2, 2), (3, 3)), ((3, 2), (2, 2)), ((2, 4), (4, 2)), ((1, 1), (1, 3)), ((4, 4), (2, 2)), ((5, 3), (3, 5)), ((8, 8), (2, 2)), ((1, 9), (9, 1))],
    "kind": [(("2d", "mesh"), ("2d", "mesh")), (("2d", "torus"), ("2d", "mesh")), (("3d", "mesh"), ("2d", "torus")),
             (("2d", "mesh"), ("3d", "mesh")), (("2d", "anynet"), ("2d", "mesh")), (("2d", "mesh"), ("2d", "anynet"))],
    "clk_period": [(1.0, 2.0), (0.571, 1.25), (4, 0.5)],
    "payload_width": [(82, 82), (166, 82), (41, 600), (1, 7)],
    "routing_func": [("dim_order", "xy_yx"), ("xy_yx", "dim_order"), ("min", "min")],
    "vct": [((5, 5), (5, 5)), ((3, 3), (5, 5)), ((1, 1), (2, 1)), ((10, 5), (3, 3)), ((4, 2), (1, 1)), ((9, 3), (16, 4)), ((8, 4), (17, 1)), ((33, 3), (64, 2))],
    "vc_buffer_size": [(8, 16), (1, 4), (32, 8)],
    "output_buffer_size": [(8, 2), (1, 8), (16, 1)],
    "router_uarch": [("iq", "iq"), ("event", "chaos")],
    "vc_allocator": [("islip", "wavefront"), ("max_size", "islip"), ("separable_input_first", "pim")],
    "sw_allocator": [("islip", "pim"), ("wavefront", "select"), ("loa", "islip")],
    "credit_delay": [(1, 2), (2, 1), (5, 0)],
    "routing_delay": [(1, 2), (0, 1), (3, 0)],
    "vc_alloc_delay": [(1, 3), (2, 1), (4, 1)],
    "sw_alloc_delay": [(1, 4), (2, 1), (3, 1)],
}
NOC_ONE = {"packet_id_width": [OMIT, 8, 64], "max_num_router_dest_interfaces": [OMIT, 1, 2, 5, 32, 33]}
ADAPT = {
    "clk_period": [(1.25, 2.5), (0.5, 1.25), (4, 3)],
    "fifo_size": [(16, 8), (2, 16), (64, 1)],
    "obuff_size": [(2, 1), (1, 2), (7, 3)],
    "in_arbiter": [("fixed_rr", "priority_rr"), ("priority_rr", "fixed_rr")],
    "out_arbiter": [("priority_rr", "fixed_rr"), ("fixed_rr", "priority_rr")],
    "vc_mapping": [("direct", "direct"), ("other", "direct")],
}
IFACE = {
    "max_axis_tdata_width": [512, 8, 1024, OMIT], "axis_tuser_width": [75, 1, 300, OMIT], "axis_tkeep_width": [OMIT, 1, 64],
    "axis_tstrb_width": [OMIT, 1, 64], "axi_id_width": [OMIT, 1, 16], "axi_user_width": [OMIT, 1, 128], "max_axi_data_width": [OMIT, 32, 64, 1024],
}
CFG = {  # per configuration section, first entry for the first section, and so on
    "design": ["add", "mlp", "dlrm"],
    "clk_periods": [[5.0], [5.0, 2.5], [3.32, 1.5, 10]],
    "noc_placement": [["a.place"], ["b.place", "c.place"]],
    "dram": [OMIT, dict(num_controllers=2, clk_periods=[3.32, 2.0], queue_sizes=[64, 32], config_files=["DDR4_8Gb_x16_2400", "HBM2_8Gb_x128"]),
             dict(num_controllers=1, clk_periods=[1.5], queue_sizes=[16], config_files=["GDDR5_8Gb_x32"])],
}
CLUSTER = {
    "sim_driver_period": [5.0, 1.0, 2.5, OMIT], "telemetry_log_verbosity": [0, 2, OMIT],
    "telemetry_traces": [["t0"], [], ["Embedding LU", "Mem0"], ["a", "b", "c"], OMIT],
    "cluster_topology": [OMIT, "all-to-all"], "inter_rad_latency": [OMIT, 2100, 5.0, 1, 7.5, 0.1],
    "inter_rad_bw": [OMIT, 102.4, 25.6, 51.2, 12.8, 64, 1, 200, 30.72], "inter_rad_fifo_num_slots": [OMIT, 1, 16, 1000],
}
# which configuration each RAD uses, out of how many configuration sections
LAYOUT = [(1, (0,)), (2, (0, 1)), (2, (1, 0)), (2, (0, 0)), (1, (0, 0)), (3, (2, 0, 1)), (2, (1,)), (2, (1, 1, 0)), (3, (0, 1, 2)), (1, (0, 0, 0)),
          (1, (0,) * 9), (2, (0, 1) * 8 + (0,))]
NUMNOCS = [1, 2]
ORDER = ["config noc noc_adapters interfaces cluster", "noc noc_adapters config cluster interfaces", "cluster interfaces noc_adapters noc config",
         "noc cluster config interfaces noc_adapters"]
SHIFT = [0, 1, 2]  # rotates the per-section values of the configuration sections


def axes():
    a = [("layout", LAYOUT), ("num_nocs", NUMNOCS), ("order", ORDER)]
    a += [("noc." + k, v + [OMIT]) for k, v in NOC.items()]
    a += [("noc." + k, v) for k, v in NOC_ONE.items()]
    a += [("noc_adapters." + k, v + [OMIT]) for k, v in ADAPT.items()]
    a += [("interfaces." + k, v) for k, v in IFACE.items()]
    a += [("config." + k, SHIFT) for k in CFG]
    a += [("cluster." + k, v) for k, v in CLUSTER.items()]
    a += [("section." + s, [True, False]) for s in ("noc", "noc_adapters", "interfaces")]
    return a


AXES = axes()


def build(dev):
    """The configuration with the deviations dev = {axis: index}, and what it means; None if outside the domain."""
    g = {n: v[dev.get(n, 0)] for n, v in AXES}
    ncfg, rads = g["layout"]
    nn = g["num_nocs"]
    full = nn == 1
    for k, v in g.items():
        # defaults only describe one NoC
        if v is OMIT and k.startswith(("noc.", "noc_adapters.")) and k[4:] not in NOC_ONE and not full:
            return None
    if not full and not (g["section.noc"] and g["section.noc_adapters"]):
        return None
    m = {}  # the meaning
    noc, ad = {}, {}
    lst = lambda p: list(p[:nn])
    dflt = dict(dims=(8, 8), kind=("2d", "mesh"), clk_period=0.571, payload_width=166, routing_func="dim_order", vct=(3, 3), vc_buffer_size=8,
                output_buffer_size=8, router_uarch="iq", vc_allocator="islip", sw_allocator="islip", credit_delay=1, routing_delay=1,
                vc_alloc_delay=1, sw_alloc_delay=1)
    use = g["section.noc"]
    for k in NOC:
        v = g["noc." + k]
        if v is OMIT or not use:
            m["noc." + k] = [dflt[k]]
            continue
        m["noc." + k] = lst(v)
        if k == "dims":
            noc["dim_x"], noc["dim_y"] = [x for x, _ in lst(v)], [y for _, y in lst(v)]
        elif k == "kind":
            noc["type"], noc["topology"] = [x for x, _ in lst(v)], [y for _, y in lst(v)]
        elif k == "vct":
            noc["vcs"], noc["num_packet_types"] = [x for x, _ in lst(v)], [y for _, y in lst(v)]
        else:
            noc[k] = lst(v)
    for k, d in (("packet_id_width", 32), ("max_num_router_dest_interfaces", 32)):
        v = g["noc." + k]
        m["noc." + k] = d if v is OMIT or not use else v
        if v is not OMIT:
            noc[k] = v
    nodes, k_of = [], []
    for (x, y), (t, topo) in zip(m["noc.dims"], m["noc.kind"]):
        k = max(x, y)
        k_of.append(k)
        nodes.append(4 * k * k if t == "3d" else k * k)
    if any(topo == "anynet" for _, topo in m["noc.kind"]):
        # the user says how many nodes an irregular NoC has
        for i, (_, topo) in enumerate(m["noc.kind"]):
            if topo == "anynet":
                nodes[i] = 6
        noc["num_nodes"] = [n if topo == "anynet" else 0 for n, (_, topo) in zip(nodes, m["noc.kind"])]
        noc["anynet_file"] = ["/x/net%d" % i for i in range(nn)]
    if use and nn > 1 or dev.get("num_nocs"):
        noc["num_nocs"] = nn
    for k, d in (("clk_period", 1.25), ("fifo_size", 16), ("obuff_size", 2), ("in_arbiter", "fixed_rr"), ("out_arbiter", "priority_rr"),
                 ("vc_mapping", "direct")):
        v = g["noc_adapters." + k]
        if v is OMIT or not g["section.noc_adapters"]:
            m["noc_adapters." + k] = [d]
        else:
            m["noc_adapters." + k] = ad[k] = lst(v)
    iface = {}
    for k, d in (("max_axis_tdata_width", 512), ("axis_tuser_width", 75), ("axis_tkeep_width", 8), ("axis_tstrb_width", 8), ("axi_id_width", 8),
                 ("axi_user_width", 64), ("max_axi_data_width", 512)):
        v = g["interfaces." + k]
        m["interfaces." + k] = d if v is OMIT or not g["section.interfaces"] else v
        if v is not OMIT:
            iface[k] = v
    secs = []
    for i in range(ncfg):
        pick = {k: v[(i + g["config." + k]) % len(v)] for k, v in CFG.items()}
        s = dict(design=dict(name=pick["design"], noc_placement=pick["noc_placement"], clk_periods=pick["clk_periods"]))
        if pick["dram"] is not OMIT:
            s["dram"] = pick["dram"]
        secs.append(("config c%s" % "xyz"[i], s, pick))
    cl = {"num_rads": len(rads), "cluster_configs": ["c%s" % "xyz"[i] for i in rads]}
    for k, d in (("sim_driver_period", 5.0), ("telemetry_log_verbosity", 0), ("telemetry_traces", ["trace0", "trace1"]),
                 ("cluster_topology", "all-to-all"), ("inter_rad_latency", 5.0), ("inter_rad_bw", 25.6), ("inter_rad_fifo_num_slots", 1000)):
        v = g["cluster." + k]
        m["cluster." + k] = d if v is OMIT else v
        if v is not OMIT:
            cl[k] = v
    text = {}
    text["noc"], text["noc_adapters"], text["interfaces"], text["cluster"] = noc, ad, iface, cl
    out = {}
    for s in g["order"].split():
        if s == "config":
            for n, b, _ in secs:
                out[n] = b
        elif s == "cluster" or g["section." + s]:
            if text[s]:
                out[s] = text[s]
    m["nodes"], m["k"], m["rads"], m["secs"], m["nn"] = nodes, k_of, [secs[i][2] for i in rads], [s[2] for s in secs], nn
    return out, m


BAD = {  # inconsistent configurations
    "unknown NoC parameter": lambda c: c["noc"].update(bogus=[1]),
    "unknown adapter parameter": lambda c: c["noc_adapters"].update(bogus=[1]),
    "unknown interface parameter": lambda c: c["interfaces"].update(bogus=1),
    "unknown cluster parameter": lambda c: c["cluster"].update(bogus=1),
    "unknown design parameter": lambda c: c["config cx"]["design"].update(bogus=1),
    "unknown DRAM parameter": lambda c: c["config cx"].update(dram=dict(bogus=1)),
    "unknown topology": lambda c: c["noc"].update(topology=["ring"] * len(c["noc"]["topology"])),
    "unknown topology of the last NoC": lambda c: c["noc"]["topology"].__setitem__(-1, "ring"),
    "unknown NoC type": lambda c: c["noc"].update(type=["4d"] * len(c["noc"]["topology"]), topology=["mesh"] * len(c["noc"]["topology"])),
    "3D torus": lambda c: c["noc"].update(type=["3d"] * len(c["noc"]["topology"]), topology=["torus"] * len(c["noc"]["topology"])),
    "VCs not a multiple of the packet types": lambda c: c["noc"]["vcs"].__setitem__(-1, 7) or c["noc"]["num_packet_types"].__setitem__(-1, 5),
    "more than five packet types": lambda c: c["noc"]["vcs"].__setitem__(-1, 6) or c["noc"]["num_packet_types"].__setitem__(-1, 6),
    "irregular NoC without a node count": lambda c: c["noc"].update(topology=["anynet"] * len(c["noc"]["topology"]), anynet_file=["/x"] * 2) or c["noc"].pop("num_nodes", 0),
    "a RAD too few in cluster_configs": lambda c: c["cluster"].update(num_rads=c["cluster"]["num_rads"] + 1),
    "a RAD too many in cluster_configs": lambda c: c["cluster"].update(cluster_configs=c["cluster"]["cluster_configs"] * 2),
    "a configuration that does not exist": lambda c: c["cluster"]["cluster_configs"].__setitem__(-1, "nobody"),
}


# ------------------------------------------------------------ running config.py
def run_one(work, designs, text):
    """config.py in a forked child (its os.system is a stub); returns (exit status, outputs)."""
    for f in os.listdir(work + "/sim/noc"):
        os.unlink(work + "/sim/noc/" + f)
    for f in ("radsim_defines.hpp", "radsim_knobs", "main.cpp"):
        if os.path.exists(work + "/sim/" + f):
            os.unlink(work + "/sim/" + f)
    with open(work + "/example-designs/%s/config.yml" % designs[0], "w") as f:
        f.write(text)
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.chdir(work)
            dn = os.open(work + "/log", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            sys.argv = ["config.py"] + list(designs)
            os.system = lambda c: 0
            subprocess.run = subprocess.call = subprocess.check_call = lambda *a, **k: 0
            # the same loader, implemented in C
            if yaml.__with_libyaml__:
                yaml.safe_load = lambda t: yaml.load(t, Loader=yaml.CSafeLoader)
            exec(CODE, dict(__name__="__main__", __file__="config.py", __builtins__=__builtins__))
            rc = 0
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException:
            traceback.print_exc()
        os._exit(rc & 0xff)
    st = os.waitpid(pid, 0)[1]
    out = {}
    if st == 0:
        for f in ("radsim_defines.hpp", "radsim_knobs", "main.cpp"):
            p = work + "/sim/" + f
            out[f] = open(p).read().replace(work, "@ROOT@") if os.path.exists(p) else None
        for f in sorted(os.listdir(work + "/sim/noc")):
            out["noc/" + f] = open(work + "/sim/noc/" + f).read()
    else:
        out["log"] = open(work + "/log").read()[-300:]
    for d in DESIGNS:
        p = work + "/example-designs/%s/config.yml" % d
        if os.path.exists(p):
            os.unlink(p)
    return (st >> 8) or (st & 0x7f), out


CODE = None


def new_work(tag):
    global CODE
    w = B.BUILD + "/%s/cfgwork/%s" % (B.repo_key(), tag)
    shutil.rmtree(w, ignore_errors=True)
    for d in DESIGNS:
        os.makedirs(w + "/example-designs/" + d)
    os.makedirs(w + "/sim/noc")
    shutil.copyfile(B.RS + "/config.py", w + "/config.py")
    if CODE is None:
        CODE = compile(open(w + "/config.py").read(), "config.py", "exec")
    return w


def to_text(cfg):
    return yaml.dump(cfg, Dumper=getattr(yaml, 'CSafeDumper', yaml.SafeDumper), sort_keys=False, default_flow_style=None)


def design_args(m, extra=0):
    ds = []
    for r in m["secs"]:
        if r["design"] not in ds:
            ds.append(r["design"])
    return ds


def worker(args):
    tag, devs = args
    w = new_work(tag)
    res = []
    for kind, dev in devs:
        b = build(dev)
        if b is None:
            continue
        cfg, m = b
        if kind:
            try:
                BAD[kind](cfg)
            except (KeyError, IndexError):
                continue
        rc, out = run_one(w, design_args(m), to_text(cfg))
        res.append((kind, dev, rc, out, m))
    shutil.rmtree(w, ignore_errors=True)
    return res


def deviations(n):
    """Up to n deviations from the default configuration; three at a time over the first two alternatives of a parameter only."""
    for k in range(n + 1):
        for ax in itertools.combinations(AXES, k):
            for idx in itertools.product(*[range(1, len(v) if k < 3 else min(3, len(v))) for _, v in ax]):
                yield {a[0]: i for a, i in zip(ax, idx)}


def show(dev):
    vals = dict(AXES)
    return ", ".join("%s=%s" % (k, vals[k][i]) for k, i in dev.items()) or "the default configuration"


# ------------------------------------------------------------ the generated header
PROBE = """#include <cstdio>
#include <utility>
#include "radsim_defines.hpp"
struct P { std::pair<long, long> range(long a, long b) { return {a, b}; } };
#define V(x) printf("%s %ld\\n", #x, (long)(x));
#define F(x) { auto r = x(p); printf("%s %ld %ld\\n", #x, (long)r.first, (long)r.second); }
int main() {
  P p;
#ifdef SINGLE_RAD
  printf("SINGLE_RAD 1\\n");
#else
  printf("SINGLE_RAD 0\\n");
#endif
  printf("ROOT %s\\n", RADSIM_ROOT_DIR);
  V(NOC_LINKS_PAYLOAD_WIDTH) V(NOC_LINKS_VCID_WIDTH) V(NOC_LINKS_PACKETID_WIDTH) V(NOC_LINKS_TYPEID_WIDTH) V(NOC_LINKS_DEST_WIDTH)
  V(NOC_LINKS_DEST_INTERFACE_WIDTH) V(AXIS_MAX_DATAW) V(AXI4_MAX_DATAW) V(AXIS_USERW) V(AXI4_USERW) V(AXIS_STRBW) V(AXIS_KEEPW) V(AXIS_IDW)
  V(AXIS_DESTW) V(AXIS_DEST_FIELDW) V(AXI4_IDW) V(AXI4_ADDRW) V(AXI4_LENW) V(AXI4_SIZEW) V(AXI4_BURSTW) V(AXI4_RESPW) V(AXI4_NODE_ADDRW)
  V(AXI4_CTRLW) V(AXIS_PAYLOADW) V(AXIS_TRANSACTION_WIDTH) V(AXI4_PAYLOADW) V(AXI_TYPE_AR) V(AXI_TYPE_AW) V(AXI_TYPE_W) V(AXI_TYPE_R)
  V(AXI_TYPE_B) V(AXI_NUM_RSP_TYPES) V(AXI_NUM_REQ_TYPES)
  F(AXIS_TLAST) F(AXIS_TUSER) F(AXIS_TDATA) F(AXIS_TSTRB) F(AXIS_TKEEP) F(AXIS_TID) F(AXIS_TDEST) F(DEST_LOCAL_NODE) F(DEST_REMOTE_NODE)
  F(DEST_RAD) F(AXI4_LAST) F(AXI4_USER) F(AXI4_RESP) F(AXI4_DATA) F(AXI4_CTRL) F(AXI4_ADDR)
}
"""


def probe_header(a):
    i, text = a
    d = B.BUILD + "/%s/cfghdr/%d" % (B.repo_key(), i)
    os.makedirs(d, exist_ok=True)
    with open(d + "/radsim_defines.hpp", "w") as f:
        f.write(text)
    with open(d + "/p.cpp", "w") as f:
        f.write(PROBE)
    p = subprocess.run(["g++", "-w", "-O0", "-I" + d, d + "/p.cpp", "-o", d + "/p"], stderr=subprocess.PIPE, text=True)
    if p.returncode:
        r = {"error": p.stderr[:300]}
    else:
        r = {}
        for l in subprocess.run([d + "/p"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
            t = l.split(" ", 1)
            r[t[0]] = t[1] if t[0] == "ROOT" else tuple(int(x) for x in t[1].split()) if " " in t[1] else int(t[1])
    shutil.rmtree(d)
    return i, r


def check_header(h, m):
    if "error" in h:
        return "header: the generated header does not compile: " + h["error"]
    I = lambda k: m["interfaces." + k]
    exact = dict(NOC_LINKS_PAYLOAD_WIDTH=max(m["noc.payload_width"]), NOC_LINKS_PACKETID_WIDTH=m["noc.packet_id_width"],
                 AXIS_MAX_DATAW=I("max_axis_tdata_width"), AXI4_MAX_DATAW=I("max_axi_data_width"), AXIS_USERW=I("axis_tuser_width"),
                 AXI4_USERW=I("axi_user_width"), AXIS_STRBW=I("axis_tstrb_width"), AXIS_KEEPW=I("axis_tkeep_width"), AXI4_IDW=I("axi_id_width"),
                 SINGLE_RAD=int(len(m["rads"]) == 1), ROOT="@ROOT@", AXI4_ADDRW=64, AXI4_LENW=8, AXI4_SIZEW=3, AXI4_BURSTW=2, AXI4_RESPW=2)
    for k, v in exact.items():
        if h[k] != v:
            return "header: %s is %s instead of %s" % (k, h[k], v)
    nodes, rads = max(m["nodes"]), len(m["rads"])
    holds = [("NOC_LINKS_VCID_WIDTH", max(v for v, _ in m["noc.vct"])), ("NOC_LINKS_TYPEID_WIDTH", max(t for _, t in m["noc.vct"])),
             ("NOC_LINKS_DEST_INTERFACE_WIDTH", m["noc.max_num_router_dest_interfaces"]), ("AXIS_DEST_FIELDW", max(nodes, rads)),
             ("AXI4_NODE_ADDRW", nodes)]
    for k, n in holds:
        if h[k] < 1 or 2 ** h[k] < n:
            return "header: %s = %d cannot tell %d values apart" % (k, h[k], n)
    w = lambda k: h[k][0] - h[k][1] + 1
    fields = dict(AXIS_TLAST=1, AXIS_TUSER=h["AXIS_USERW"], AXIS_TDATA=h["AXIS_MAX_DATAW"], AXIS_TSTRB=h["AXIS_STRBW"], AXIS_TKEEP=h["AXIS_KEEPW"],
                  AXIS_TID=h["AXIS_IDW"], AXIS_TDEST=h["AXIS_DESTW"], DEST_LOCAL_NODE=h["AXIS_DEST_FIELDW"], DEST_REMOTE_NODE=h["AXIS_DEST_FIELDW"],
                  DEST_RAD=h["AXIS_DEST_FIELDW"], AXI4_LAST=1, AXI4_USER=h["AXI4_USERW"], AXI4_RESP=h["AXI4_RESPW"], AXI4_DATA=h["AXI4_MAX_DATAW"],
                  AXI4_CTRL=h["AXI4_LENW"] + h["AXI4_SIZEW"] + h["AXI4_BURSTW"], AXI4_ADDR=h["AXI4_ADDRW"])
    for k, n in fields.items():
        if w(k) != n:
            return "header: the field %s has %d bits instead of %d" % (k, w(k), n)
    for total, fs in (("AXIS_PAYLOADW", ("AXIS_TLAST", "AXIS_TUSER", "AXIS_TDATA")),
                      ("AXIS_TRANSACTION_WIDTH", ("AXIS_TLAST", "AXIS_TUSER", "AXIS_TDATA", "AXIS_TSTRB", "AXIS_TKEEP", "AXIS_TID", "AXIS_TDEST")),
                      ("AXIS_DESTW", ("DEST_LOCAL_NODE", "DEST_REMOTE_NODE", "DEST_RAD")),
                      ("NOC_LINKS_DEST_WIDTH", ("DEST_LOCAL_NODE", "DEST_REMOTE_NODE", "DEST_RAD")),
                      ("AXI4_PAYLOADW", ("AXI4_LAST", "AXI4_USER", "AXI4_RESP", "AXI4_DATA")),
                      ("AXI4_PAYLOADW", ("AXI4_LAST", "AXI4_USER", "AXI4_RESP", "AXI4_CTRL", "AXI4_ADDR"))):
        used = set()
        for f in fs:
            hi, lo = h[f]
            if lo < 0 or hi >= h[total]:
                return "header: the field %s (%d..%d) does not fit into %s = %d" % (f, hi, lo, total, h[total])
            b = set(range(lo, hi + 1))
            if used & b:
                return "header: the field %s overlaps another field" % f
            used |= b
    types = [h["AXI_TYPE_" + x] for x in ("AR", "AW", "W", "R", "B")]
    if len(set(types)) != 5:
        return "header: two AXI packet types share an id"
    return None


# ------------------------------------------------------------ knobs and network files
def expectation(m):
    """Lines for the reader: kind, name, RAD or -, values."""
    L = []
    add = lambda *a: L.append("\t".join(str(x) for x in a))
    for r, c in enumerate(m["rads"]):
        add("s", "design_name", r, c["design"])
        add("s", "radsim_user_design_root_dir", r, "@ROOT@/example-designs/" + c["design"])
        add("i", "noc_num_nocs", r, m["nn"])
        d = c["dram"] if c["dram"] is not OMIT else dict(num_controllers=0, clk_periods=[2.0], queue_sizes=[64], config_files=["HBM2_8Gb_x128"])
        add("i", "dram_num_controllers", r, d["num_controllers"])
        add("D", "dram_clk_periods", r, *d["clk_periods"])
        add("I", "dram_queue_sizes", r, *d["queue_sizes"])
        add("S", "dram_config_files", r, *d["config_files"])
        add("S", "design_noc_placement", r, *c["noc_placement"])
        add("D", "design_clk_periods", r, *c["clk_periods"])
        add("D", "noc_clk_period", r, *m["noc.clk_period"])
        add("I", "noc_payload_width", r, *m["noc.payload_width"])
        add("I", "noc_vcs", r, *[v for v, _ in m["noc.vct"]])
        add("I", "noc_num_nodes", r, *m["nodes"])
        for k, t in (("clk_period", "D"), ("fifo_size", "I"), ("obuff_size", "I"), ("in_arbiter", "S"), ("out_arbiter", "S"), ("vc_mapping", "S")):
            add(t, "noc_adapters_" + k, r, *m["noc_adapters." + k])
        for i in range(m["nn"]):
            f = "noc%d_rad%d_config" % (i, r)
            (t, topo), k = m["noc.kind"][i], m["k"][i]
            add("n", f, "s", "topology", "cmesh" if t == "3d" else topo)
            if topo == "anynet":
                add("n", f, "s", "network_file", "/x/net%d" % i)
            else:
                add("n", f, "i", "k", k)
                add("n", f, "i", "n", 2)
                if t == "3d":
                    for x, v in (("c", 4), ("xr", 2), ("yr", 2)):
                        add("n", f, "i", x, v)
            add("n", f, "s", "routing_function", m["noc.routing_func"][i])
            vcs, types = m["noc.vct"][i]
            add("n", f, "i", "num_vcs", vcs)
            per = vcs // types
            for t, name in enumerate(("read_request", "write_request", "write_data", "read_reply", "write_reply")[:types]):
                add("n", f, "i", name + "_begin_vc", t * per)
                add("n", f, "i", name + "_end_vc", (t + 1) * per - 1)
            add("n", f, "i", "vc_buf_size", m["noc.vc_buffer_size"][i])
            add("n", f, "i", "output_buffer_size", m["noc.output_buffer_size"][i])
            add("n", f, "s", "router", m["noc.router_uarch"][i])
            for k in ("vc_allocator", "sw_allocator"):
                add("n", f, "s", k, m["noc." + k][i])
            for k in ("credit_delay", "routing_delay", "vc_alloc_delay", "sw_alloc_delay"):
                add("n", f, "i", k, m["noc." + k][i])
    C = lambda k: m["cluster." + k]
    add("s", "radsim_root_dir", "-", "@ROOT@")
    add("s", "cluster_topology", "-", C("cluster_topology"))
    add("i", "telemetry_log_verbosity", "-", C("telemetry_log_verbosity"))
    add("i", "num_rads", "-", len(m["rads"]))
    add("i", "inter_rad_fifo_num_slots", "-", C("inter_rad_fifo_num_slots"))
    period, width = Fraction(str(C("sim_driver_period"))), m["interfaces.max_axis_tdata_width"]
    lat = Fraction(str(C("inter_rad_latency"))) / period
    add("i", "inter_rad_latency_cycles", "-", -(-lat.numerator // lat.denominator))
    bw = Fraction(str(C("inter_rad_bw"))) * period / width
    # given to three decimals; more than one transfer per cycle is not possible
    q = round(bw * 1000)
    if abs(bw * 1000 - int(bw * 1000) - Fraction(1, 2)) > Fraction(1, 100):
        acc, tot = (q, 1000) if 0 < q <= 1000 else (1, 1)
        add("f", acc, tot)
    add("d", "sim_driver_period", "-", C("sim_driver_period"))
    add("S", "telemetry_traces", "-", *C("telemetry_traces"))
    add("i", "telemetry_num_traces", "-", len(C("telemetry_traces")))
    return L


def main_program_id(m):
    return json.dumps([r["design"] for r in m["rads"]] + [design_args(m)])


# ------------------------------------------------------------ main
def chunks(seq, n):
    seq = list(seq)
    k = max(1, min(400, (len(seq) + n - 1) // n))
    return [seq[i:i + k] for i in range(0, len(seq), k)]


def run_space(c, budget):
    devs = [("", d) for d in deviations(budget)]
    if c.prop == "P17":
        devs += [(b, d) for b in BAD for d in deviations(1)]
    with mp.Pool(8) as pool:
        res = []
        for r in pool.imap_unordered(worker, [("w%d" % i, x) for i, x in enumerate(chunks(devs, 32))]):
            res += r
    return res


def p17(c):
    res = run_space(c, 3 if c.thorough else 2)
    c.add(execs=len(res), choice_points=sum(max(1, len(r[1])) for r in res))
    good = []
    for kind, dev, rc, out, m in res:
        if kind:
            if rc == 0:
                return c.violation("rejection: accepted although there is %s (%s)" % (kind, show(dev)), {"scenario": kind, "trace": json.dumps(dev)})
        elif rc != 0:
            return c.violation("acceptance: config.py fails for %s: %s" % (show(dev), out["log"][-160:].strip().replace("\n", " ")), {"scenario": "config", "trace": json.dumps(dev)})
        else:
            good.append((dev, out, m))
    c.add(nontrivial=len(good), rejected=len(res) - len(good))
    # headers
    ids, need = {}, {}
    for dev, out, m in good:
        if not out["radsim_defines.hpp"] or not out["radsim_knobs"] or not out["main.cpp"]:
            return c.violation("output: a file is missing for %s" % show(dev), {"scenario": "config", "trace": json.dumps(dev)})
        ids.setdefault(out["radsim_defines.hpp"], len(ids))
    with mp.Pool(8) as pool:
        facts = dict(pool.imap_unordered(probe_header, [(i, t) for t, i in ids.items()], chunksize=4))
    for dev, out, m in good:
        e = check_header(facts[ids[out["radsim_defines.hpp"]]], m)
        if e:
            return c.violation("%s (%s)" % (e, show(dev)), {"scenario": "config", "trace": json.dumps(dev)})
    c.add(headers=len(ids))
    # knobs and network files, through the simulator's own readers
    nj = B.Ninja()
    vdir, root = B.variant(B.merged(), "cfgread")
    exe = nj.exe("cfgread", [B.HARNESS + "/cfgread.cpp", B.HARNESS + "/sim_globals.cpp"], vdir, ["radsim", "noc", "booksim"])
    mains = {}
    for dev, out, m in good:
        mains.setdefault(out["main.cpp"], (dev, m))
    mx = []
    hdr = {}
    for dev, out, m in good:
        hdr.setdefault((out["main.cpp"]), out)
    for i, (text, (dev, m)) in enumerate(mains.items()):
        mx.append((i, text, dev, m))
    # the program is linked with the header of one or of several RADs
    vd = {r: B.variant(B.merged(rads=r), "cfgmain") for r in (1, 2)}
    progs = []
    for i, text, dev, m in mx:
        v, vr = vd[min(2, len(m["rads"]))]
        d = B.BUILD + "/%s/cfgmain_%d" % (B.repo_key(), i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for ds in DESIGNS:
            with open(d + "/%s_system.hpp" % ds, "w") as f:
                f.write("#pragma once\n#include <cfgmain_system.hpp>\nCFG_SYSTEM(%s)\n" % ds)
        h = open(v + "/radsim_defines.hpp").read()
        with open(d + "/radsim_defines.hpp", "w") as f:
            f.write(h.replace('"' + B.RS + '"', '"%s"' % d))
        out = hdr[text]
        os.makedirs(d + "/sim")
        with open(d + "/sim/radsim_knobs", "w") as f:
            f.write(out["radsim_knobs"].replace("@ROOT@", d))
        with open(d + "/main_gen.cpp", "w") as f:
            f.write("#include <systemc.h>\n#define sc_main generated_main\n" + text)
        inc = [d]
        o = nj.obj(d + "/main_gen.cpp", d, [d, v] + B.includes(), pch=True)
        o2 = nj.obj(B.HARNESS + "/cfgmain.cpp", v + "/cfgmain", [v] + B.includes(), pch=True)
        arch = [nj.lib(l, v) for l in ("radsim", "noc", "booksim")]
        nj.out.append("build %s: link %s %s | %s\n  libs = -Wl,--start-group %s -Wl,--end-group -lsystemc -lpthread\n" % (
            d + "/prog", o, o2, " ".join(arch), " ".join(arch)))
        nj.targets.append(d + "/prog")
        progs.append((d, dev, m))
    nj.run()
    for d, dev, m in progs:
        p = subprocess.run([d + "/prog"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d, timeout=120)
        rec = [l.split()[1:] for l in p.stdout.splitlines() if l.startswith("@sys ")]
        want = [[r["design"], str(i)] for i, r in enumerate(m["rads"])]
        if p.returncode != 0 or rec != want:
            return c.violation("main: the generated program creates %s instead of %s, exit status %d (%s)" % (rec, want, p.returncode, show(dev)),
                               {"scenario": "config", "trace": json.dumps(dev)})
    c.add(programs=len(progs))
    read_back(c, exe, good, True)


def read_back(c, exe, good, nocs):
    d = B.BUILD + "/%s/cfgcases" % B.repo_key()
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    seen = {}
    parts = [[] for _ in range(8)]
    for dev, out, m in good:
        exp = expectation(m)
        # one directory per distinct output
        nf = {k[4:]: v for k, v in out.items() if k.startswith("noc/")}
        key = json.dumps([out["radsim_knobs"], nf, exp])
        if key in seen:
            continue
        i = seen[key] = len(seen)
        w = "%s/%d" % (d, i)
        os.makedirs(w)
        with open(w + "/knobs", "w") as f:
            f.write(out["radsim_knobs"])
        for k, v in nf.items():
            with open(w + "/" + k, "w") as f:
                f.write(v)
        with open(w + "/expect", "w") as f:
            f.write("\n".join(exp) + "\n")
        parts[i % 8].append("%s\t%d\t%s" % (w, len(m["rads"]), show(dev)))
    jobs = []
    for i, p in enumerate(parts):
        if p:
            with open("%s/list%d" % (d, i), "w") as f:
                f.write("\n".join(p) + "\n")
            jobs.append((exe, ["list=%s/list%d" % (d, i)]))
    c.run_parallel(jobs)
    c.add(configurations=len(seen))
    shutil.rmtree(d, ignore_errors=True)


def p18(c):
    res = run_space(c, 2 if c.thorough else 1)
    good = [(dev, out, m) for kind, dev, rc, out, m in res if rc == 0]
    nj = B.Ninja()
    vdir, root = B.variant(B.merged(), "cfgread")
    exe = nj.exe("cfgread", [B.HARNESS + "/cfgread.cpp", B.HARNESS + "/sim_globals.cpp"], vdir, ["radsim", "noc", "booksim"])
    nj.run()
    c.add(execs=0)
    jobs = [(exe, ["api=%d" % (4 if c.thorough else 3), "part=%d/8" % i]) for i in range(8)]
    c.run_parallel(jobs)
    if c.viol:
        return
    c.run_harness(exe, ["files=1"])
    if c.viol:
        return
    os.environ["CFG_DEEP"] = "1"
    read_back(c, exe, good, False)


def main():
    c = Check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None)
    os.makedirs(B.BUILD, exist_ok=True)
    (p17 if c.prop == "P17" else p18)(c)
    c.finish()


if __name__ == "__main__":
    main()
