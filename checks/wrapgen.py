"""P21: every module description of a bounded grammar goes through the real
generate_port_mappings.py and generate_wrapper.py command lines. The port map is
compared with what the description declares; the generated wrappers are compiled
against the simulator and run with stand-in RTL models that record what each of
their ports is connected to."""
import itertools, json, multiprocessing as mp, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build as B
from vlib.check import Check

SCR = B.RS + "/scripts"
WORK = B.VERIF + "/.build/wrapgen.%d" % os.getpid()
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")

# -------------------------------------------------------- module descriptions
# a port: (direction, type, signed, range, name); a module: dict with the ports, the style and the comments
TYPES = ["", "logic", "reg", "wire", "tri", "triand", "trior", "tri0", "tri1", "wand", "wor", "supply0", "supply1"]
RANGES = ["", "[7:0]", "[0:7]", "[0:0]", "[5:3]", "[3:5]", "[0:1]", "[1023:0]", "[15:8]", "[W-1:0]", "[`W-1:0]", "[W-1:W-4]", "[ 7 : 0 ]", "[7:0][3:0]",
          "[W-1:0] [1:0]"]


def width(r):
    """declared width, None if it needs the value of a parameter or a macro"""
    if "W" in r:
        return None
    w = 1
    for a, b in re.findall(r"\[\s*(\d+)\s*:\s*(\d+)\s*\]", r):
        w *= abs(int(a) - int(b)) + 1
    return w


SIMPLE = re.compile(r"^\[\d+:\d+\]$")
NAMES = ["p", "endmodule_e", "data_in", "logic_en", "reg_sel", "regs", "wire_a", "tri_state", "tri0x", "supply0_ok", "signed_x", "input_a", "a_input",
         "output_q", "my_output", "inout_b", "parameter_p", "module_m", "x1", "_u", "P2", "axis_x", "aximm_x", "wandering", "axisx_y_z"]
STYLES = ["ansi", "params", "old", "tight"]
PARAMS = ["#(parameter W = 8) ", "# (\n  parameter W = 512, // Bitwidth of data (in bits)\n  parameter D = W / 8,   // input depth\n  parameter A = $clog2(D), // log\n"
          "  parameter integer N = 2 * A, // n\n  parameter [7:0] R = 8'd3\n) ", "#(parameter W = 8, X = 3) ", "#(parameter signed [3:0] W = 4, parameter Y = 64'hDEADBEEF)\n",
          "#(parameter DEPTH=8, W = (DEPTH + 1)) "]


class Mod:
    def __init__(self, name, decls, style="ansi", params=0, cm=None, sep="\n", body=""):
        """decls: [(dir, type, signed, range, [names])]; cm: {position: comment}"""
        self.name, self.decls, self.style, self.params, self.cm, self.sep, self.body = name, decls, style, params, cm or {}, "\r\n\t" if style == "tight" and sep == "\n" else sep, body

    def ports(self):
        """what is declared: name -> (direction, width or None, the script has to find the width itself)"""
        out = {}
        for d, t, s, r, names in self.decls:
            exact = (not r and t in ("", "reg", "logic") and not s) or (bool(SIMPLE.match(r)) and not (t and s))
            for n in names:
                assert n not in out
                out[n] = (d, width(r), exact)
        return out

    def text(self):
        c = lambda k: (" " + self.cm[k] + ("\n" if self.cm[k].startswith("//") else " ")) if k in self.cm else ""
        one = lambda d, t, s, r: ("" if self.style == "tight" and r else " ").join((" ".join(x for x in (d, t, "signed" if s else "") if x), r)) if r else \
            " ".join(x for x in (d, t, "signed" if s else "") if x)
        hdr = PARAMS[self.params] if self.style == "params" or self.params else ""
        s = c("before") + "module " + self.name + " " + c("name") + hdr + "("
        if self.style == "old":
            s += ", ".join(n for x in self.decls for n in x[4]) + ");\n" + c("first")
            for i, (d, t, sg, r, names) in enumerate(self.decls):
                s += "  " + one(d, t, sg, r) + " " + c("mid%d" % i) + ", ".join(names) + c("pre%d" % i) + ";" + c("post%d" % i) + self.sep
        else:
            s += self.sep + c("first")
            for i, (d, t, sg, r, names) in enumerate(self.decls):
                last = i == len(self.decls) - 1
                s += "  " + one(d, t, sg, r) + " " + c("mid%d" % i) + ", ".join(names) + c("pre%d" % i) + ("" if last else ",") + c("post%d" % i) + self.sep
            s += ");\n"
        return s + c("body") + self.body + "\nendmodule\n" + c("after")


def uses_w(m):
    return any("`W" in x[3] for x in m.decls)


def gen_single():
    """every form of one declaration, next to a clock"""
    i = 0
    for d, t, s, r, n, st in itertools.product(("input", "output", "inout"), TYPES, (0, 1), RANGES, NAMES, STYLES):
        if r not in ("", "[7:0]", "[3:5]", "[W-1:0]", "[7:0][3:0]") and n not in NAMES[:4]:
            continue
        if t not in ("", "reg", "logic", "wire") and n not in ("p", "reg_sel", t + "x"):
            continue
        yield Mod("s%d" % i, [("input", "", 0, "", ["clk"]), (d, t, s, r, [n])], st)
        i += 1


def gen_seq(depth):
    """every sequence of declarations of one or two names"""
    atoms = list(itertools.product(("input", "output", "inout"), (("", ""), ("reg", ""), ("", "[3:0]"), ("logic", "[0:15]")), (1, 2)))
    i = 0
    for k in range(1, depth + 1):
        for seq in itertools.product(atoms, repeat=k):
            if k == depth and depth > 2 and len(set(a[0] for a in seq)) == 1:
                continue
            decls = [(d, t, 0, r, ["n%d_%d" % (j, x) for x in range(c)]) for j, (d, (t, r), c) in enumerate(seq)]
            for st, sep in (("ansi", "\n"), ("ansi", " "), ("old", "\n")):
                yield Mod("q%d" % i, decls, st, 0, None, sep)
                i += 1


COMMENTS = ["// plain", "// input fake,", "// output reg [3:0] fake;", "// (see doc) ;)", "/* c */", "/* input fake */", "/* a, b */", "/* (x); */",
            "/* two\n   lines, input fake2 */", "/**/", "//# {{section}}", "//# doc", "/* // */", "// /* not open", "/* module zz (input q); endmodule */",
            "// module zz (input q); endmodule", "/* parameter Q = 3 */", "/* it's */"]
POS = ["before", "name", "first", "mid0", "pre0", "post0", "mid1", "pre1", "post1", "body", "after"]


def gen_comments(pairs):
    i = 0
    base = [("input", "", 0, "[3:0]", ["a", "b"]), ("output", "logic", 0, "", ["q"])]
    put = [{}] + [{p: c} for p in POS for c in COMMENTS]
    if pairs:
        put += [{p: c, p2: c2} for (p, p2) in itertools.combinations(POS, 2) for c in COMMENTS for c2 in COMMENTS]
    else:
        put += [{p: c, p2: c} for (p, p2) in itertools.combinations(POS, 2) for c in COMMENTS]
    for cm in put:
        for st in STYLES:
            yield Mod("c%d" % i, base, st, 0, cm)
            i += 1


BODIES = ["", "assign q = a;", "wire data_input = a;\nassign q = data_input + b;", "wire my_output ;\nassign q = my_output & a;",
          "sub u0 (.data_input(a), .output_x(q));", "reg [7:0] input_fifo_idata;\nwire input_fifo_push, input_fifo_pop;",
          "parameter X = 3;\nlocalparam Y = X / 2;", "always @(posedge a) begin q <= b; end", "// FIFO for input vectors sent to the MVM",
          "sub # (\n .W(3)\n) u1 (\n .i(a), .output_q(q) );", "wire x_inout = a, y_output = b;", "/* output extra */",
          "function [7:0] f;\n  input [7:0] x;\n  input y;\n  f = x;\nendfunction", "task t;\n  output z;\n  /* endtask */ inout zz;\nendtask",
          "function automatic f(input x, input [3:0] y);\n  f = x; // endfunction\nendfunction", 'initial $display("input fake; // \\" output x; /* ");',
          "wire functional = a;\nwire task_input = b;", "generate\n  if (1) begin : g assign q = a; end\nendgenerate"]


def gen_bodies():
    i = 0
    base = [("input", "", 0, "", ["a", "b"]), ("output", "", 0, "[3:0]", ["q"])]
    for b1, b2, st in itertools.product(BODIES, BODIES, STYLES):
        yield Mod("b%d" % i, base, st, 0, None, "\n", b1 + "\n" + b2)
        i += 1
    for p, st in itertools.product(range(len(PARAMS)), ("params", "old")):
        for b1 in BODIES:
            yield Mod("b%d" % i, base, st, p, None, "\n", b1)
            i += 1


AXIS = dict(tvalid=1, tready=0, tdata=1, tstrb=1, tkeep=1, tlast=1, tid=1, tdest=1, tuser=1)  # 1: driven by the master
AXIMM = {}
for ch, sig, m in (("aw", "valid id addr len size burst user", 1), ("w", "valid id data last user", 1), ("ar", "valid id addr len size burst user", 1),
                   ("b", "valid id resp user", 0), ("r", "valid id data resp last user", 0)):
    for x in sig.split():
        AXIMM[ch + x] = m
    AXIMM[ch + "ready"] = 1 - m
SIG = dict(axis=AXIS, aximm=AXIMM)
IFN = ["a", "a_b", "rx0", "axis", "aximm_y", "t_valid", "x_axis_1"]


def axi(kind, role, name, sig, t="", r=""):
    drv = SIG[kind][sig] == (1 if role == "master" else 0)
    return ("output" if drv else "input", t, 0, r, ["%s_%s_%s" % (kind, name, sig)])


def decides(kind, sig):
    """the role follows from the direction of this signal: what the master drives, and the readies of its responses"""
    return bool(SIG[kind][sig]) and (kind == "axis" or True)


class AxiMod(Mod):
    """keeps which port belongs to which interface"""
    def __init__(self, name, items, style="ansi", extra=()):
        self.items = {}
        decls = list(extra)
        for kind, role, n, sig, t, r in items:
            d = axi(kind, role, n, sig, t, r)
            self.items[d[4][0]] = (kind, role, n, sig)
            decls.append(d)
        Mod.__init__(self, name, decls, style)


def gen_axi(deep):
    i = 0
    for kind in ("axis", "aximm"):
        sigs = list(SIG[kind])
        for role in ("master", "slave"):
            orders = [list(p) for k in (1, 2) for p in itertools.permutations(sigs, k)]
            if kind == "axis":
                orders += [list(p) for p in itertools.permutations(sigs, 3)]
            orders += [sigs[j:] + sigs[:j] for j in range(len(sigs))] + [list(reversed(sigs))]
            for o in orders:
                for n in (IFN if len(o) < 3 or deep else IFN[:2]):
                    yield AxiMod("x%d" % i, [(kind, role, n, s, "", "") for s in o])
                    i += 1
    # two and three interfaces, interleaved or not
    for combo in itertools.product(itertools.product(("axis", "aximm"), ("master", "slave")), repeat=3 if deep else 2):
        for names in itertools.permutations(["a", "a_b", "b"], len(combo)):
            for start in (0, 1, 2):
                for inter in (0, 1):
                    lists = []
                    for (kind, role), n in zip(combo, names):
                        s = list(SIG[kind])
                        s = s[start:] + s[:start]
                        lists.append([(kind, role, n, x, "logic" if start == 1 else "", "[7:0]" if start == 2 else "") for x in s])
                    items = [x for l in lists for x in l] if not inter else [x for y in itertools.zip_longest(*lists) for x in y if x]
                    yield AxiMod("x%d" % i, items, ("ansi", "old")[inter], [("input", "", 0, "", ["clk", "rst"])])
                    i += 1
    # the same name for interfaces of both kinds, in opposite roles
    for r1, r2 in itertools.product(("master", "slave"), repeat=2):
        for n in IFN:
            yield AxiMod("x%d" % i, [("axis", r1, n, "tvalid", "", ""), ("aximm", r2, n, "wvalid", "", ""), ("axis", r1, n, "tready", "", ""), ("aximm", r2, n, "wready", "", "")])
            i += 1


# -------------------------------------------------------------- the port map
def read_map(path):
    out, cur = [], None
    for l in open(path):
        f = l.split()
        if not f:
            continue
        if f[0] == "module":
            cur = (f[1], [])
            out.append(cur)
        else:
            cur[1].append(f)
    return out


def judge(m, lines, out):
    """problems of one module's port map"""
    want = m.ports()
    got = {}
    for f in lines:
        n = f[2]
        if n in got:
            return "port %s appears twice" % n
        got[n] = f
    if set(got) != set(want):
        return "ports %s instead of %s" % (sorted(set(got) - set(want)) or "missing " + str(sorted(set(want) - set(got))), sorted(want))
    items = getattr(m, "items", {})
    known = {(k, n) for k, r, n, s in items.values() if decides(k, s)}
    for n, (d, w, exact) in want.items():
        f = got[n]
        if n in items:
            k, role, iname, sig = items[n]
            full = [k, role, n, k + "_" + iname, sig]
            if f == full:
                continue
            if (k, iname) in known:
                return "%s: '%s' instead of '%s'" % (n, " ".join(f), " ".join(full))
        if len(f) != 4 or f[0] != d or f[3] != n:
            return "%s: '%s' instead of a line '%s WIDTH %s %s'" % (n, " ".join(f), d, n, n)
        if f[1] == "?":
            if exact:
                return "%s: width not found although it is %d" % (n, w)
            if n not in out:
                return "%s: width unknown, and no warning" % n
        elif w is not None and f[1] != str(w) or w is None:
            return "%s: width %s instead of %s" % (n, f[1], w)
    return None


def run_map(job):
    """one command line over many files; returns (problem, module text) or None, and the number of ports"""
    idx, mods, perfile = job
    d = "%s/m%d" % (WORK, idx)
    os.makedirs(d + "/modules/rtl")
    files = []
    for i in range(0, len(mods), perfile):
        f = "f%d.%s" % (i, "sv" if i % 2 else "v")
        with open(d + "/modules/rtl/" + f, "w") as h:
            h.write("`define W 8\n\n" + "\n".join(m.text() for m in mods[i:i + perfile]))
        files.append(f)
    p = subprocess.run([sys.executable, SCR + "/generate_port_mappings.py", d] + files, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
    out = p.stdout.decode()
    res, ports = None, 0
    if p.returncode != 0:
        res = ("generate_port_mappings.py failed: " + p.stderr.decode()[-300:], files[0])
    else:
        got = read_map(d + "/modules/rtl/port.map")
        if [g[0] for g in got] != [m.name for m in mods]:
            bad = next((m for g, m in itertools.zip_longest(got, mods) if not g or not m or g[0] != m.name), None)
            res = ("the port map has other modules than the files", bad.text() if bad else "")
        else:
            for m, (_, lines) in zip(mods, got):
                ports += len(lines)
                e = judge(m, lines, out)
                if e:
                    res = (e, m.text())
                    break
    shutil.rmtree(d)
    return res, ports


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


# ------------------------------------------------------------- malformed maps
GOOD = ["module m", "input 1 clk clk", "input 8 d d", "axis slave axis_a_tvalid axis_a tvalid", "aximm master aximm_b_wvalid aximm_b wvalid",
        "axis slave axis_a_tready axis_a tready", "aximm master aximm_b_wready aximm_b wready", "output 1 q q", "inout 2 z z"]


def bad_maps():
    for i, l in enumerate(GOOD):
        f = l.split()
        for j in range(1, len(f)):
            yield GOOD[:i] + [" ".join(f[:j] + f[j + 1:])] + GOOD[i + 1:], "a field missing"
        yield GOOD[:i] + [l + " more"] + GOOD[i + 1:], "a field too many"
        yield GOOD[:i] + ["bogus " + " ".join(f[1:])] + GOOD[i + 1:], "an unknown keyword"
        if i:
            yield GOOD[i:i + 1] + GOOD[:i] + GOOD[i + 1:], "a port before its module"
        if f[0] in ("input", "output", "inout"):
            for w in ("?", "W", "-3", "1.5", "8b", "[7:0]"):
                yield GOOD[:i] + [" ".join([f[0], w] + f[2:])] + GOOD[i + 1:], "width " + w
        if f[0] in ("axis", "aximm"):
            other = {"master": "slave", "slave": "master"}[f[1]]
            yield GOOD[:i] + [" ".join([f[0], other] + f[2:])] + GOOD[i + 1:], "an interface that is master and slave"
            both = [x.replace(" %s " % f[1], " boss ") if x.split()[0] == f[0] else x for x in GOOD]
            yield both, "an unknown role"


def run_bad(job):
    idx, lines, what = job
    d = "%s/b%d" % (WORK, idx)
    os.makedirs(d + "/modules/rtl")
    open(d + "/modules/rtl/port.map", "w").write("\n".join(lines) + "\n")
    p = subprocess.run([sys.executable, SCR + "/generate_wrapper.py", d, "m"], input=b"64\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
    shutil.rmtree(d)
    if (p.returncode == 0) != (what == ""):
        return "a port map with %s is %s" % (what or "no defect", "accepted" if what else "refused: " + p.stderr.decode()[-200:]), "\n".join(lines)


# ------------------------------------------------------------------ wrappers
STUB = r'''
#pragma once
#include <systemc.h>
#include <typeinfo>
#include <vector>
#include <map>
#include <string>
struct VPort { std::vector<std::pair<void *, const std::type_info *>> b; template <class T> void operator()(T &x) { b.push_back({(void *)&x, &typeid(T)}); } };
struct VStub { std::string top; std::map<std::string, VPort *> ports; int finals = 0; static std::vector<VStub *> &all() { static std::vector<VStub *> v; return v; }
  static int &gone() { static int n = 0; return n; }
  virtual ~VStub() { gone()++; } };
'''


def stub(m):
    s = '#pragma once\n#include <vstub.hpp>\nclass V%s : public ::sc_core::sc_module, public VStub {\npublic:\n' % m.name
    for n in m.ports():
        s += "  VPort %s;\n" % n
    s += '  explicit V%s(sc_core::sc_module_name name) : sc_module(name) {\n    top = this->basename(); all().push_back(this);\n' % m.name
    for n in m.ports():
        s += '    ports["%s"] = &%s;\n' % (n, n)
    return s + "  }\n  virtual void final() { finals++; }\n};\n"


def expect(m, dataw):
    """the checks of one wrapper, as C++"""
    q = []
    items = getattr(m, "items", {})
    s = "static void check_%s(RADSimDesignContext *ctx, const std::string &inst) {\n  size_t n0 = VStub::all().size(); int g0 = VStub::gone();\n" % m.name
    s += "  %s *w = new %s(inst.c_str(), ctx);\n" % (m.name, m.name)
    s += '  chk(VStub::all().size() == n0 + 1, "%s: one RTL instance");\n  VStub *v = VStub::all().back();\n' % m.name
    s += '  chk(v->top.find(inst) == 0, "%s: the RTL instance is named after the module");\n  chk(w->module_name == inst, "%s: module name");\n' % (m.name, m.name)
    ifs = {}
    for n, (d, w, _) in m.ports().items():
        if n in items:
            k, role, iname, sig = items[n]
            ifs[k + "_" + iname] = (k, role)
            tgt, ty = "w->%s_%s.%s" % (k, iname, sig), None
        elif n == "clk":
            tgt, ty = "w->clk", "sc_in<bool>"
        else:
            tgt = "w->" + n
            ty = "%s<%s>" % ({"input": "sc_in", "output": "sc_out", "inout": "sc_inout"}[d], "bool" if w == 1 else "sc_bv<%d> " % w)
        s += '  bound(v, "%s", (void *)&%s, typeid(%s), "%s");\n' % (n, tgt, ty or "decltype(%s)" % tgt, m.name)
        if ty:
            s += '  chk(typeid(%s) == typeid(%s), "%s: type of %s");\n' % (tgt, ty, m.name, n)
    cnt = {}
    for i, (k, role) in ifs.items():
        cnt[k, role] = cnt.get((k, role), 0) + 1
        s += '  reg(w->_ordered_%s_%s_ports, w->_%s_%s_ports, inst + ".%s", &w->%s, w, %d, %d, %d, "%s");\n' % (k, role, k, role, i, i, dataw, k == "aximm", 0, m.name)
    for k in ("axis", "aximm"):
        for role in ("master", "slave"):
            c = cnt.get((k, role), 0)
            s += '  chk(w->_num_noc_%s_%s_ports == %d && w->_ordered_%s_%s_ports.size() == %d && w->_%s_%s_ports.size() == %d, "%s: number of %s %s ports");\n' % (
                k, role, c, k, role, c, k, role, c, m.name, k, role)
    s += '  chk(v->finals == 0, "%s: final() before the end");\n  delete w;\n  chk(VStub::gone() == g0 + 1, "%s: RTL instance deleted");\n' % (m.name, m.name)
    return s + "}\n"


MAIN = r'''
static long g_n = 0;
static void chk(bool ok, const std::string &what) { g_n++; if (!ok) { printf("@violation %s\n", what.c_str()); fflush(stdout); _exit(1); } }
static void bound(VStub *v, const char *port, void *p, const std::type_info &t, const char *m) {
  VPort *q = v->ports[port];
  std::string s = std::string(m) + ": RTL port " + port;
  chk(q->b.size() == 1, s + " connected " + std::to_string(q->b.size()) + " times");
  chk(q->b[0].first == p, s + " connected to another signal");
  (void)t;
}
template <class M, class P> static void reg(std::vector<std::string> &ord, M &mp, std::string name, P *p, RADSimModule *w, unsigned dw, bool mm, unsigned ty, const char *m) {
  std::string s = std::string(m) + ": interface " + name;
  int c = 0; for (auto &x : ord) c += x == name;
  chk(c == 1, s + " registered " + std::to_string(c) + " times");
  chk(mp.count(name) && mp[name] == p, s + " registered with another port");
  chk(w->_ports_dataw[name] == dw, s + " registered with data width " + std::to_string(w->_ports_dataw[name]) + " instead of " + std::to_string(dw));
  chk(w->_ports_is_aximm[name] == mm, s + " protocol");
  if (!mm) chk(w->_ports_types[name] == ty, s + " type");
}
'''


MAIN2 = r'''
int sc_main(int argc, char **argv) {
  std::string root = argv[1];
  sc_report_handler::set_actions(SC_WARNING, SC_DO_NOTHING);
  radsim_config.ResizeAll(2);
  std::string knobs = root + "/sim/radsim_knobs";
  ParseRADSimKnobs(knobs);
  sim_log.SetLogSettings(0, root + "/wrapgen.log");
  mkdir((root + "/wrapgen").c_str(), 0755);
  std::string dd = root + "/wrapgen";
  std::ofstream(dd + "/vtest.place") << "";
  std::ofstream(dd + "/vtest.clks") << "";
  radsim_config.AddStringKnobPerRad("radsim_user_design_root_dir", dd, 0);
  RADSimDesignContext *ctx = new RADSimDesignContext(0);
'''


def wrapper_mods():
    """what the wrappers are made for"""
    W = ["", "[1:0]", "[31:0]", "[127:0]", "[0:1]"]
    out, i = [], 0
    plain = [("input", "", 0, "", ["clk"]), ("input", "", 0, "", ["rst"])]
    for d, r in itertools.product(("input", "output", "inout"), W):
        out.append(Mod("w%d" % i, plain + [(d, "", 0, r, ["p"]), ("output", "logic", 0, "[63:0]", ["q"])]))
        i += 1
    full = lambda k, r, n: [(k, r, n, s, "", "") for s in SIG[k]]
    sets = [[("axis", "master")], [("axis", "slave")], [("aximm", "master")], [("aximm", "slave")]]
    sets += [list(p) for p in itertools.product([("axis", "master"), ("axis", "slave"), ("aximm", "master"), ("aximm", "slave")], repeat=2)]
    sets += [[("axis", "slave"), ("axis", "slave"), ("axis", "master")], [("axis", "slave"), ("axis", "master"), ("aximm", "slave"), ("aximm", "master")]]
    for st in sets:
        for first in (0, 1):
            items = []
            for j, (k, r) in enumerate(st):
                s = full(k, r, ("rx", "tx_0", "m1", "m2")[j])
                items += s[first:] + s[:first]
            out.append(AxiMod("w%d" % i, items, "ansi", plain + [("output", "", 0, "[31:0]", ["res"])] if first else plain))
            i += 1
    out.append(Mod("w%d" % i, [("input", "", 0, "", ["clk"])]))
    out.append(AxiMod("w%d" % (i + 1), full("axis", "slave", "only")))
    out.append(AxiMod("w%d" % (i + 2), [("axis", "slave", "s", "tvalid", "", ""), ("axis", "slave", "s", "tready", "", "")], "old", plain))
    return out


INST = [6, 15, 24, 25, 30, 80]  # lengths of the instance names


def wrappers(c, nj_libs):
    """generates, compiles and runs the wrappers; returns a problem or None"""
    mods = wrapper_mods()
    d = WORK + "/w"
    os.makedirs(d + "/modules/rtl")
    open(d + "/modules/rtl/a.v", "w").write("\n".join(m.text() for m in mods))
    p = subprocess.run([sys.executable, SCR + "/generate_port_mappings.py", d, "a.v", "--overwrite"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
    if p.returncode:
        return "generate_port_mappings.py failed: " + p.stderr.decode()[-300:], ""
    # one data width per module with interfaces, an empty answer for the default
    ans, dw = b"", {}
    for j, m in enumerate(mods):
        dw[m.name] = 0
        if getattr(m, "items", None):
            a = ("", "64", "512")[j % 3]
            dw[m.name] = int(a or 1024)
            ans += a.encode() + b"\n"
    p = subprocess.run([sys.executable, SCR + "/generate_wrapper.py", d] + [m.name for m in mods], input=ans, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
    if p.returncode:
        return "generate_wrapper.py failed on a generated port map: " + p.stderr.decode()[-300:], open(d + "/modules/rtl/port.map").read()
    st = d + "/stub"
    os.makedirs(st)
    open(st + "/vstub.hpp", "w").write(STUB)
    for m in mods:
        open(st + "/V%s.h" % m.name, "w").write(stub(m))
    nparts = 8
    exes = []
    for k in range(nparts):
        part = mods[k::nparts]
        s = "#include <cstring>\n#include <fstream>\n#include <sys/stat.h>\n#include <unistd.h>\n#include <systemc.h>\n#include <design_context.hpp>\n#include <radsim_config.hpp>\n#include <radsim_telemetry.hpp>\n#include <radsim_module.hpp>\n#include <vstub.hpp>\n"
        for m in part:
            s += '#include "%s/modules/%s.cpp"\n' % (d, m.name)
        s += MAIN + "".join(expect(m, dw[m.name]) for m in part)
        s += MAIN2
        for m in part:
            for n in INST:
                s += '  check_%s(ctx, "%s");\n' % (m.name, (m.name + "_" + "instance_" * 12)[:n])
        s += '  printf("@stat checked %ld\\n", g_n);\n  fflush(stdout);\n  _exit(0);\n}\n'
        open("%s/part%d.cpp" % (d, k), "w").write(s)
        exes.append("%s/part%d" % (d, k))
    return mods, exes


def main():
    c = Check("P21", sys.argv[1] if len(sys.argv) > 1 else None)
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    try:
        work(c)
    finally:
        shutil.rmtree(WORK, ignore_errors=True)
    c.finish()


def fail(c, e, text):
    c.violation(e, {"scenario": text[-1500:], "trace": ""})


def work(c):
    groups = [("declarations", list(gen_single())), ("sequences", list(gen_seq(4 if c.thorough else 3))), ("comments", list(gen_comments(c.thorough))),
              ("bodies", list(gen_bodies())), ("interfaces", list(gen_axi(c.thorough)))]
    pool = mp.Pool(8)
    # the wrappers are compiled while the port maps are generated
    n = 0
    jobs = []
    for g, mods in groups:
        c.extra.setdefault("modules", {})[g] = len(mods)
        c.sample("%s: %s" % (g, " ".join(mods[len(mods) // 2].text().split())))
        for k, ch in enumerate(chunks(mods, 2000)):
            jobs.append((n, ch, (1, 7, 100)[n % 3] if len(ch) < 300 else (7, 50)[n % 2]))
            n += 1
    res = pool.imap(run_map, jobs)
    bad = pool.imap(run_bad, [(0, GOOD, "")] + [(i + 1, l, w) for i, (l, w) in enumerate(bad_maps())])
    wr = wrappers(c, None)
    if isinstance(wr[0], str):
        fail(c, *wr)
    else:
        nj = B.Ninja()
        cfg = B.merged()
        vdir, root = B.variant(cfg, "wrapgen")
        nj.exe("wrapgen_base", [B.HARNESS + "/sim_globals.cpp", B.HARNESS + "/empty_main.cpp"], vdir, ["radsim", "noc", "booksim"])
        nj.run()
        libs = " ".join(nj.lib(l, vdir) for l in ("radsim", "noc", "booksim"))
        glob_o = nj.obj(B.HARNESS + "/sim_globals.cpp", vdir + "/h_wrapgen_base", [])
        ps = [subprocess.Popen("g++ -std=c++17 -O0 -w -fsanitize=address -fno-omit-frame-pointer -I%s/w/stub -I%s/w/modules %s %s.cpp %s -o %s -Wl,--start-group %s -Wl,--end-group -lsystemc -lpthread" % (
            WORK, WORK, " ".join("-I" + i for i in [vdir] + B.includes()), e, glob_o, e, libs), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for e in wr[1]]
        for p, e in zip(ps, wr[1]):
            out = p.communicate()[0].decode("utf8", "replace")
            if p.returncode:
                err = [l for l in out.splitlines() if "error" in l] or out.splitlines()[-3:]
                fail(c, "a generated wrapper does not compile: " + err[0][-300:].replace(WORK, ""), "\n".join(err[:5]))
                break
            r = subprocess.run([e, root], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(ENV, ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=0"))
            out = r.stdout.decode("utf8", "replace")
            v = re.search("@violation (.*)", out)
            st = re.search(r"@stat checked (\d+)", out)
            if v or not st or r.returncode:
                a = re.search("ERROR: (AddressSanitizer.*)", out)
                fail(c, v.group(1) if v else "a generated wrapper fails: " + (a.group(1)[:150] if a else out[-300:]), out[-1500:])
                break
            c.add(wrapper_checks=int(st.group(1)))
        c.add(wrappers=len(wr[0]), wrapper_instances=len(wr[0]) * len(INST))
    for (r, ports), (_, mods, _) in zip(res, jobs):
        c.add(states=len(mods), transitions=ports)
        if r and len(c.viol) < 5:
            fail(c, *r)
    for r in bad:
        c.add(port_maps=1)
        if r and len(c.viol) < 5:
            fail(c, *r)
    # the port maps that come with the example designs
    for f in sorted(__import__("glob").glob(B.RS + "/example-designs/*/modules/rtl/port.map")):
        shipped = [x for x in read_map(f)]
        rtl = os.path.dirname(f)
        d = WORK + "/ship_" + f.split("/")[-4]
        os.makedirs(d + "/modules")
        shutil.copytree(rtl, d + "/modules/rtl")
        names = [n for m, _ in shipped for n in os.listdir(rtl) if os.path.splitext(n)[0] == m and n.endswith((".v", ".sv"))]
        p = subprocess.run([sys.executable, SCR + "/generate_port_mappings.py", d, "--overwrite"] + names, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
        got = {m: l for m, l in read_map(d + "/modules/rtl/port.map")} if p.returncode == 0 else {}
        for m, lines in shipped:
            key = lambda l: sorted(tuple(x for i, x in enumerate(f) if not (i == 1 and f[0] in ("input", "output", "inout"))) for f in l)
            if key(got.get(m, [])) != key(lines):
                fail(c, "the port map of the example module %s differs from the one that comes with it" % m, f)
        c.add(example_modules=len(shipped))
    c.add(traces_validated_against_impl=c.stats.get("states", 0))
    c.assumptions.append("module descriptions of the grammar in checks/wrapgen.py: one range per declaration (or packed dimensions), the net types the parser lists, no preprocessor conditionals inside the port list")
    c.assumptions.append("verilated models replaced by stand-ins with one recorded port per declared RTL port")


main()
