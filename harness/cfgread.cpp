// P17/P18: the knobs and network files that config.py wrote, read by the
// simulator; and every history of knob writes up to a depth against a map.
#include "hutil.hpp"
#include <booksim_config.hpp>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <radsim_config.hpp>
#include <set>
#include <systemc.h>

static std::vector<std::string> tabs(const std::string &s) {
  std::vector<std::string> r;
  size_t i = 0;
  while (true) {
    size_t j = s.find('\t', i);
    r.push_back(s.substr(i, j == std::string::npos ? j : j - i));
    if (j == std::string::npos)
      return r;
    i = j + 1;
  }
}

// runs f in a child; true if it ended in an error (exit status != 0, abort, exception)
template <class F> static bool is_error(F f) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL})
      signal(s, SIG_DFL);
    struct rlimit z = {0, 0};
    setrlimit(RLIMIT_CORE, &z);
    ex::g_in_exec = false;
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    dup2(fd, 2);
    f();
    _exit(0);
  }
  int st;
  waitpid(p, &st, 0);
  ex::S->forks++;
  if (WIFSIGNALED(st))
    return WTERMSIG(st) == SIGABRT; // an uncaught exception or a failed assertion; a crash is no report
  return WEXITSTATUS(st) != 0;
}

// ------------------------------------------------------------ files
struct Case {
  std::string dir, what;
  int rads;
};

static void read_case(const Case &c) {
  radsim_config.ResizeAll(c.rads);
  ParseRADSimKnobs(c.dir + "/knobs");
  std::ifstream in(c.dir + "/expect");
  std::string line;
  std::map<std::string, BookSimConfig *> noc;
  RADSimConfig &R = radsim_config;
  auto bad = [&](const std::string &what, const std::string &got, const std::string &want) {
    ex::fail("%s is %s instead of %s (%s)", what.c_str(), got.c_str(), want.c_str(), c.what.c_str());
  };
  bool deep = getenv("CFG_DEEP");
  while (std::getline(in, line)) {
    auto t = tabs(line);
    ex::S->transitions++;
    ex::S->events++;
    if (t[0] == "f") {
      long a = R.GetIntKnobShared("inter_rad_bw_accept_cycles"), b = R.GetIntKnobShared("inter_rad_bw_total_cycles");
      if (a < 1 || b < a || a * atol(t[2].c_str()) != b * atol(t[1].c_str()))
        bad("knobs: the inter-RAD bandwidth", std::to_string(a) + "/" + std::to_string(b), t[1] + "/" + t[2]);
      continue;
    }
    if (t[0] == "n") {
      if (!noc.count(t[1])) {
        noc[t[1]] = new BookSimConfig;
        std::ifstream probe(c.dir + "/" + t[1]);
        if (!probe.good())
          bad("network: the file " + t[1], "missing", "there");
        noc[t[1]]->ParseFile(c.dir + "/" + t[1]);
      }
      std::string got = t[2] == "s" ? noc[t[1]]->GetStr(t[3]) : std::to_string(noc[t[1]]->GetInt(t[3]));
      if (got != t[4])
        bad("network: " + t[3] + " in " + t[1], got, t[4]);
      continue;
    }
    bool shared = t[2] == "-";
    unsigned r = shared ? 0 : atoi(t[2].c_str());
    const std::string &k = t[1];
    std::string what = "knobs: " + k + (shared ? "" : " of RAD " + t[2]);
    std::vector<std::string> want(t.begin() + 3, t.end());
    if (t[0] == "s" || t[0] == "i" || t[0] == "d") {
      bool ok;
      std::string got;
      if (t[0] == "s")
        got = shared ? R.GetStringKnobShared(k) : R.GetStringKnobPerRad(k, r), ok = got == want[0];
      else if (t[0] == "i")
        got = std::to_string(shared ? R.GetIntKnobShared(k) : R.GetIntKnobPerRad(k, r)), ok = got == want[0];
      else {
        double d = shared ? R.GetDoubleKnobShared(k) : R.GetDoubleKnobPerRad(k, r);
        got = std::to_string(d), ok = d == atof(want[0].c_str());
      }
      if (!ok)
        bad(what, got, want[0]);
    } else {
      std::vector<std::string> got;
      bool ok = true;
      std::string w, g;
      if (t[0] == "S") {
        got = shared ? R.GetStringVectorKnobShared(k) : R.GetStringVectorKnobPerRad(k, r);
        ok = got == want;
        for (size_t i = 0; ok && i < want.size(); i++)
          ok = (shared ? R.GetStringVectorKnobShared(k, i) : R.GetStringVectorKnobPerRad(k, i, r)) == want[i];
      } else if (t[0] == "I") {
        auto v = shared ? R.GetIntVectorKnobShared(k) : R.GetIntVectorKnobPerRad(k, r);
        for (int x : v)
          got.push_back(std::to_string(x));
        ok = got == want;
        for (size_t i = 0; ok && i < want.size(); i++)
          ok = (shared ? R.GetIntVectorKnobShared(k, i) : R.GetIntVectorKnobPerRad(k, i, r)) == atoi(want[i].c_str());
      } else {
        auto v = shared ? R.GetDoubleVectorKnobShared(k) : R.GetDoubleVectorKnobPerRad(k, r);
        ok = v.size() == want.size();
        for (size_t i = 0; i < v.size(); i++) {
          got.push_back(std::to_string(v[i]));
          ok = ok && v[i] == atof(want[i].c_str()) &&
               (shared ? R.GetDoubleVectorKnobShared(k, i) : R.GetDoubleVectorKnobPerRad(k, i, r)) == atof(want[i].c_str());
        }
      }
      if (!ok) {
        for (auto &x : got)
          g += x + ",";
        for (auto &x : want)
          w += x + ",";
        bad(what, "[" + g + "]", "[" + w + "]");
      }
      if (deep) {
        unsigned n = want.size();
        for (unsigned idx : {n, n + 1, n + 1000, 0xffffffffu})
          if (!is_error([&] {
                if (t[0] == "S")
                  shared ? R.GetStringVectorKnobShared(k, idx) : R.GetStringVectorKnobPerRad(k, idx, r);
                else if (t[0] == "I")
                  shared ? R.GetIntVectorKnobShared(k, idx) : R.GetIntVectorKnobPerRad(k, idx, r);
                else
                  shared ? R.GetDoubleVectorKnobShared(k, idx) : R.GetDoubleVectorKnobPerRad(k, idx, r);
              }))
            ex::fail("query: element %u of %s (%u values) is answered (%s)", idx, what.c_str(), n, c.what.c_str());
      }
    }
    if (!deep)
      continue;
    // the knob exists with this type only, and for the RADs of the cluster only
    struct Q {
      const char *kind;
      bool shared;
      std::function<bool(const std::string &, unsigned)> has;
      std::function<void(const std::string &, unsigned)> get;
    };
    static std::vector<Q> qs = {
        {"i", true, [](auto &k, unsigned) { return radsim_config.HasIntKnobShared(k); }, [](auto &k, unsigned) { radsim_config.GetIntKnobShared(k); }},
        {"d", true, [](auto &k, unsigned) { return radsim_config.HasDoubleKnobShared(k); }, [](auto &k, unsigned) { radsim_config.GetDoubleKnobShared(k); }},
        {"s", true, [](auto &k, unsigned) { return radsim_config.HasStringKnobShared(k); }, [](auto &k, unsigned) { radsim_config.GetStringKnobShared(k); }},
        {"I", true, [](auto &k, unsigned) { return radsim_config.HasIntVectorKnobShared(k); }, [](auto &k, unsigned) { radsim_config.GetIntVectorKnobShared(k); }},
        {"D", true, [](auto &k, unsigned) { return radsim_config.HasDoubleVectorKnobShared(k); }, [](auto &k, unsigned) { radsim_config.GetDoubleVectorKnobShared(k); }},
        {"S", true, [](auto &k, unsigned) { return radsim_config.HasStringVectorKnobShared(k); }, [](auto &k, unsigned) { radsim_config.GetStringVectorKnobShared(k); }},
        {"i", false, [](auto &k, unsigned r) { return radsim_config.HasIntKnobPerRad(k, r); }, [](auto &k, unsigned r) { radsim_config.GetIntKnobPerRad(k, r); }},
        {"d", false, [](auto &k, unsigned r) { return radsim_config.HasDoubleKnobPerRad(k, r); }, [](auto &k, unsigned r) { radsim_config.GetDoubleKnobPerRad(k, r); }},
        {"s", false, [](auto &k, unsigned r) { return radsim_config.HasStringKnobPerRad(k, r); }, [](auto &k, unsigned r) { radsim_config.GetStringKnobPerRad(k, r); }},
        {"I", false, [](auto &k, unsigned r) { return radsim_config.HasIntVectorKnobPerRad(k, r); }, [](auto &k, unsigned r) { radsim_config.GetIntVectorKnobPerRad(k, r); }},
        {"D", false, [](auto &k, unsigned r) { return radsim_config.HasDoubleVectorKnobPerRad(k, r); }, [](auto &k, unsigned r) { radsim_config.GetDoubleVectorKnobPerRad(k, r); }},
        {"S", false, [](auto &k, unsigned r) { return radsim_config.HasStringVectorKnobPerRad(k, r); }, [](auto &k, unsigned r) { radsim_config.GetStringVectorKnobPerRad(k, r); }}};
    for (auto &q : qs) {
      bool mine = t[0] == q.kind && shared == q.shared;
      if (q.has(k, r) != mine)
        ex::fail("query: %s is reported %s as another type (%s)", what.c_str(), mine ? "missing" : "present", c.what.c_str());
      if (is_error([&] { q.get(k, r); }) == mine)
        ex::fail("query: reading %s with %s type is %s (%s)", what.c_str(), mine ? "its own" : "another", mine ? "an error" : "answered", c.what.c_str());
      if (mine && !shared)
        for (unsigned rr : {(unsigned)c.rads, (unsigned)c.rads + 1, 0xffffffffu})
          if (!is_error([&] { q.get(k, rr); }))
            ex::fail("query: %s of RAD %u of %d is answered (%s)", k.c_str(), rr, c.rads, c.what.c_str());
    }
  }
  ex::S->nontrivial++;
}

// ------------------------------------------------------------ histories of writes
// keys, values, RADs of the bounded space
static const char *KEY[] = {"a", "noc_vcs"};
static const int NK = 2, NR = 2, NV = 2;
struct Model { // kind (6) x scope (shared, RAD 0, RAD 1) x key -> value id + 1, 0 = never written
  int v[6][3][2];
};
static int ivals[] = {0, -7};
static double dvals[] = {0.0, 0.571};
static std::string svals[] = {"", "x y"};
static std::vector<int> Iv[] = {{}, {5, 0, -1}};
static std::vector<double> Dv[] = {{}, {1.25, 0}};
static std::vector<std::string> Sv[] = {{}, {"p", "", "q r"}};

static void apply(RADSimConfig &R, int kind, int scope, int key, int val) {
  std::string k = KEY[key];
  unsigned r = scope - 1;
  switch (kind * 2 + (scope > 0)) {
  case 0: R.AddIntKnobShared(k, ivals[val]); break;
  case 1: R.AddIntKnobPerRad(k, ivals[val], r); break;
  case 2: R.AddDoubleKnobShared(k, dvals[val]); break;
  case 3: R.AddDoubleKnobPerRad(k, dvals[val], r); break;
  case 4: R.AddStringKnobShared(k, svals[val]); break;
  case 5: R.AddStringKnobPerRad(k, svals[val], r); break;
  case 6: R.AddIntVectorKnobShared(k, Iv[val]); break;
  case 7: R.AddIntVectorKnobPerRad(k, Iv[val], r); break;
  case 8: R.AddDoubleVectorKnobShared(k, Dv[val]); break;
  case 9: R.AddDoubleVectorKnobPerRad(k, Dv[val], r); break;
  case 10: R.AddStringVectorKnobShared(k, Sv[val]); break;
  case 11: R.AddStringVectorKnobPerRad(k, Sv[val], r); break;
  }
}
static bool has(RADSimConfig &R, int kind, int scope, const std::string &k) {
  unsigned r = scope - 1;
  switch (kind * 2 + (scope > 0)) {
  case 0: return R.HasIntKnobShared(k);
  case 1: return R.HasIntKnobPerRad(k, r);
  case 2: return R.HasDoubleKnobShared(k);
  case 3: return R.HasDoubleKnobPerRad(k, r);
  case 4: return R.HasStringKnobShared(k);
  case 5: return R.HasStringKnobPerRad(k, r);
  case 6: return R.HasIntVectorKnobShared(k);
  case 7: return R.HasIntVectorKnobPerRad(k, r);
  case 8: return R.HasDoubleVectorKnobShared(k);
  case 9: return R.HasDoubleVectorKnobPerRad(k, r);
  case 10: return R.HasStringVectorKnobShared(k);
  default: return R.HasStringVectorKnobPerRad(k, r);
  }
}
// reads the knob and compares it with value id val
static bool same(RADSimConfig &R, int kind, int scope, const std::string &k, int val) {
  unsigned r = scope - 1;
  auto each = [&](auto get, auto &v) {
    for (size_t i = 0; i < v.size(); i++)
      if (get(i) != v[i])
        return false;
    return true;
  };
  switch (kind * 2 + (scope > 0)) {
  case 0: return R.GetIntKnobShared(k) == ivals[val];
  case 1: return R.GetIntKnobPerRad(k, r) == ivals[val];
  case 2: return R.GetDoubleKnobShared(k) == dvals[val];
  case 3: return R.GetDoubleKnobPerRad(k, r) == dvals[val];
  case 4: return R.GetStringKnobShared(k) == svals[val];
  case 5: return R.GetStringKnobPerRad(k, r) == svals[val];
  case 6: return R.GetIntVectorKnobShared(k) == Iv[val] && each([&](int i) { return R.GetIntVectorKnobShared(k, i); }, Iv[val]);
  case 7: return R.GetIntVectorKnobPerRad(k, r) == Iv[val] && each([&](int i) { return R.GetIntVectorKnobPerRad(k, i, r); }, Iv[val]);
  case 8: return R.GetDoubleVectorKnobShared(k) == Dv[val] && each([&](int i) { return R.GetDoubleVectorKnobShared(k, i); }, Dv[val]);
  case 9: return R.GetDoubleVectorKnobPerRad(k, r) == Dv[val] && each([&](int i) { return R.GetDoubleVectorKnobPerRad(k, i, r); }, Dv[val]);
  case 10: return R.GetStringVectorKnobShared(k) == Sv[val] && each([&](int i) { return R.GetStringVectorKnobShared(k, i); }, Sv[val]);
  default: return R.GetStringVectorKnobPerRad(k, r) == Sv[val] && each([&](int i) { return R.GetStringVectorKnobPerRad(k, i, r); }, Sv[val]);
  }
}
static const char *KIND[] = {"int", "double", "string", "int vector", "double vector", "string vector"};
static const char *SCOPE[] = {"shared", "RAD 0", "RAD 1"};

static void compare(RADSimConfig &R, const Model &m, const std::string &hist, bool errors) {
  for (int kind = 0; kind < 6; kind++)
    for (int scope = 0; scope < 1 + NR; scope++)
      for (int key = 0; key < NK; key++) {
        int v = m.v[kind][scope][key];
        std::string k = KEY[key], what = std::string(KIND[kind]) + " knob " + k + " (" + SCOPE[scope] + ")";
        if (has(R, kind, scope, k) != (v > 0))
          ex::fail("history: the %s is reported %s after %s", what.c_str(), v ? "missing" : "present", hist.c_str());
        if (v && !same(R, kind, scope, k, v - 1))
          ex::fail("history: the %s does not have the value last written, after %s", what.c_str(), hist.c_str());
        if (!v && errors && !is_error([&] { same(R, kind, scope, k, 0); }))
          ex::fail("history: the %s was never written but a query is answered, after %s", what.c_str(), hist.c_str());
        ex::S->events++;
      }
}

static void walk(RADSimConfig &R, Model &m, std::string hist, int depth, int top, int part, int parts) {
  int op = 0;
  for (int kind = 0; kind < 6; kind++)
    for (int scope = 0; scope < 1 + NR; scope++)
      for (int key = 0; key < NK; key++)
        for (int val = 0; val < NV; val++, op++) {
          if (depth == top && op % parts != part)
            continue;
          RADSimConfig C = R;
          Model n = m;
          apply(C, kind, scope, key, val);
          n.v[kind][scope][key] = val + 1;
          std::string h = hist + KIND[kind] + " " + KEY[key] + " (" + SCOPE[scope] + ") = #" + std::to_string(val) + "; ";
          ex::S->transitions++;
          uint64_t x = 1;
          for (auto *p = &n.v[0][0][0]; p < &n.v[0][0][0] + 36; p++)
            x = hmix(x * 3 + *p);
          ex::visit(x);
          compare(C, n, h, depth >= top - (part == 0 ? 1 : 0) && depth >= 2);
          if (depth > 1)
            walk(C, n, h, depth - 1, top, part, parts);
          else
            ex::S->nontrivial++;
        }
}

int sc_main(int argc, char **argv) {
  Args a(argc, argv);
  ex::g_maxproc = 1;
  ex::g_cpu_limit_s = 800;
  if (a.kv.count("list")) {
    std::ifstream in(a.s("list"));
    std::string line;
    std::vector<Case> cases;
    while (std::getline(in, line)) {
      auto t = tabs(line);
      cases.push_back({t[0], t[2], atoi(t[1].c_str())});
    }
    ex::explore("configurations", 0, [&]() {
      size_t k = ex::branch(cases.size());
      mute();
      read_case(cases[k]);
      ex::visit(hmix(k + 1));
      ex::sample("%s: all knobs and network parameters read back", cases[k].what.c_str());
    });
  } else if (a.kv.count("api")) {
    auto pt = split(a.s("part"), '/');
    ex::explore("histories", 0, [&]() {
      mute();
      RADSimConfig R;
      R.ResizeAll(NR);
      Model m;
      memset(&m, 0, sizeof m);
      walk(R, m, "", a.i("api", 2), a.i("api", 2), atoi(pt[0].c_str()), atoi(pt[1].c_str()));
      ex::sample("all histories of %d writes, part %s", (int)a.i("api", 2), a.s("part").c_str());
    });
  } else {
    // knobs that do not exist
    std::vector<std::string> bad = {"bogus 1", "bogus 0 1", "noc_vc 0 1", "noc_vcss 0 1", "NOC_VCS 0 5", "noc_vcs_ 0 1", "design_clk_period 0 1"};
    std::vector<std::string> good = {"noc_vcs 0 5 ", "num_rads 1", "design_clk_periods 0 5.0 "};
    ex::explore("unknown knobs", 0, [&]() {
      int b = ex::branch(bad.size()), at = ex::branch(good.size() + 1);
      mute();
      std::string f = a.s("tmp", "/tmp") + "/cfgread_" + std::to_string(getpid()), text;
      for (size_t i = 0; i <= good.size(); i++) {
        if ((int)i == at)
          text += bad[b] + "\n";
        if (i < good.size())
          text += good[i] + "\n";
      }
      std::ofstream(f) << text;
      bool e = is_error([&] {
        radsim_config.ResizeAll(1);
        ParseRADSimKnobs(f);
      });
      unlink(f.c_str());
      if (!e)
        ex::fail("file: the unknown knob line \"%s\" is accepted", bad[b].c_str());
      ex::S->nontrivial++;
      ex::visit(hmix(b * 16 + at));
    });
  }
  int rc = ex::report();
  fflush(stdout);
  _exit(rc);
}
