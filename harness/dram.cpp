// DRAMsim3 driven directly (through its public MemorySystem interface) by every
// short request sequence; its own command trace (CMD_TRACE) is checked by an
// independent protocol monitor, its callbacks by an exactly-once monitor.
#include <deque>
#include "hutil.hpp"
#include <algorithm>
#include <cmath>
#include <memory_system.h>
#include <set>
#include <sys/stat.h>
#include <unordered_map>

static std::string g_prop;
#define P11 (g_prop == "P11" || g_prop == "all")
#define P12 (g_prop == "P12" || g_prop == "all")
#define FAIL(cond, ...)                                                                            \
  do {                                                                                             \
    cleanup();                                                                                     \
    if (cond)                                                                                      \
      ex::fail(__VA_ARGS__);                                                                       \
    ex::S->execs++;                                                                                \
    ex::finish_process(0);                                                                         \
  } while (0)
static std::string g_tmp, g_tmpbase;
static int g_nch_files;
static void cleanup() {
  if (g_tmp.empty())
    return;
  for (int c = 0; c < g_nch_files; c++)
    unlink((g_tmp + "/dramsim3_0ch_" + std::to_string(c) + "cmd.trace").c_str());
  rmdir(g_tmp.c_str());
}

#include "dramdev.hpp"

// ------------------------------------------------------------ command monitor
enum K { RD, RDA, WR, WRA, ACT, PRE, REFB, REF, SRE, SRX, NK };
static const char *KN[] = {"read", "read_p", "write", "write_p", "activate", "precharge", "refresh_bank", "refresh",
                           "self_refresh_enter", "self_refresh_exit"};
struct Cmd {
  long t;
  K k;
  int ch, ra, bg, ba;
  long ro, co;
  bool rank() const { return k == REF || k == SRE || k == SRX; }
  bool rw() const { return k <= WRA; }
  bool rd() const { return k == RD || k == RDA; }
  bool wr() const { return k == WR || k == WRA; }
  std::string show() const {
    char b[120];
    snprintf(b, sizeof b, "%s@%ld rank %d bank %d.%d row %#lx col %#lx", KN[k], t, ra, bg, ba, ro, co);
    return b;
  }
};
// smallest legal distance between two commands of one channel (p before n), 0 if unconstrained
static long need(const Dev &d, const Cmd &p, const Cmd &n, const char *&why) {
  bool sr = p.ra == n.ra;
  bool all = p.rank() || n.rank();
  bool sg = sr && (all || p.bg == n.bg), sb = sg && (all || p.ba == n.ba);
  bool nref = n.k == REF || n.k == REFB || n.k == SRE;
  why = "";
#define RULE(x, w)                                                                                 \
  do {                                                                                             \
    why = w;                                                                                       \
    return x;                                                                                      \
  } while (0)
  switch (p.k) {
  case ACT:
    if (sb && n.k == ACT) RULE(d.tRC, "tRC");
    if (sb && n.rd()) RULE(d.tRCDr, "tRCD");
    if (sb && n.wr()) RULE(d.tRCDw, "tRCD");
    if (sb && n.k == PRE) RULE(d.tRAS, "tRAS");
    if (sb && nref) RULE(d.tRC, "tRC (activate to refresh)");
    if (sr && n.k == ACT) RULE(sg ? d.tRRD_L : d.tRRD_S, "tRRD");
    if (sr && n.k == REFB) RULE(sg ? d.tRRD_L : d.tRRD_S, "tRRD (activate to bank refresh)");
    break;
  case RD:
  case RDA:
    if (n.rd()) RULE(!sr ? d.burst + d.tRTRS : sg ? d.tCCD_L : d.tCCD_S, "tCCD (read to read)");
    if (n.wr()) RULE(d.RL + d.burst - d.WL + d.tRTRS, "read to write turnaround");
    if (sb && n.k == PRE) RULE(d.AL + d.tRTP, "tRTP");
    if (sb && p.k == RDA && (n.k == ACT || nref)) RULE(d.AL + d.tRTP + d.tRP, "tRTP+tRP");
    break;
  case WR:
  case WRA:
    if (n.wr()) RULE(!sr ? d.burst : sg ? d.tCCD_L : d.tCCD_S, "tCCD (write to write)");
    if (n.rd())
      RULE(!sr ? d.WL + d.burst + d.tRTRS - d.RL : d.WL + d.burst + (sg ? d.tWTR_L : d.tWTR_S), "write to read turnaround");
    if (sb && n.k == PRE) RULE(d.WL + d.burst + d.tWR, "tWR");
    if (sb && p.k == WRA && (n.k == ACT || nref)) RULE(d.WL + d.burst + d.tWR + d.tRP, "tWR+tRP");
    break;
  case PRE:
    if (sb && (n.k == ACT || nref)) RULE(d.tRP, "tRP");
    if (sr && !sb && n.k == PRE) RULE(d.tPPD, "tPPD");
    break;
  case REF:
    if (sr && (n.k == ACT || nref)) RULE(d.tRFC, "tRFC");
    break;
  case REFB:
    if (sb && (n.k == ACT || nref)) RULE(d.tRFCb, "tRFCb");
    break;
  case SRE:
    if (sr && n.k == SRX) RULE(d.tCKESR, "tCKESR");
    break;
  case SRX:
    if (sr && (n.k == ACT || nref)) RULE(d.tXS, "tXS");
    break;
  default:
    break;
  }
  return 0;
}

static void protocol(const Dev &d, const std::vector<Cmd> &c) {
  std::map<std::tuple<int, int, int>, long> open; // bank -> open row
  std::map<int, bool> sref;
  std::map<int, std::vector<long>> acts;
  long horizon = std::max({d.tRFC, d.tRC, d.tXS, d.tCKESR, d.tRFCb}) + d.RL + d.WL + 64;
  size_t lo = 0;
  for (size_t i = 0; i < c.size(); i++) {
    const Cmd &n = c[i];
    while (c[lo].t + horizon < n.t)
      lo++;
    for (size_t j = lo; j < i; j++) {
      const char *w;
      long m = need(d, c[j], n, w);
      if (n.t - c[j].t < m)
        FAIL(P11, "timing: %s then %s: %ld cycles apart, %s requires %ld", c[j].show().c_str(), n.show().c_str(),
             n.t - c[j].t, w, m);
      if (n.t == c[j].t && !(d.dual && n.rw() != c[j].rw()))
        FAIL(P11, "command bus: %s and %s in the same cycle", c[j].show().c_str(), n.show().c_str());
    }
    auto b = std::make_tuple(n.ra, n.bg, n.ba);
    if (n.ra < 0 || n.ra >= d.ra || (!n.rank() && (n.bg < 0 || n.bg >= d.bg || n.ba < 0 || n.ba >= d.ba)))
      FAIL(P11, "state: %s outside the device", n.show().c_str());
    if (sref[n.ra] && n.k != SRX)
      FAIL(P11, "state: %s during self-refresh", n.show().c_str());
    switch (n.k) {
    case RD: case RDA: case WR: case WRA:
      if (!open.count(b) || open[b] != n.ro)
        FAIL(P11, "state: %s although row %#lx is open", n.show().c_str(), open.count(b) ? open[b] : -1l);
      if (n.k == RDA || n.k == WRA)
        open.erase(b);
      break;
    case ACT: {
      if (open.count(b))
        FAIL(P11, "state: %s while row %#lx is open", n.show().c_str(), open[b]);
      if (n.ro < 0 || n.ro >= d.ro)
        FAIL(P11, "state: %s outside the device", n.show().c_str());
      open[b] = n.ro;
      auto &a = acts[n.ra];
      if (a.size() >= 4 && n.t - a[a.size() - 4] < d.tFAW)
        FAIL(P11, "timing: %s is the fifth activate within %ld cycles, tFAW is %ld", n.show().c_str(),
             n.t - a[a.size() - 4], d.tFAW);
      if (d.t32AW && a.size() >= 32 && n.t - a[a.size() - 32] < d.t32AW)
        FAIL(P11, "timing: %s is the 33rd activate within %ld cycles, t32AW is %ld", n.show().c_str(),
             n.t - a[a.size() - 32], d.t32AW);
      a.push_back(n.t);
      break;
    }
    case PRE:
      open.erase(b);
      break;
    case REF: case SRE:
      for (auto &o : open)
        if (std::get<0>(o.first) == n.ra)
          FAIL(P11, "state: %s while bank %d.%d is open", n.show().c_str(), std::get<1>(o.first), std::get<2>(o.first));
      if (n.k == SRE)
        sref[n.ra] = true;
      break;
    case REFB:
      if (open.count(b))
        FAIL(P11, "state: %s while the bank is open", n.show().c_str());
      break;
    case SRX:
      if (!sref[n.ra])
        FAIL(P11, "state: %s outside self-refresh", n.show().c_str());
      sref[n.ra] = false;
      break;
    default:
      break;
    }
  }
}

static void refreshes(const Dev &d, const std::vector<Cmd> &c, long T, int ch) {
  bool bank = d.ref == "BANK_LEVEL_STAGGERED";
  long period = bank ? d.tREFIb * d.bg * d.ba * d.ra : d.tREFI;
  std::map<std::tuple<int, int, int>, std::vector<long>> r;
  std::set<int> slept;
  for (auto &x : c) {
    if (x.k == SRE)
      slept.insert(x.ra);
    if (!bank && x.k == REF)
      r[{x.ra, 0, 0}].push_back(x.t);
    if (bank && x.k == REFB)
      r[{x.ra, x.bg, x.ba}].push_back(x.t);
  }
  for (int a = 0; a < d.ra; a++)
    for (int g = 0; g < (bank ? d.bg : 1); g++)
      for (int b = 0; b < (bank ? d.ba : 1); b++) {
        if (slept.count(a))
          continue;
        auto &v = r[{a, g, b}];
        long last = 0, worst = 0, at = 0;
        for (long t : v) {
          if (t - last > worst)
            worst = t - last, at = last;
          last = t;
        }
        if (T - last > worst)
          worst = T - last, at = last;
        if (worst > 2 * period)
          FAIL(P12, "refresh: channel %d rank %d%s not refreshed for %ld cycles from cycle %ld (every %ld configured)", ch, a,
               bank ? (" bank " + std::to_string(g) + "." + std::to_string(b)).c_str() : "", worst, at, period);
        if ((long)v.size() < T / period - 1 || (long)v.size() > T / period + 1)
          FAIL(P12, "refresh: channel %d rank %d%s refreshed %zu times in %ld cycles (every %ld configured)", ch, a,
               bank ? (" bank " + std::to_string(g) + "." + std::to_string(b)).c_str() : "", v.size(), T, period);
      }
}

struct Letter {
  char kind;
  std::vector<int> f; // channel rank bg ba row col
};
struct Spec {
  std::string ini;
  int depth, warm, repeat;
  long run, bound, age;
  std::vector<Letter> alpha;
  std::vector<int> gaps;
  std::vector<std::vector<int>> fixed;
};
static Spec g;
static void read_spec(const std::string &f) {
  std::ifstream in(f);
  std::string line;
  g = Spec();
  g.repeat = 1;
  g.gaps = {0};
  g.bound = 6000;
  g.age = 1000000;
  while (std::getline(in, line)) {
    auto t = split(line, ' ');
    if (t.empty())
      continue;
    std::vector<int> v;
    for (size_t i = 1; i < t.size(); i++)
      v.push_back(atoi(t[i].c_str()));
    if (t[0] == "ini")
      g.ini = t[1];
    else if (t[0] == "depth")
      g.depth = v[0];
    else if (t[0] == "warm")
      g.warm = v[0];
    else if (t[0] == "repeat")
      g.repeat = v[0];
    else if (t[0] == "run")
      g.run = v[0];
    else if (t[0] == "bound")
      g.bound = v[0];
    else if (t[0] == "age")
      g.age = v[0];
    else if (t[0] == "gaps")
      g.gaps = v;
    else if (t[0] == "prog")
      g.fixed.push_back(v);
    else if (t[0] == "L")
      g.alpha.push_back({t[1][0], std::vector<int>(v.begin() + 1, v.end())});
  }
}

static void body() {
  mute();
  // the program (chosen first: the memory system is constructed per execution)
  std::vector<int> prog, gap;
  if (g.fixed.empty()) {
    for (int i = 0; i < g.depth; i++) {
      prog.push_back(ex::branch(g.alpha.size()));
      gap.push_back(g.gaps[ex::branch(g.gaps.size())]);
    }
  } else {
    prog = g.fixed[ex::branch(g.fixed.size())];
    gap.assign(prog.size(), 0);
  }
  Dev d{Ini(g.ini)};
  g_tmp = g_tmpbase + "/" + std::to_string(getpid());
  mkdir(g_tmp.c_str(), 0755);
  g_nch_files = d.ch;
  std::map<std::pair<uint64_t, bool>, std::deque<long>> open; // outstanding (address, write) and since when
  long clk = 0, lastcb = 0, ncb = 0, nadd = 0;
  uint64_t hist = 7;
  auto cb = [&](uint64_t a, bool w) {
    auto it = open.find({a, w});
    if (it == open.end())
      FAIL(P12, "callbacks: %s callback for address %#lx without an outstanding %s", w ? "write" : "read", (unsigned long)a,
           w ? "write" : "read");
    long age = clk - it->second.front();
    if (age > g.age)
      FAIL(P12, "progress: the %s of %#lx waited %ld cycles while others were served", w ? "write" : "read", (unsigned long)a, age);
    it->second.pop_front();
    if (it->second.empty())
      open.erase(it);
    ncb++;
    lastcb = clk;
    hist = hmix(hist ^ hmix(a * 2 + w) ^ clk * 131);
    ex::visit(hist);
    ex::S->transitions++;
  };
  auto *ms = new dramsim3::MemorySystem(g.ini, g_tmp, [&](uint64_t a) { cb(a, false); }, [&](uint64_t a) { cb(a, true); });
  if (ms->GetRanks() != d.ra || ms->GetChannels() != d.ch || ms->GetBankGroups() != d.bg || ms->GetBanksPerGroup() != d.ba)
    ex::fail("internal: geometry differs: %d ranks %d channels %d.%d banks, expected %d, %d, %d.%d", ms->GetRanks(),
             ms->GetChannels(), ms->GetBankGroups(), ms->GetBanksPerGroup(), d.ra, d.ch, d.bg, d.ba);
  std::map<std::tuple<int, int, int, int, long, long, bool>, long> wanted;
  auto tick = [&]() {
    ms->ClockTick();
    clk++;
  };
  for (int i = 0; i < g.warm; i++)
    tick();
  lastcb = clk;
  for (int r = 0; r < g.repeat && (g.run == 0 || clk < g.run); r++)
    for (size_t i = 0; i < prog.size(); i++) {
      const Letter &l = g.alpha[prog[i]];
      for (int k = 0; k < gap[i]; k++)
        tick();
      auto f = l.f;
      // r, w: the row advances with each repetition; q, v: the column does
      long row = l.kind == 'r' || l.kind == 'w' ? (f[4] + r) % d.ro : f[4];
      long col = (l.kind == 'q' || l.kind == 'v' ? f[5] + r : f[5]) % d.co;
      bool w = strchr("Wwv", l.kind);
      uint64_t a = d.addr(f[0] % d.ch, f[1] % d.ra, f[2] % d.bg, f[3] % d.ba, row, col);
      long t0 = clk;
      while (!ms->WillAcceptTransaction(a, w)) {
        tick();
        if (clk - t0 > g.bound)
          FAIL(P12, "progress: a %s is refused for %ld cycles", w ? "write" : "read", g.bound);
      }
      ms->AddTransaction(a, w);
      nadd++;
      open[{a, w}].push_back(clk);
      wanted[std::make_tuple(f[0] % d.ch, f[1] % d.ra, f[2] % d.bg, f[3] % d.ba, row, col, w)]++;
      tick();
    }
  long t0 = clk;
  while (!open.empty()) {
    tick();
    if (clk - std::max(lastcb, t0) > g.bound)
      FAIL(P12, "progress: %zu transactions outstanding, no callback for %ld cycles, e.g. %s of %#lx", open.size(), g.bound,
           open.begin()->first.second ? "write" : "read", (unsigned long)open.begin()->first.first);
  }
  if (ncb != nadd)
    FAIL(P12, "callbacks: %ld callbacks for %ld transactions", ncb, nadd);
  // writes are posted: let the posted ones drain, and look for spurious callbacks
  while (clk < std::max(g.run, t0 + 300))
    tick();
  if (g_prop == "P23")
    ms->PrintStats();
  delete ms;
  if (g_prop == "P23") {
    for (int c = 0; c < d.ch; c++)
      observe_file(g_tmp + "/dramsim3_0ch_" + std::to_string(c) + "cmd.trace");
    for (auto f : {"/dramsim3_0.json", "/dramsim3_0.txt", "/dramsim3_0epoch.json"}) {
      observe_file(g_tmp + f);
      unlink((g_tmp + f).c_str());
    }
  }
  // the commands
  long ncmds = 0;
  for (int c = 0; c < d.ch; c++) {
    std::vector<Cmd> v;
    FILE *in = fopen((g_tmp + "/dramsim3_0ch_" + std::to_string(c) + "cmd.trace").c_str(), "r");
    if (!in)
      ex::fail("internal: no command trace");
    char name[64], ro[32], co[32];
    Cmd x;
    while (fscanf(in, "%ld %63s %d %d %d %d %31s %31s", &x.t, name, &x.ch, &x.ra, &x.bg, &x.ba, ro, co) == 8) {
      int k = 0;
      while (k < NK && strcmp(KN[k], name))
        k++;
      if (k == NK)
        FAIL(P11, "state: unknown command %s", name);
      x.k = (K)k;
      x.ro = (int)strtoul(ro, 0, 16);
      x.co = (int)strtoul(co, 0, 16);
      if (ro[0] == '-')
        x.ro = -1;
      v.push_back(x);
    }
    fclose(in);
    ncmds += v.size();
    for (auto &y : v)
      if (y.rw()) {
        auto it = wanted.find(std::make_tuple(c, y.ra, y.bg, y.ba, y.ro, y.co, y.wr()));
        if (it == wanted.end() || it->second-- == 0)
          FAIL(P11, "state: channel %d: %s serves no request", c, y.show().c_str());
      }
    if (P11)
      protocol(d, v);
    if (P12 && g.run)
      refreshes(d, v, clk, c);
  }
  cleanup();
  ex::S->events += ncmds;
  ex::S->nontrivial++;
  std::string h;
  for (size_t i = 0; i < prog.size() && h.size() < 150; i++) {
    const Letter &l = g.alpha[prog[i]];
    char b[64];
    snprintf(b, sizeof b, "%c r%d.b%d.%d.row%d.col%d ", l.kind, l.f[1], l.f[2], l.f[3], l.f[4], l.f[5]);
    h += b;
  }
  ex::sample("%s: %s-> %ld callbacks, %ld commands in %ld cycles", g.ini.substr(g.ini.rfind('/') + 1).c_str(), h.c_str(), ncb,
             ncmds, clk);
}

int sc_main(int argc, char *argv[]) {
  Args a(argc, argv);
  g_prop = a.s("prop", "all");
  ex::g_maxproc = a.i("jobs", 8);
  g_tmpbase = a.s("tmp", "/dev/shm/vdram") + std::to_string(getpid());
  mkdir(g_tmpbase.c_str(), 0755);
  if (a.kv.count("replay"))
    ex::set_replay(a.s("replay") == "default" ? "" : a.s("replay"));
  for (auto &s : split(a.s("scen"), ',')) {
    read_spec(s + "/spec");
    long before = ex::S ? ex::S->execs.load() : 0;
    bool ok = ex::explore(s, 0, [&]() { body(); });
    printf("@scen %s execs %ld\n", s.substr(s.rfind('/') + 1).c_str(), ex::S->execs.load() - before);
    fflush(stdout);
    if (!ok)
      break;
  }
  int rc = ex::report();
  fflush(stdout);
  if (system(("rm -rf '" + g_tmpbase + "'").c_str())) {
  }
  _exit(rc);
}
