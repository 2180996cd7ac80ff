// Drives dramsim3::MemorySystem with a fixed request stream and checks its
// command trace, callbacks and refreshes.
// spec: ini <device> [key=value ..] / warm <cycles> / run <cycles> / repeat <n> / gap <cycles>
//       <R|W|r|w|q|v> channel rank bankgroup bank row column    (r,w: row + repetition; q,v: column + repetition)
#include <algorithm>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory_system.h>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
static int errors;
#define P11 0
#define P12 0
#define FAIL(c, ...) do { if (errors++ < 5) { printf("WRONG: " __VA_ARGS__); printf("\n"); } } while (0)
// ---------------------------------------------------------------- ini reader
struct Ini {
  std::map<std::string, std::string> kv;
  explicit Ini(const std::string &f) {
    std::ifstream in(f);
    std::string l;
    while (std::getline(in, l)) {
      for (size_t i = 0; i < l.size(); i++)
        if ((l[i] == ';' || l[i] == '#') && (i == 0 || isspace(l[i - 1]))) {
          l = l.substr(0, i);
          break;
        }
      auto e = l.find('=');
      if (e == std::string::npos)
        continue;
      auto trim = [](std::string s) {
        size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r");
        return a == std::string::npos ? std::string() : s.substr(a, b - a + 1);
      };
      auto k = trim(l.substr(0, e));
      if (!kv.count(k))
        kv[k] = trim(l.substr(e + 1));
    }
  }
  std::string s(const char *k, const char *d) const { return kv.count(k) ? kv.at(k) : d; }
  long i(const char *k, long d) const { return kv.count(k) ? strtol(kv.at(k).c_str(), 0, 0) : d; }
  bool b(const char *k, bool d) const {
    if (!kv.count(k))
      return d;
    std::string v = kv.at(k);
    std::transform(v.begin(), v.end(), v.begin(), ::tolower);
    return v == "true" || v == "yes" || v == "on" || v == "1";
  }
};
struct Dev {
  long tRC, tRCDr, tRCDw, tRAS, tRP, tRTP, tRRD_L, tRRD_S, tFAW, t32AW, tCCD_L, tCCD_S, tWTR_L, tWTR_S, tWR, tRTRS,
      tRFC, tRFCb, tREFI, tREFIb, tPPD, tCKESR, tXS, RL, WL, AL, burst;
  int ch, ra, bg, ba, req_bytes;
  long ro, co, tq;
  bool gddr, hbm, lp4, dual, closep, sref;
  std::string map, ref;
  explicit Dev(const Ini &c) {
    std::string p = c.s("protocol", "DDR3");
    gddr = p.rfind("GDDR", 0) == 0;
    hbm = p.rfind("HBM", 0) == 0;
    lp4 = p == "LPDDR4";
    bg = c.i("bankgroups", 2);
    ba = c.i("banks_per_group", 2);
    if (!c.b("bankgroup_enable", true)) {
      ba *= bg;
      bg = 1;
    }
    long BL = c.i("BL", 8);
    burst = p == "GDDR5" ? BL / 4 : p == "GDDR5X" ? BL / 8 : p == "GDDR6" ? BL / 16 : BL / 2;
    ro = c.i("rows", 65536);
    long cols = c.i("columns", 1024), dw = c.i("device_width", 8);
    if (gddr)
      cols *= BL;
    else if (hbm)
      cols *= 2;
    long bus = c.i("bus_width", 64);
    long mb_rank = cols * dw / 8 * (ro / 1024) / 1024 * bg * ba * (bus / dw);
    ra = std::max(1l, c.i("channel_size", 1024) / mb_rank);
    ch = c.i("channels", 1);
    req_bytes = bus / 8 * BL;
    co = cols / BL;
    map = c.s("address_mapping", "chrobabgraco");
    ref = c.s("refresh_policy", "RANK_LEVEL_STAGGERED");
    closep = c.s("row_buf_policy", "OPEN_PAGE") == "CLOSE_PAGE";
    sref = c.b("enable_self_refresh", false);
    dual = hbm && c.b("hbm_dual_cmd", true);
    tq = c.i("trans_queue_size", 32);
    AL = c.i("AL", 0);
    RL = AL + c.i("CL", 12);
    WL = AL + c.i("CWL", 12);
    tRAS = c.i("tRAS", 24);
    tRP = c.i("tRP", 10);
    tRC = tRAS + tRP;
    tRCDr = gddr || hbm ? c.i("tRCDRD", 24) : c.i("tRCD", 10) - AL;
    tRCDw = gddr || hbm ? c.i("tRCDWR", 20) : c.i("tRCD", 10) - AL;
    tRTP = c.i("tRTP", c.i("tRTP_L", 5));
    tRRD_S = c.i("tRRD_S", 4);
    tRRD_L = bg == 1 ? tRRD_S : c.i("tRRD_L", 4);
    tFAW = c.i("tFAW", 50);
    t32AW = gddr ? c.i("t32AW", 330) : 0;
    tCCD_S = std::max(burst, c.i("tCCD_S", 4));
    tCCD_L = bg == 1 ? tCCD_S : std::max(burst, c.i("tCCD_L", 6));
    tWTR_S = c.i("tWTR_S", 5);
    tWTR_L = bg == 1 ? tWTR_S : c.i("tWTR_L", 5);
    tWR = c.i("tWR", 10);
    tRTRS = c.i("tRTRS", 2);
    tRFC = c.i("tRFC", 74);
    tRFCb = c.i("tRFCb", 20);
    tREFI = c.i("tREFI", c.i("REFI", 7800));
    tREFIb = c.i("tREFIb", 1950);
    tPPD = gddr || lp4 ? c.i("tPPD", 0) : 0;
    tCKESR = c.i("tCKESR", 12);
    tXS = c.i("tXS", 432);
  }
  static int lg(long x) {
    int i = 0;
    while (x > 1) {
      x /= 2;
      i++;
    }
    return i;
  }
  uint64_t addr(int c, int r, int g, int b, long row, long col) const {
    std::map<std::string, std::pair<uint64_t, int>> f = {{"ch", {c, lg(ch)}}, {"ra", {r, lg(ra)}}, {"bg", {g, lg(bg)}},
                                                         {"ba", {b, lg(ba)}}, {"ro", {row, lg(ro)}}, {"co", {col, lg(co)}}};
    uint64_t a = 0;
    for (size_t i = 0; i + 1 < map.size(); i += 2) {
      auto &x = f[map.substr(i, 2)];
      a = (a << x.second) | x.first;
    }
    return a * req_bytes;
  }
};

// ------------------------------------------------------------ command monitor
enum K { RD, RDA, WR, WRA, ACT, PRE, REFB, REF, SRE, SRX, NK };
static const char *KN[] = {"read", "read_p", "write", "write_p", "activate", "precharge", "refresh_bank", "refresh",
                           "self_refresh_enter", "self_refresh_exit"};
struct Cmd {
  long t;
  K k;
  int ch, ra, bg, ba;
  long ro, co;
  bool rank() const { return k == REF || k == SRE || k == SRX; }
  bool rw() const { return k <= WRA; }
  bool rd() const { return k == RD || k == RDA; }
  bool wr() const { return k == WR || k == WRA; }
  std::string show() const {
    char b[120];
    snprintf(b, sizeof b, "%s@%ld rank %d bank %d.%d row %#lx col %#lx", KN[k], t, ra, bg, ba, ro, co);
    return b;
  }
};
// smallest legal distance between two commands of one channel (p before n), 0 if unconstrained
static long need(const Dev &d, const Cmd &p, const Cmd &n, const char *&why) {
  bool sr = p.ra == n.ra;
  bool all = p.rank() || n.rank();
  bool sg = sr && (all || p.bg == n.bg), sb = sg && (all || p.ba == n.ba);
  bool nref = n.k == REF || n.k == REFB || n.k == SRE;
  why = "";
#define RULE(x, w)                                                                                 \
  do {                                                                                             \
    why = w;                                                                                       \
    return x;                                                                                      \
  } while (0)
  switch (p.k) {
  case ACT:
    if (sb && n.k == ACT) RULE(d.tRC, "tRC");
    if (sb && n.rd()) RULE(d.tRCDr, "tRCD");
    if (sb && n.wr()) RULE(d.tRCDw, "tRCD");
    if (sb && n.k == PRE) RULE(d.tRAS, "tRAS");
    if (sb && nref) RULE(d.tRC, "tRC (activate to refresh)");
    if (sr && n.k == ACT) RULE(sg ? d.tRRD_L : d.tRRD_S, "tRRD");
    if (sr && n.k == REFB) RULE(sg ? d.tRRD_L : d.tRRD_S, "tRRD (activate to bank refresh)");
    break;
  case RD:
  case RDA:
    if (n.rd()) RULE(!sr ? d.burst + d.tRTRS : sg ? d.tCCD_L : d.tCCD_S, "tCCD (read to read)");
    if (n.wr()) RULE(d.RL + d.burst - d.WL + d.tRTRS, "read to write turnaround");
    if (sb && n.k == PRE) RULE(d.AL + d.tRTP, "tRTP");
    if (sb && p.k == RDA && (n.k == ACT || nref)) RULE(d.AL + d.tRTP + d.tRP, "tRTP+tRP");
    break;
  case WR:
  case WRA:
    if (n.wr()) RULE(!sr ? d.burst : sg ? d.tCCD_L : d.tCCD_S, "tCCD (write to write)");
    if (n.rd())
      RULE(!sr ? d.WL + d.burst + d.tRTRS - d.RL : d.WL + d.burst + (sg ? d.tWTR_L : d.tWTR_S), "write to read turnaround");
    if (sb && n.k == PRE) RULE(d.WL + d.burst + d.tWR, "tWR");
    if (sb && p.k == WRA && (n.k == ACT || nref)) RULE(d.WL + d.burst + d.tWR + d.tRP, "tWR+tRP");
    break;
  case PRE:
    if (sb && (n.k == ACT || nref)) RULE(d.tRP, "tRP");
    if (sr && !sb && n.k == PRE) RULE(d.tPPD, "tPPD");
    break;
  case REF:
    if (sr && (n.k == ACT || nref)) RULE(d.tRFC, "tRFC");
    break;
  case REFB:
    if (sb && (n.k == ACT || nref)) RULE(d.tRFCb, "tRFCb");
    break;
  case SRE:
    if (sr && n.k == SRX) RULE(d.tCKESR, "tCKESR");
    break;
  case SRX:
    if (sr && (n.k == ACT || nref)) RULE(d.tXS, "tXS");
    break;
  default:
    break;
  }
  return 0;
}

static void protocol(const Dev &d, const std::vector<Cmd> &c) {
  std::map<std::tuple<int, int, int>, long> open; // bank -> open row
  std::map<int, bool> sref;
  std::map<int, std::vector<long>> acts;
  long horizon = std::max({d.tRFC, d.tRC, d.tXS, d.tCKESR, d.tRFCb}) + d.RL + d.WL + 64;
  size_t lo = 0;
  for (size_t i = 0; i < c.size(); i++) {
    const Cmd &n = c[i];
    while (c[lo].t + horizon < n.t)
      lo++;
    for (size_t j = lo; j < i; j++) {
      const char *w;
      long m = need(d, c[j], n, w);
      if (n.t - c[j].t < m)
        FAIL(P11, "timing: %s then %s: %ld cycles apart, %s requires %ld", c[j].show().c_str(), n.show().c_str(),
             n.t - c[j].t, w, m);
      if (n.t == c[j].t && !(d.dual && n.rw() != c[j].rw()))
        FAIL(P11, "command bus: %s and %s in the same cycle", c[j].show().c_str(), n.show().c_str());
    }
    auto b = std::make_tuple(n.ra, n.bg, n.ba);
    if (n.ra < 0 || n.ra >= d.ra || (!n.rank() && (n.bg < 0 || n.bg >= d.bg || n.ba < 0 || n.ba >= d.ba)))
      FAIL(P11, "state: %s outside the device", n.show().c_str());
    if (sref[n.ra] && n.k != SRX)
      FAIL(P11, "state: %s during self-refresh", n.show().c_str());
    switch (n.k) {
    case RD: case RDA: case WR: case WRA:
      if (!open.count(b) || open[b] != n.ro)
        FAIL(P11, "state: %s although row %#lx is open", n.show().c_str(), open.count(b) ? open[b] : -1l);
      if (n.k == RDA || n.k == WRA)
        open.erase(b);
      break;
    case ACT: {
      if (open.count(b))
        FAIL(P11, "state: %s while row %#lx is open", n.show().c_str(), open[b]);
      if (n.ro < 0 || n.ro >= d.ro)
        FAIL(P11, "state: %s outside the device", n.show().c_str());
      open[b] = n.ro;
      auto &a = acts[n.ra];
      if (a.size() >= 4 && n.t - a[a.size() - 4] < d.tFAW)
        FAIL(P11, "timing: %s is the fifth activate within %ld cycles, tFAW is %ld", n.show().c_str(),
             n.t - a[a.size() - 4], d.tFAW);
      if (d.t32AW && a.size() >= 32 && n.t - a[a.size() - 32] < d.t32AW)
        FAIL(P11, "timing: %s is the 33rd activate within %ld cycles, t32AW is %ld", n.show().c_str(),
             n.t - a[a.size() - 32], d.t32AW);
      a.push_back(n.t);
      break;
    }
    case PRE:
      open.erase(b);
      break;
    case REF: case SRE:
      for (auto &o : open)
        if (std::get<0>(o.first) == n.ra)
          FAIL(P11, "state: %s while bank %d.%d is open", n.show().c_str(), std::get<1>(o.first), std::get<2>(o.first));
      if (n.k == SRE)
        sref[n.ra] = true;
      break;
    case REFB:
      if (open.count(b))
        FAIL(P11, "state: %s while the bank is open", n.show().c_str());
      break;
    case SRX:
      if (!sref[n.ra])
        FAIL(P11, "state: %s outside self-refresh", n.show().c_str());
      sref[n.ra] = false;
      break;
    default:
      break;
    }
  }
}

static void refreshes(const Dev &d, const std::vector<Cmd> &c, long T, int ch) {
  bool bank = d.ref == "BANK_LEVEL_STAGGERED";
  long period = bank ? d.tREFIb * d.bg * d.ba * d.ra : d.tREFI;
  std::map<std::tuple<int, int, int>, std::vector<long>> r;
  std::set<int> slept;
  for (auto &x : c) {
    if (x.k == SRE)
      slept.insert(x.ra);
    if (!bank && x.k == REF)
      r[{x.ra, 0, 0}].push_back(x.t);
    if (bank && x.k == REFB)
      r[{x.ra, x.bg, x.ba}].push_back(x.t);
  }
  for (int a = 0; a < d.ra; a++)
    for (int g = 0; g < (bank ? d.bg : 1); g++)
      for (int b = 0; b < (bank ? d.ba : 1); b++) {
        if (slept.count(a))
          continue;
        auto &v = r[{a, g, b}];
        long last = 0, worst = 0, at = 0;
        for (long t : v) {
          if (t - last > worst)
            worst = t - last, at = last;
          last = t;
        }
        if (T - last > worst)
          worst = T - last, at = last;
        if (worst > 2 * period)
          FAIL(P12, "refresh: channel %d rank %d%s not refreshed for %ld cycles from cycle %ld (every %ld configured)", ch, a,
               bank ? (" bank " + std::to_string(g) + "." + std::to_string(b)).c_str() : "", worst, at, period);
        if ((long)v.size() < T / period - 1 || (long)v.size() > T / period + 1)
          FAIL(P12, "refresh: channel %d rank %d%s refreshed %zu times in %ld cycles (every %ld configured)", ch, a,
               bank ? (" bank " + std::to_string(g) + "." + std::to_string(b)).c_str() : "", v.size(), T, period);
      }
}


struct Req { char k; std::vector<int> f; int gap; };
int main(int argc, char **argv) {
  std::ifstream in("spec");
  std::string l, device;
  std::vector<Req> reqs;
  long warm = 0, run = 0, repeat = 1, bound = 8000;
  while (std::getline(in, l)) {
    std::stringstream s(l);
    std::string k;
    s >> k;
    if (k == "ini") {
      s >> device;
      std::ifstream f(std::string(argv[1]) + "/rad-sim/sim/dram/DRAMsim3/configs/" + device + ".ini");
      std::vector<std::string> lines;
      std::string x;
      while (std::getline(f, x)) lines.push_back(x);
      while (s >> x) {
        std::string key = x.substr(0, x.find('=')), val = x.substr(x.find('=') + 1);
        bool done = false;
        for (auto &y : lines) if (y.compare(0, key.size(), key) == 0 && (y[key.size()] == ' ' || y[key.size()] == '=')) { y = key + " = " + val; done = true; }
        std::string sec = key == "hbm_dual_cmd" || key == "bankgroup_enable" ? "[dram_structure]" : key[0] == 't' && key != "trans_queue_size" ? "[timing]" : "[system]";
        if (!done) for (auto &y : lines) if (y.compare(0, sec.size(), sec) == 0) y += "\n" + key + " = " + val;
      }
      std::ofstream o("dev.ini");
      for (auto &y : lines) o << y << "\n";
    } else if (k == "warm") s >> warm;
    else if (k == "run") s >> run;
    else if (k == "repeat") s >> repeat;
    else if (k == "bound") s >> bound;
    else if (k == "gap") { reqs.emplace_back(); s >> reqs.back().gap; reqs.back().k = 0; }
    else if (k != "") { Req r; r.k = k[0]; r.gap = 0; int v; while (s >> v) r.f.push_back(v); reqs.push_back(r); }
  }
  Dev d{Ini("dev.ini")};
  std::map<std::pair<uint64_t, bool>, long> open;
  long clk = 0, lastcb = 0;
  auto cb = [&](uint64_t a, bool w) {
    auto it = open.find({a, w});
    if (it == open.end()) FAIL(0, "%s callback for %#lx without an outstanding request", w ? "write" : "read", (unsigned long)a);
    else if (--it->second == 0) open.erase(it);
    lastcb = clk;
    if (getenv("DEMO_SHOW")) printf("%ld %lx %d\n", clk, (long)a, (int)w);
  };
  auto *ms = new dramsim3::MemorySystem("dev.ini", ".", [&](uint64_t a) { cb(a, false); }, [&](uint64_t a) { cb(a, true); });
  auto tick = [&]() { ms->ClockTick(); clk++; };
  while (clk < warm) tick();
  for (long r = 0; r < repeat && (!run || clk < run) && !errors; r++)
    for (auto &q : reqs) {
      if (!q.k) { for (int i = 0; i < q.gap; i++) tick(); continue; }
      long row = q.k == 'r' || q.k == 'w' ? (q.f[4] + r) % d.ro : q.f[4], col = (q.k == 'q' || q.k == 'v' ? q.f[5] + r : q.f[5]) % d.co;
      bool w = strchr("Wwv", q.k);
      uint64_t a = d.addr(q.f[0] % d.ch, q.f[1] % d.ra, q.f[2] % d.bg, q.f[3] % d.ba, row, col);
      long t0 = clk;
      while (!ms->WillAcceptTransaction(a, w) && clk - t0 < bound) tick();
      if (clk - t0 >= bound) { FAIL(0, "request refused for %ld cycles", bound); break; }
      ms->AddTransaction(a, w);
      open[{a, w}]++;
      tick();
    }
  long t0 = clk;
  while (!open.empty() && !errors) {
    tick();
    if (clk - std::max(lastcb, t0) > bound) FAIL(0, "%zu requests never completed", open.size());
  }
  while (clk < std::max(run, t0 + 300)) tick();
  delete ms;
  for (int c = 0; c < d.ch; c++) {
    std::vector<Cmd> v;
    FILE *f = fopen(("dramsim3_0ch_" + std::to_string(c) + "cmd.trace").c_str(), "r");
    if (!f) { FAIL(0, "no trace"); break; }
    char name[64], ro[32], co[32];
    Cmd x;
    while (fscanf(f, "%ld %63s %d %d %d %d %31s %31s", &x.t, name, &x.ch, &x.ra, &x.bg, &x.ba, ro, co) == 8) {
      int k = 0;
      while (k < NK && strcmp(KN[k], name)) k++;
      x.k = (K)k;
      x.ro = ro[0] == '-' ? -1 : (int)strtoul(ro, 0, 16);
      x.co = ro[0] == '-' ? -1 : (int)strtoul(co, 0, 16);
      v.push_back(x);
    }
    fclose(f);
    protocol(d, v);
    if (run) refreshes(d, v, clk, c);
  }
  printf("%s after %ld cycles\n", errors ? "FAILED" : "passed", clk);
  fflush(stdout);
  _exit(errors ? 1 : 0);
}
