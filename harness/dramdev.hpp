// What a DRAMsim3 device file means, read independently of DRAMsim3's own reader.
#pragma once
#include <algorithm>
#include <cstdint>
#include <fstream>
#include <map>
#include <string>
#include <vector>

// ---------------------------------------------------------------- ini reader
struct Ini {
  std::map<std::string, std::string> kv;
  explicit Ini(const std::string &f) {
    std::ifstream in(f);
    std::string l;
    while (std::getline(in, l)) {
      for (size_t i = 0; i < l.size(); i++)
        if ((l[i] == ';' || l[i] == '#') && (i == 0 || isspace(l[i - 1]))) {
          l = l.substr(0, i);
          break;
        }
      auto e = l.find('=');
      if (e == std::string::npos)
        continue;
      auto trim = [](std::string s) {
        size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r");
        return a == std::string::npos ? std::string() : s.substr(a, b - a + 1);
      };
      auto k = trim(l.substr(0, e));
      if (!kv.count(k))
        kv[k] = trim(l.substr(e + 1));
    }
  }
  std::string s(const char *k, const char *d) const { return kv.count(k) ? kv.at(k) : d; }
  long i(const char *k, long d) const { return kv.count(k) ? strtol(kv.at(k).c_str(), 0, 0) : d; }
  bool b(const char *k, bool d) const {
    if (!kv.count(k))
      return d;
    std::string v = kv.at(k);
    std::transform(v.begin(), v.end(), v.begin(), ::tolower);
    return v == "true" || v == "yes" || v == "on" || v == "1";
  }
};
struct Dev {
  long tRC, tRCDr, tRCDw, tRAS, tRP, tRTP, tRRD_L, tRRD_S, tFAW, t32AW, tCCD_L, tCCD_S, tWTR_L, tWTR_S, tWR, tRTRS,
      tRFC, tRFCb, tREFI, tREFIb, tPPD, tCKESR, tXS, RL, WL, AL, burst;
  int ch, ra, bg, ba, req_bytes;
  long ro, co, tq;
  bool gddr, hbm, hmc, lp4, dual, closep, sref;
  std::string map, ref;
  explicit Dev(const Ini &c) {
    std::string p = c.s("protocol", "DDR3");
    gddr = p.rfind("GDDR", 0) == 0;
    hbm = p.rfind("HBM", 0) == 0;
    lp4 = p == "LPDDR4";
    bg = c.i("bankgroups", 2);
    ba = c.i("banks_per_group", 2);
    if (!c.b("bankgroup_enable", true)) {
      ba *= bg;
      bg = 1;
    }
    hmc = p == "HMC";
    long BL = hmc ? c.i("block_size", 64) * 8 / c.i("device_width", 8) : c.i("BL", 8);
    burst = p == "GDDR5" ? BL / 4 : p == "GDDR5X" ? BL / 8 : p == "GDDR6" ? BL / 16 : BL / 2;
    ro = c.i("rows", 65536);
    long cols = c.i("columns", 1024), dw = c.i("device_width", 8);
    if (gddr)
      cols *= BL;
    else if (hbm)
      cols *= 2;
    long bus = c.i("bus_width", 64);
    long mb_rank = cols * dw / 8 * (ro / 1024) / 1024 * bg * ba * (bus / dw);
    ra = std::max(1l, c.i("channel_size", 1024) / mb_rank);
    ch = c.i("channels", 1);
    req_bytes = bus / 8 * BL;
    co = cols / BL;
    map = c.s("address_mapping", "chrobabgraco");
    ref = c.s("refresh_policy", "RANK_LEVEL_STAGGERED");
    closep = c.s("row_buf_policy", "OPEN_PAGE") == "CLOSE_PAGE";
    sref = c.b("enable_self_refresh", false);
    dual = hbm && c.b("hbm_dual_cmd", true);
    tq = c.i("trans_queue_size", 32);
    AL = c.i("AL", 0);
    RL = AL + c.i("CL", 12);
    WL = AL + c.i("CWL", 12);
    tRAS = c.i("tRAS", 24);
    tRP = c.i("tRP", 10);
    tRC = tRAS + tRP;
    tRCDr = gddr || hbm ? c.i("tRCDRD", 24) : c.i("tRCD", 10) - AL;
    tRCDw = gddr || hbm ? c.i("tRCDWR", 20) : c.i("tRCD", 10) - AL;
    tRTP = c.i("tRTP", c.i("tRTP_L", 5));
    tRRD_S = c.i("tRRD_S", 4);
    tRRD_L = bg == 1 ? tRRD_S : c.i("tRRD_L", 4);
    tFAW = c.i("tFAW", 50);
    t32AW = gddr ? c.i("t32AW", 330) : 0;
    tCCD_S = std::max(burst, c.i("tCCD_S", 4));
    tCCD_L = bg == 1 ? tCCD_S : std::max(burst, c.i("tCCD_L", 6));
    tWTR_S = c.i("tWTR_S", 5);
    tWTR_L = bg == 1 ? tWTR_S : c.i("tWTR_L", 5);
    tWR = c.i("tWR", 10);
    tRTRS = c.i("tRTRS", 2);
    tRFC = c.i("tRFC", 74);
    tRFCb = c.i("tRFCb", 20);
    tREFI = c.i("tREFI", c.i("REFI", 7800));
    tREFIb = c.i("tREFIb", 1950);
    tPPD = gddr || lp4 ? c.i("tPPD", 0) : 0;
    tCKESR = c.i("tCKESR", 12);
    tXS = c.i("tXS", 432);
  }
  static int lg(long x) {
    int i = 0;
    while (x > 1) {
      x /= 2;
      i++;
    }
    return i;
  }
  uint64_t addr(int c, int r, int g, int b, long row, long col) const {
    std::map<std::string, std::pair<uint64_t, int>> f = {{"ch", {c, lg(ch)}}, {"ra", {r, lg(ra)}}, {"bg", {g, lg(bg)}},
                                                         {"ba", {b, lg(ba)}}, {"ro", {row, lg(ro)}}, {"co", {col, lg(co)}}};
    uint64_t a = 0;
    for (size_t i = 0; i + 1 < map.size(); i += 2) {
      auto &x = f[map.substr(i, 2)];
      a = (a << x.second) | x.first;
    }
    return a * req_bytes;
  }
};

