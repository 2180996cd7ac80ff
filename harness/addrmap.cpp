// Every word address of a device through DRAMsim3's address mapping, and the memory
// controller's own address translation on top of it.  The mapping must hit every
// location of the device exactly once.
#include "hutil.hpp"
#include "dramdev.hpp"
#include <configuration.h>
#include <design_context.hpp>
#include <hmc.h>
#include <mem_controller.hpp>
#include <radsim_config.hpp>
#include <systemc.h>
#include <unordered_set>

static std::string dev;
#define AFAIL(fmt, ...) ex::fail("device %s: " fmt, dev.c_str(), ##__VA_ARGS__)

struct Loc {
  const Dev &d;
  uint64_t words;
  explicit Loc(const Dev &x) : d(x) { words = (uint64_t)d.ch * d.ra * d.bg * d.ba * d.ro * d.co; }
  // index of the location, after checking that it exists
  uint64_t of(const dramsim3::Address &a, uint64_t hex) const {
    if (a.channel < 0 || a.channel >= d.ch || a.rank < 0 || a.rank >= d.ra || a.bankgroup < 0 || a.bankgroup >= d.bg || a.bank < 0 ||
        a.bank >= d.ba || a.row < 0 || a.row >= d.ro || a.column < 0 || a.column >= d.co)
      AFAIL("address %#lx maps to channel %d rank %d bank %d.%d row %d column %d, outside the device (%dx%dx%dx%dx%ldx%ld)", (unsigned long)hex, a.channel,
            a.rank, a.bankgroup, a.bank, a.row, a.column, d.ch, d.ra, d.bg, d.ba, d.ro, d.co);
    return ((((((uint64_t)a.row * d.ch + a.channel) * d.ra + a.rank) * d.ba + a.bank) * d.bg + a.bankgroup) * d.co) + a.column;
  }
};

static void full(const std::string &ini, const std::string &tmp) {
  Dev d{Ini(ini)};
  Loc l(d);
  dramsim3::Config cfg(ini, tmp, 0);
  dramsim3::BaseDRAMSystem *sys;
  auto cb = [](uint64_t) {};
  if (cfg.IsHMC())
    sys = new dramsim3::HMCMemorySystem(cfg, tmp, cb, cb);
  else
    sys = new dramsim3::JedecDRAMSystem(cfg, tmp, cb, cb);
  std::vector<uint64_t> seen((l.words + 63) / 64);
  for (uint64_t w = 0; w < l.words; w++) {
    uint64_t hex = w * d.req_bytes;
    dramsim3::Address a = cfg.AddressMapping(hex);
    uint64_t i = l.of(a, hex);
    if (seen[i / 64] >> (i % 64) & 1)
      AFAIL("address %#lx maps to the location of a lower address (channel %d rank %d bank %d.%d row %d column %d)", (unsigned long)hex, a.channel, a.rank,
            a.bankgroup, a.bank, a.row, a.column);
    seen[i / 64] |= 1ull << (i % 64);
    if (sys->GetChannel(hex) != a.channel)
      AFAIL("address %#lx goes to channel %d, its location is in channel %d", (unsigned long)hex, sys->GetChannel(hex), a.channel);
  }
  // bytes of a word share its location
  for (uint64_t w : {(uint64_t)0, l.words / 3, l.words - 1})
    for (int b = 1; b < d.req_bytes; b++)
      if (l.of(cfg.AddressMapping(w * d.req_bytes + b), w) != l.of(cfg.AddressMapping(w * d.req_bytes), w))
        AFAIL("bytes 0 and %d of word %#lx have different locations", b, (unsigned long)w);
  ex::S->transitions += l.words;
  ex::S->distinct += l.words;
  ex::S->nontrivial += l.words;
  ex::sample("%s: %lu words -> %dx%dx%dx%dx%ldx%ld locations, each exactly once", dev.c_str(), (unsigned long)l.words, d.ch, d.ra, d.bg, d.ba, d.ro, d.co);
}

// id: index of the device in the design's list
static void ctrl(const std::string &root, int id, const std::string &ini, const std::string &tmp, bool all, int win) {
  Dev d{Ini(ini)};
  Loc l(d);
  radsim_config.ResizeAll(1);
  ParseRADSimKnobs(root + "/sim/radsim_knobs");
  sim_log.SetLogSettings(0, root + "/sim.log");
  auto *ctx = new RADSimDesignContext(0);
  auto *dut = new mem_controller("mem", id, ctx, "");
  dramsim3::Config cfg(ini, tmp, 0);
  if ((int)dut->GetNumChannels() != d.ch || (int)dut->GetAddressableWordSize() != d.req_bytes || dut->GetMemCapacity() != l.words * d.req_bytes >> 20)
    AFAIL("the controller reports %u channels of %u-byte words, %u MB; the device has %d, %d, %lu", dut->GetNumChannels(), dut->GetAddressableWordSize(),
          dut->GetMemCapacity(), d.ch, d.req_bytes, (unsigned long)(l.words * d.req_bytes >> 20));
  uint64_t per = l.words / d.ch, n = 0;
  std::unordered_set<uint64_t> seen;
  std::vector<bool> bits(all ? l.words : 0);
  auto one = [&](uint64_t w, unsigned c) {
    uint64_t t = dut->AddressMapping(w * d.req_bytes, c);
    if (t >= l.words * d.req_bytes)
      AFAIL("channel %u word %#lx is translated to %#lx, beyond the capacity", c, (unsigned long)w, (unsigned long)t);
    if (dut->ChannelFromAddr(t) != c)
      AFAIL("channel %u word %#lx: the controller takes address %#lx for channel %u", c, (unsigned long)w, (unsigned long)t, dut->ChannelFromAddr(t));
    dramsim3::Address a = cfg.AddressMapping(t);
    if (a.channel != (int)c)
      AFAIL("channel %u word %#lx is issued to channel %d of the DRAM", c, (unsigned long)w, a.channel);
    uint64_t i = l.of(a, t);
    bool dup;
    if (all)
      dup = bits[i], bits[i] = true;
    else
      dup = !seen.insert(i).second;
    if (dup)
      AFAIL("channel %u word %#lx has the location of another word (rank %d bank %d.%d row %d column %d)", c, (unsigned long)w, a.rank, a.bankgroup, a.bank, a.row,
            a.column);
    n++;
  };
  if (all) {
    for (int c = 0; c < d.ch; c++)
      for (uint64_t w = 0; w < per; w++)
        one(w, c);
  } else {
    int nb = 0;
    while ((1ull << nb) < per)
      nb++;
    std::set<uint64_t> ws;
    for (int f = 0; f < 2; f++) // the rest of the address all zero / all one
      for (int p = 0; p < nb; p += std::max(1, win / 2))
        for (uint64_t v = 0; v < 1ull << win; v++) {
          uint64_t m = ((1ull << win) - 1) << p;
          ws.insert(((v << p) | (f ? (per - 1) & ~m : 0)) & (per - 1));
        }
    for (int i = 0; i < nb; i++) // carry boundaries, up to three bits set or clear
      for (int j = 0; j <= i; j++)
        for (int k = 0; k <= j; k++) {
          uint64_t v = 1ull << i | 1ull << j | 1ull << k;
          ws.insert(v), ws.insert((per - 1) & ~v), ws.insert((1ull << i) - (1ull << j)), ws.insert(((1ull << i) + (1ull << j)) & (per - 1));
        }
    std::vector<int> cs;
    for (int c = 0; c < d.ch; c++)
      if (c < 2 || c == d.ch - 1 || (c & (c - 1)) == 0)
        cs.push_back(c);
    for (int c : cs)
      for (uint64_t w : ws)
        if (w < per)
          one(w, c);
  }
  ex::S->transitions += n;
  ex::S->distinct += n;
  ex::S->nontrivial += n;
}

int sc_main(int argc, char **argv) {
  Args a(argc, argv);
  std::string root = a.s("root"), tmp = a.s("tmp");
  ex::g_cpu_limit_s = 800;
  for (auto &sc : split(a.s("scen"), ';')) {
    // full:name:id | ctrl:name:id:window | ctrlall:name:id
    auto t = split(sc, ':');
    dev = t[1];
    std::string ini = root + "/sim/dram/DRAMsim3/configs/" + dev + ".ini";
    bool ok = ex::explore(sc, 0, [&]() {
      mute();
      if (t[0] == "full")
        full(ini, tmp);
      else
        ctrl(root, atoi(t[2].c_str()), ini, tmp, t[0] == "ctrlall", t.size() > 3 ? atoi(t[3].c_str()) : 12);
    });
    printf("@scen %s execs %ld\n", sc.c_str(), ex::S->execs.load());
    fflush(stdout);
    if (!ok)
      break;
  }
  int rc = ex::report();
  fflush(stdout);
  _exit(rc);
}
