// spec: one device per line. Every device: all single-bit, carry and a spread of word
// addresses of the capacity map to locations inside the device, all different.
#include <configuration.h>
#include <cstdio>
#include <fstream>
#include <set>
#include <string>
#include <tuple>
#include <unistd.h>
int main(int, char **argv) {
  std::ifstream in("spec");
  std::string dev;
  int bad = 0;
  while (in >> dev) {
    dramsim3::Config c(std::string(argv[1]) + "/rad-sim/sim/dram/DRAMsim3/configs/" + dev + ".ini", ".", 0);
    uint64_t n = (uint64_t)c.channels * c.ranks * c.bankgroups * c.banks_per_group * c.rows * (c.columns / c.BL), b = c.bus_width / 8 * c.BL;
    std::set<uint64_t> ws;
    for (uint64_t i = 1; i < n; i *= 2)
      for (uint64_t j = 1; j < n; j *= 2)
        ws.insert((i + j) % n), ws.insert(i - 1), ws.insert(n - 1 - ((i + j) % n)), ws.insert(i ^ j);
    for (uint64_t i = 0; i < 200000; i++)
      ws.insert(i * 2654435761u % n);
    std::set<std::tuple<int, int, int, int, int, int>> seen;
    for (uint64_t w : ws) {
      auto a = c.AddressMapping(w * b);
      if (a.channel >= c.channels || a.rank >= c.ranks || a.bankgroup >= c.bankgroups || a.bank >= c.banks_per_group || a.row >= c.rows || a.column >= c.columns / c.BL ||
          !seen.insert({a.channel, a.rank, a.bankgroup, a.bank, a.row, a.column}).second) {
        if (bad++ < 5)
          printf("WRONG: %s word %#lx\n", dev.c_str(), (unsigned long)w);
      }
    }
  }
  fflush(stdout);
  _exit(bad != 0);
}
