#pragma once
#include "explore.hpp"
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

// splitmix64: deterministic payload patterns (not used to pick behaviours)
inline uint64_t hmix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
template <class BV> void fill_pattern(BV &bv, int width, uint64_t seed) {
  for (int w = 0; w * 32 < width; w++) {
    uint64_t h = hmix(seed * 1315423911ull + w);
    for (int b = 0; b < 32 && w * 32 + b < width; b++)
      bv[w * 32 + b] = (bool)((h >> b) & 1);
  }
}

struct Args {
  std::map<std::string, std::string> kv;
  Args(int c, char **v) {
    for (int i = 1; i < c; i++) {
      std::string a = v[i];
      auto e = a.find('=');
      if (e != std::string::npos)
        kv[a.substr(0, e)] = a.substr(e + 1);
      else
        kv[a] = "1";
    }
  }
  std::string s(const std::string &k, const std::string &d = "") const {
    auto i = kv.find(k);
    return i == kv.end() ? d : i->second;
  }
  int i(const std::string &k, int d) const {
    auto it = kv.find(k);
    return it == kv.end() ? d : atoi(it->second.c_str());
  }
};

inline std::vector<std::string> split(const std::string &s, char c) {
  std::vector<std::string> r;
  std::stringstream ss(s);
  std::string t;
  while (std::getline(ss, t, c))
    if (!t.empty())
      r.push_back(t);
  return r;
}

// Adds the contents of a file to what this execution observed.
inline void observe_file(const std::string &f) {
  std::ifstream in(f, std::ios::binary);
  uint64_t h = in ? 17 : 19;
  for (char c; in.get(c);)
    h = (h ^ (unsigned char)c) * 0x100000001b3ull;
  ex::visit(h);
  if (const char *d = getenv("EX_KEEP"))
    if (system(("cp '" + f + "' '" + d + "'").c_str())) {
    }
}

// Silence the code under test; the report goes to the saved descriptor.
inline int g_saved_stdout = -1;
inline void mute() {
  fflush(stdout);
  std::cout.flush();
  if (g_saved_stdout < 0)
    g_saved_stdout = dup(1);
  int n = open("/dev/null", O_WRONLY);
  if (!getenv("VERIF_VERBOSE"))
    dup2(n, 1);
  if (!getenv("VERIF_VERBOSE"))
    dup2(n, 2);
  close(n);
}
inline void unmute() {
  fflush(stdout);
  std::cout.flush();
  if (g_saved_stdout >= 0)
    dup2(g_saved_stdout, 1);
}
