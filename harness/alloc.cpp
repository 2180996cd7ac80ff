// Arbiters and allocators of BookSim, driven directly.  The reachable states of
// each object are enumerated exactly: a state is identified by the object's
// answers to a set of probe requests, found by breadth-first search over all
// requests (re-executing the real object from its construction), and every
// transition of every state is checked.  Fairness is then decided on the graph.
#include "hutil.hpp"
#include <sys/resource.h>
#include <systemc.h>
#include <algorithm>
#include <functional>
#include <memory>
#include "booksim.hpp"
#include "module.hpp"
#include "config_utils.hpp"
#include "allocator.hpp"
#include "arbiter.hpp"
#include "prio_arb.hpp"

// random choices of the randomized allocators become explored choices
static std::vector<int> g_rnd;
static size_t g_rpos;
static std::vector<int> g_rmax;
static bool g_count;
long __wrap_ran_next() asm("__wrap__Z8ran_nextv");
long __wrap_ran_next() { return g_rpos < g_rnd.size() ? g_rnd[g_rpos++] : (g_rpos++, 0); }

struct Cell {
  bool on = false;
  int inp = 0, outp = 0, label = 0;
  bool replaced = false; // first requested with lower priority, then replaced
};
typedef std::vector<Cell> Letter;
typedef std::vector<int> Grant; // arbiter: {winner}; allocator: output per input

static std::string g_kind, g_type;
static int R, C; // allocator shape; arbiter: R inputs
static bool is_arb, is_prio;
static std::string show(const Letter &l) {
  std::string s;
  for (size_t i = 0; i < l.size(); i++)
    if (l[i].on)
      s += (is_arb ? std::to_string(i) : std::to_string(i / C) + ">" + std::to_string(i % C)) + "@" + std::to_string(l[i].inp) +
           (is_arb ? "" : "," + std::to_string(l[i].outp)) + " ";
  return s;
}
static std::string showh(const std::vector<Letter> &h) {
  std::string s;
  for (auto &l : h)
    s += "{" + show(l) + "} ";
  return s;
}
struct Dut {
  std::unique_ptr<Arbiter> a;
  std::unique_ptr<PriorityArbiter> p;
  std::unique_ptr<Allocator> al;
  std::vector<Letter> hist;
  Dut() {
    static Configuration *cfg = new Configuration;
    if (is_prio)
      p.reset(new PriorityArbiter(*cfg, 0, "p", R));
    else if (is_arb)
      a.reset(Arbiter::NewArbiter(0, "a", g_type, R));
    else
      al.reset(Allocator::NewAllocator(0, "a", g_type, R, C));
    if (!a && !p && !al)
      ex::fail("internal: no object for %s", g_type.c_str());
  }
  // update: the grant is confirmed (arbiters)
  Grant step(const Letter &l, bool update, bool check) {
    hist.push_back(l);
    Grant g;
    if (is_arb) {
      int best = -1, n = 0;
      for (int i = 0; i < R; i++)
        if (l[i].on)
          n++, best = n == 1 ? l[i].inp : std::max(best, l[i].inp);
      // requests arrive in either order (alternating with their number)
      for (int k = 0; k < R; k++) {
        int i = n & 1 ? k : R - 1 - k;
        if (l[i].on) {
          if (p) {
            if (l[i].replaced)
              p->AddRequest(i, 50 + i, l[i].inp - 1);
            p->AddRequest(i, 50 + i, l[i].inp);
            if (l[i].replaced)
              p->AddRequest(i, 50 + i, l[i].inp - 2);
          } else
            a->AddRequest(i, 50 + l[i].label + i, l[i].inp);
        }
      }
      int id = -7, pri = -7, w;
      if (p) {
        p->Arbitrate();
        w = p->Match();
      } else
        w = a->Arbitrate(&id, &pri);
      if (check) {
        if ((w < 0) != (n == 0))
          ex::fail("arbiter: %s selects %d of the requests {%s} after %s", g_type.c_str(), w, show(l).c_str(), showh(hist).c_str());
        if (w >= R || (w >= 0 && !l[w].on))
          ex::fail("arbiter: %s selects %d, which did not request ({%s}) after %s", g_type.c_str(), w, show(l).c_str(), showh(hist).c_str());
        if (w >= 0 && l[w].inp != best)
          ex::fail("arbiter: %s selects %d with priority %d although %d is requested ({%s}) after %s", g_type.c_str(), w, l[w].inp, best,
                   show(l).c_str(), showh(hist).c_str());
        if (w >= 0 && !p && (id != 50 + l[w].label + w || pri != l[w].inp || a->LastWinner() != w))
          ex::fail("arbiter: %s reports id %d priority %d winner %d for the selection of %d (%d, %d) after %s", g_type.c_str(), id, pri,
                   a->LastWinner(), w, 50 + l[w].label + w, l[w].inp, showh(hist).c_str());
      }
      if (p) {
        p->Clear();
      } else {
        if (update)
          a->UpdateState();
        a->Clear();
      }
      g = {w};
      return g;
    }
    for (int i = 0; i < R * C; i++)
      if (l[i].on) {
        if (l[i].replaced) {
          al->AddRequest(i / C, i % C, l[i].label + 1, l[i].inp - 1, l[i].outp - 1);
          al->RemoveRequest(i / C, i % C, l[i].label + 1);
        }
        al->AddRequest(i / C, i % C, l[i].label, l[i].inp, l[i].outp);
      }
    if (check) {
      for (int i = 0; i < R; i++)
        for (int o = 0; o < C; o++) {
          Allocator::sRequest q;
          bool have = al->ReadRequest(q, i, o);
          const Cell &c = l[i * C + o];
          if (have != c.on || (al->ReadRequest(i, o) >= 0) != c.on ||
              (have && (q.label != c.label || q.in_pri != c.inp || q.out_pri != c.outp)))
            ex::fail("allocator: %s reads back request %d>%d wrongly ({%s}) after %s", g_type.c_str(), i, o, show(l).c_str(), showh(hist).c_str());
        }
      for (int i = 0; i < R; i++) {
        bool any = false;
        for (int o = 0; o < C; o++)
          any |= l[i * C + o].on;
        if (al->InputHasRequests(i) != any)
          ex::fail("allocator: %s input %d reports requests=%d ({%s})", g_type.c_str(), i, !any, show(l).c_str());
      }
      for (int o = 0; o < C; o++) {
        bool any = false;
        for (int i = 0; i < R; i++)
          any |= l[i * C + o].on;
        if (al->OutputHasRequests(o) != any)
          ex::fail("allocator: %s output %d reports requests=%d ({%s})", g_type.c_str(), o, !any, show(l).c_str());
      }
    }
    al->Allocate();
    int ng = 0;
    for (int i = 0; i < R; i++) {
      g.push_back(al->OutputAssigned(i));
      ng += g[i] >= 0;
    }
    if (check) {
      bool any = false;
      for (auto &c : l)
        any |= c.on;
#define AFAIL(fmt, ...) ex::fail("allocator: %s %dx%d: " fmt " (requests {%s}) after %s", g_type.c_str(), R, C, ##__VA_ARGS__, show(l).c_str(), showh(hist).c_str())
      for (int i = 0; i < R; i++) {
        if (g[i] >= C || (g[i] >= 0 && !l[i * C + g[i]].on))
          AFAIL("grants %d>%d, which was not requested", i, g[i]);
        if (g[i] >= 0 && al->InputAssigned(g[i]) != i)
          AFAIL("input %d is assigned output %d, but output %d is assigned input %d", i, g[i], g[i], al->InputAssigned(g[i]));
        for (int k = 0; k < i; k++)
          if (g[i] >= 0 && g[i] == g[k])
            AFAIL("output %d is granted to inputs %d and %d", g[i], k, i);
      }
      for (int o = 0; o < C; o++) {
        int i = al->InputAssigned(o);
        if (i >= R || (i >= 0 && g[i] != o))
          AFAIL("output %d is assigned input %d, but input %d is assigned output %d", o, i, i, i < R ? g[i] : -1);
      }
      if (any && !ng)
        AFAIL("grants nothing");
      priorities(l, g);
      matching(l, g, ng);
    }
    al->Clear();
    if (check)
      for (int i = 0; i < R; i++)
        if (al->OutputAssigned(i) >= 0 || al->InputHasRequests(i))
          AFAIL("input %d keeps a request or grant after Clear", i);
    return g;
  }
  void priorities(const Letter &l, const Grant &g) {
    auto at = [&](int i, int o) -> const Cell & { return l[i * C + o]; };
    bool in_first = g_type.rfind("separable_input_first", 0) == 0, out_first = g_type.rfind("separable_output_first", 0) == 0;
    bool sel = g_type.rfind("select(1", 0) == 0, wave = g_type.find("wavefront") != std::string::npos;
    auto rowmax = [&](int i, int o) { // is (i,o) among the best of its row
      for (int k = 0; k < C; k++)
        if (at(i, k).on && at(i, k).inp > at(i, o).inp)
          return false;
      return true;
    };
    auto colmax = [&](int i, int o) {
      for (int k = 0; k < R; k++)
        if (at(k, o).on && at(k, o).outp > at(i, o).outp)
          return false;
      return true;
    };
    for (int i = 0; i < R; i++) {
      int o = g[i];
      if (o < 0)
        continue;
      if (in_first && !rowmax(i, o))
        AFAIL("grants %d>%d although input %d has a request of higher priority", i, o, i);
      if ((out_first || sel) && !colmax(i, o))
        AFAIL("grants %d>%d although output %d has a request of higher priority", i, o, o);
      if (in_first)
        for (int k = 0; k < R; k++)
          if (k != i && at(k, o).on && at(k, o).outp > at(i, o).outp) {
            bool only = rowmax(k, o);
            for (int x = 0; x < C; x++)
              if (x != o && at(k, x).on && at(k, x).inp >= at(k, o).inp)
                only = false;
            if (only)
              AFAIL("grants %d>%d although %d>%d has higher priority", i, o, k, o);
          }
      if (out_first || sel)
        for (int k = 0; k < C; k++)
          if (k != o && at(i, k).on && at(i, k).inp > at(i, o).inp) {
            bool only = colmax(i, k);
            for (int x = 0; x < R; x++)
              if (x != i && at(x, k).on && at(x, k).outp >= at(i, k).outp)
                only = false;
            if (only)
              AFAIL("grants %d>%d although %d>%d has higher priority", i, o, i, k);
          }
    }
    if (wave) // every request that is not granted is blocked by a grant of at least its priority
      for (int i = 0; i < R; i++)
        for (int o = 0; o < C; o++)
          if (at(i, o).on && g[i] != o) {
            bool blocked = false;
            auto ge = [&](const Cell &x) {
              return std::make_pair(x.outp, x.inp) >= std::make_pair(at(i, o).outp, at(i, o).inp);
            };
            if (g[i] >= 0 && ge(at(i, g[i])))
              blocked = true;
            for (int k = 0; k < R; k++)
              if (g[k] == o && ge(at(k, o)))
                blocked = true;
            if (!blocked)
              AFAIL("%d>%d is refused although no request of its priority blocks it", i, o);
          }
  }
  void matching(const Letter &l, const Grant &g, int ng) {
    bool mx = g_type.rfind("max_size", 0) == 0, maximal = mx || g_type.find("wavefront") != std::string::npos;
    int iters = 0;
    if (g_type.rfind("islip(", 0) == 0 || g_type.rfind("select(", 0) == 0 || g_type.rfind("pim(", 0) == 0)
      iters = atoi(g_type.c_str() + g_type.find('(') + 1);
    if (iters >= std::min(R, C))
      maximal = true;
    if (maximal)
      for (int i = 0; i < R; i++)
        for (int o = 0; o < C; o++)
          if (l[i * C + o].on && g[i] < 0 && std::find(g.begin(), g.end(), o) == g.end())
            AFAIL("%d>%d is refused although both are free", i, o);
    if (mx) {
      std::function<int(int, int)> best = [&](int i, int used) {
        if (i == R)
          return 0;
        int b = best(i + 1, used);
        for (int o = 0; o < C; o++)
          if (l[i * C + o].on && !(used >> o & 1))
            b = std::max(b, 1 + best(i + 1, used | 1 << o));
        return b;
      };
      if (best(0, 0) != ng)
        AFAIL("grants %d, %d are possible", ng, best(0, 0));
    }
  }
};

static std::vector<Letter> letters, probes;
static std::vector<char> upd; // per letter: grant confirmed
static int fair; // 3: with constant requests every input is served, 1: no request starves under any requests of the others, 2: only constant requests, 0: none
static bool once; // every persistent requester is served once before any is served twice
static int cap;

struct State {
  std::vector<int> hist;
  std::vector<int> next;
  std::vector<Grant> out;
};

static void graph() {
  std::map<std::vector<int>, int> ids;
  std::vector<State> st;
  auto build = [&](const std::vector<int> &h) {
    auto d = std::make_unique<Dut>();
    for (int x : h)
      d->step(letters[x], upd[x], false);
    return d;
  };
  auto sig = [&](const std::vector<int> &h) {
    std::vector<int> s;
    for (auto &p : probes) {
      auto d = build(h);
      Grant g = d->step(p, false, false);
      s.insert(s.end(), g.begin(), g.end());
    }
    // the order in which everybody is served
    auto d = build(h);
    for (int k = 0; k < R * (is_arb ? 1 : C); k++) {
      Grant g = d->step(probes[0], true, false);
      s.insert(s.end(), g.begin(), g.end());
    }
    return s;
  };
  auto intern = [&](const std::vector<int> &h) {
    auto s = sig(h);
    auto it = ids.find(s);
    if (it != ids.end())
      return it->second;
    int n = st.size();
    ids[s] = n;
    st.push_back({h, {}, {}});
    ex::visit(hmix(n + 1) ^ hmix(std::hash<std::string>()(g_type) + R * 16 + C));
    return n;
  };
  intern({});
  for (size_t n = 0; n < st.size(); n++) {
    if ((int)st.size() > cap) {
      ex::S->cutoff++;
      break;
    }
    for (size_t l = 0; l < letters.size(); l++) {
      auto h = st[n].hist;
      auto d = build(h);
      Grant g = d->step(letters[l], upd[l], true);
      h.push_back(l);
      int m = intern(h);
      st[n].next.push_back(m);
      st[n].out.push_back(g);
      ex::S->transitions++;
      ex::S->execs++;
      if (is_arb && !is_prio && !upd[l] && m != (int)n)
        ex::fail("arbiter: %s: a selection that was not confirmed changes the order of service after %s", g_type.c_str(), showh(d->hist).c_str());
    }
  }
  // --- fairness
  size_t N = st.size();
  for (auto &s : st)
    if (s.next.size() != letters.size())
      N = 0; // cut off
  long worst = 0;
  auto conf = [&](size_t l) { return upd[l]; };
  auto hist = [&](int n) {
    std::vector<Letter> v;
    for (int x : st[n].hist)
      v.push_back(letters[x]);
    return showh(v);
  };
  auto equal = [&](const Letter &l) {
    int p = -100, q = 0;
    for (auto &c : l)
      if (c.on) {
        if (p == -100)
          p = c.inp, q = c.outp;
        if (c.inp != p || c.outp != q)
          return false;
      }
    return p != -100;
  };
  for (size_t n = 0; n < N; n++)
    for (size_t l = 0; l < letters.size(); l++) {
      if (!equal(letters[l]) || !conf(l))
        continue;
      int nreq = 0;
      for (auto &c : letters[l])
        nreq += c.on;
      if (fair == 3) {
        nreq = 0;
        for (int i = 0; i < R; i++) {
          bool any = false;
          for (int o = 0; o < C; o++)
            any |= letters[l][i * C + o].on;
          nreq += any;
        }
      }
      // constant requests: follow the orbit
      if (fair >= 1) {
        std::set<int> served;
        int s = n;
        long steps = 0;
        std::vector<int> first;
        for (; steps < (long)N * 2 + 50; steps++) {
          const Grant &g = st[s].out[l];
          if (is_arb) {
            if (once && steps < nreq && served.count(g[0]))
              ex::fail("fairness: %s: with the requests {%s} held, %d is served twice before the others are served once, after %s", g_type.c_str(),
                       show(letters[l]).c_str(), g[0], hist(n).c_str());
            served.insert(g[0]);
          } else
            for (int i = 0; i < R; i++)
              if (g[i] >= 0)
                served.insert(fair == 3 ? i : i * C + g[i]);
          s = st[s].next[l];
          if ((int)served.size() == nreq)
            break;
        }
        if ((int)served.size() < nreq)
          ex::fail("fairness: %s: with the requests {%s} held, only %zu of them are ever granted after %s", g_type.c_str(),
                   show(letters[l]).c_str(), served.size(), hist(n).c_str());
        worst = std::max(worst, steps);
      }
    }
  if (fair == 1) {
    // longest path along which one request is present (at the highest priority) and never granted
    int cells = is_arb ? R : R * C;
    for (int c = 0; c < cells; c++) {
      std::vector<int> depth(N, -1), onst(N, 0);
      std::function<int(int)> go = [&](int n) -> int {
        if (depth[n] >= 0)
          return depth[n];
        onst[n] = 1;
        int best = 0;
        for (size_t l = 0; l < letters.size(); l++) {
          if (!letters[l][c].on || !conf(l) || !equal(letters[l]))
            continue;
          const Grant &g = st[n].out[l];
          if (is_arb ? g[0] == c : g[c / C] == c % C)
            continue;
          int m = st[n].next[l];
          if (onst[m])
            ex::fail("fairness: %s %dx%d: request %s can be refused forever: from the state after %s, {%s} closes a cycle without granting it", g_type.c_str(), R, C,
                     is_arb ? std::to_string(c).c_str() : (std::to_string(c / C) + ">" + std::to_string(c % C)).c_str(), hist(n).c_str(),
                     show(letters[l]).c_str());
          best = std::max(best, 1 + go(m));
        }
        onst[n] = 0;
        return depth[n] = best;
      };
      for (size_t n = 0; n < N; n++)
        worst = std::max(worst, (long)go(n));
    }
  }
  ex::S->nontrivial += ex::S->execs.load();
  ex::sample("%s %dx%d: %zu states, %zu requests each, every transition checked; longest wait %ld cycles", g_type.c_str(), R, C, st.size(),
             letters.size(), worst);
}

int sc_main(int argc, char *argv[]) {
  Args a(argc, argv);
  int budget = 0;
  for (auto &sc : split(a.s("scen"), ';')) {
    // kind:type:R:C:fair:mode:depth
    auto t = split(sc, ':');
    g_kind = t[0], g_type = t[1];
    R = atoi(t[2].c_str()), C = atoi(t[3].c_str());
    fair = atoi(t[4].c_str()) % 10;
    once = atoi(t[4].c_str()) >= 10;
    std::string mode = t[5];
    cap = t.size() > 6 ? atoi(t[6].c_str()) : 20000;
    is_arb = g_kind == "arb" || g_kind == "prio";
    is_prio = g_kind == "prio";
    ex::g_cpu_limit_s = 800;
    int cells = is_arb ? R : R * C;
    // alphabet of one cell
    std::vector<Cell> al(1);
    auto add = [&](int i, int o, int lab, bool rep) {
      Cell c;
      c.on = true, c.inp = i, c.outp = o, c.label = lab, c.replaced = rep;
      al.push_back(c);
    };
    if (mode == "bin")
      add(0, 0, 1, false);
    else if (mode == "pri") {
      add(0, 0, 3, false);
      if (is_arb)
        add(1, 0, 0, false), add(2, 0, 7, is_prio);
      else
        add(1, 0, 0, false), add(0, 1, 5, false), add(1, 1, 2, true);
    } else if (mode == "neg")
      add(-5, -3, 0, false), add(-1, -2, 1, false);
    else
      add(0, 0, 0, false), add(1, 1, 1, true);
    letters.clear();
    upd.clear();
    probes.clear();
    long tot = 1;
    for (int i = 0; i < cells; i++)
      tot *= al.size();
    for (long x = 0; x < tot; x++) {
      Letter l;
      long y = x;
      for (int i = 0; i < cells; i++) {
        l.push_back(al[y % al.size()]);
        y /= al.size();
      }
      letters.push_back(l);
      upd.push_back(1);
      if (is_arb && !is_prio) {
        letters.push_back(l);
        upd.push_back(0);
      }
    }
    // probes: everything, every pair
    Cell on = al[1];
    Letter none(cells);
    Letter all(cells, on);
    probes.push_back(all);
    for (int i = 0; i < cells; i++)
      for (int j = 0; j < i; j++)
        if (is_arb || i / C == j / C || i % C == j % C) {
          Letter l = none;
          l[i] = l[j] = on;
          probes.push_back(l);
        }
    if (!is_arb) {
      for (int i = 0; i < R; i++) {
        Letter l = none;
        for (int o = 0; o < C; o++)
          l[i * C + o] = on;
        probes.push_back(l);
      }
      for (int o = 0; o < C; o++) {
        Letter l = none;
        for (int i = 0; i < R; i++)
          l[i * C + o] = on;
        probes.push_back(l);
      }
    }
    bool ok = ex::explore(sc, budget, [&]() {
      mute();
      if (g_type.rfind("pim", 0) == 0) {
        // every outcome of its random choices, for every request
        int iters = atoi(g_type.c_str() + 4);
        int calls = iters * (R + C);
        for (auto &l : letters) {
          std::vector<int> v(calls, 0);
          for (bool more = true; more;) {
            g_rnd = v;
            g_rpos = 0;
            Dut d;
            d.step(l, true, true);
            g_rpos = 0;
            std::reverse(g_rnd.begin(), g_rnd.end());
            d.step(letters.back(), true, true); // again, on the same object
            ex::S->transitions++;
            ex::S->execs++;
            int k = 0;
            int lim = std::max(R, C);
            while (k < calls && ++v[k] == lim)
              v[k++] = 0;
            more = k < calls;
          }
        }
        ex::S->nontrivial += ex::S->execs.load();
        return;
      }
      graph();
    });
    printf("@scen %s execs %ld cpu %.1f\n", sc.c_str(), ex::S->execs.load(), [] { struct rusage u; getrusage(RUSAGE_CHILDREN, &u); return u.ru_utime.tv_sec + u.ru_utime.tv_usec * 1e-6; }());
    fflush(stdout);
    if (!ok)
      break;
  }
  int rc = ex::report();
  fflush(stdout);
  _exit(rc);
}
