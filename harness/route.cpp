// P06: BookSim's real networks and routing functions.  For one configuration
// the real Network object is built; every packet (type, source, destination)
// is then walked through it: at every router the real routing function is
// asked, with every outcome of its random numbers and every credit state, and
// every offered output channel and virtual channel is followed along the real
// wiring.  From the reachable (channel, VC, packet state) graph, deadlock
// configurations are decided by a fixpoint (see below).
#include "hutil.hpp"
#include <sys/resource.h>
#include <systemc.h>
#include <algorithm>
#include <deque>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <tuple>
#include "booksim.hpp"
#include "booksim_config.hpp"
#include "network.hpp"
#include "routefunc.hpp"

// one call of the routing function = one sequence of choices
static std::vector<int> g_pick, g_lim;
static size_t g_pos;
static int g_rndmax = 2;
static int pick(int n) {
  if (g_pos < g_pick.size())
    return g_pick[g_pos++];
  g_pick.push_back(0);
  g_lim.push_back(n);
  g_pos++;
  return 0;
}
long __wrap_ran_next() asm("__wrap__Z8ran_nextv");
long __wrap_ran_next() { return pick(g_rndmax); }

// A router as the routing function sees it, with free choice of its credits.
struct ViewRouter : public Router {
  mutable std::map<int, int> used;
  ViewRouter(const Configuration &c, int id, int in, int out) : Router(c, 0, "view", id, in, out) {
    for (int o = 0; o < out; o++)
      AddOutputChannel(new FlitChannel(this, "view_out", 1), new CreditChannel(this, "view_cred"));
  }
  void _InternalStep() override {}
  void ReadInputs() override {}
  void WriteOutputs() override {}
  int GetUsedCredit(int o) const override {
    if (!used.count(o))
      used[o] = pick(2);
    return used[o];
  }
  int GetBufferOccupancy(int) const override { return 0; }
#ifdef TRACK_BUFFERS
  int GetUsedCreditForClass(int, int) const override { return 0; }
  int GetBufferOccupancyForClass(int, int) const override { return 0; }
#endif
  std::vector<int> UsedCredits() const override { return {}; }
  std::vector<int> FreeCredits() const override { return {}; }
  std::vector<int> MaxCredits() const override { return {}; }
};

struct PState { // a packet waiting at the end of a channel
  int chan, vc, ph, intm;
  bool operator<(const PState &o) const { return std::tie(chan, vc, ph, intm) < std::tie(o.chan, o.vc, o.ph, o.intm); }
};
struct Alt { // one possible answer of the routing function
  std::set<std::pair<int, int>> outs; // channel, vc
  int ph, intm;
  bool eject = false;
  bool operator<(const Alt &o) const { return std::tie(eject, outs, ph, intm) < std::tie(o.eject, o.outs, o.ph, o.intm); }
};

static std::string topo, rf;
static int K, VPT, T; // routers per dimension, VCs per type, types
static int NN;        // nodes
static Network *net;
static std::vector<std::unique_ptr<ViewRouter>> view;
static std::map<const FlitChannel *, int> cid; // inter-router and injection channels
static std::vector<FlitChannel *> chans;
static std::map<const FlitChannel *, int> ejid;
static tRoutingFunction fn;
static Flit::FlitType types[5] = {Flit::READ_REQUEST, Flit::WRITE_REQUEST, Flit::WRITE_DATA, Flit::READ_REPLY, Flit::WRITE_REPLY};
static std::vector<std::vector<int>> anylat, anyhop; // anynet: cheapest path latency

static std::string gscen;
#define RFAIL(fmt, ...) ex::fail("routing %s_%s k=%d vcs=%dx%d (%s): " fmt, rf.c_str(), topo.c_str(), K, T, VPT, gscen.c_str(), ##__VA_ARGS__)

static int iabs(int x) { return x < 0 ? -x : x; }
// independent distance in channels between the routers of two nodes
static int dist(int s, int d) {
  if (topo == "anynet")
    return anyhop[s][d];
  int x1, y1, x2, y2;
  if (topo == "cmesh")
    x1 = s % (2 * K) / 2, y1 = s / (2 * K) / 2, x2 = d % (2 * K) / 2, y2 = d / (2 * K) / 2;
  else
    x1 = s % K, y1 = s / K, x2 = d % K, y2 = d / K;
  int dx = iabs(x1 - x2), dy = iabs(y1 - y2);
  if (topo == "torus")
    dx = std::min(dx, K - dx), dy = std::min(dy, K - dy);
  return dx + dy;
}

static std::vector<Alt> route(const PState &p, int t, int s, int d) {
  std::set<Alt> res;
  const Router *r = chans[p.chan]->GetSink();
  if (!r)
    RFAIL("channel %s carries packets but ends nowhere", chans[p.chan]->Name().c_str());
  int in = chans[p.chan]->GetSinkPort();
  ViewRouter *v = view[r->GetID()].get();
  g_pick.clear(), g_lim.clear();
  for (;;) {
    Flit *f = Flit::New();
    f->type = types[t];
    f->head = f->tail = true;
    f->src = s, f->dest = d;
    f->vc = p.vc;
    f->ph = p.ph;
    f->intm = p.intm;
    f->cl = 0, f->watch = false;
    v->used.clear();
    g_pos = 0;
    OutputSet os;
    fn(v, f, in, &os, false);
    ex::S->transitions++;
    Alt a;
    a.ph = f->ph, a.intm = f->intm;
    if (os.GetSet().empty())
      RFAIL("no output offered at router %d for %d->%d type %d", r->GetID(), s, d, t);
    for (auto &e : os.GetSet()) {
      if (e.output_port < 0 || e.output_port >= r->NumOutputs())
        RFAIL("router %d has no output %d (for %d->%d type %d)", r->GetID(), e.output_port, s, d, t);
      if (e.vc_start > e.vc_end || e.vc_start < t * VPT || e.vc_end >= (t + 1) * VPT)
        RFAIL("packet of type %d from %d to %d is offered VCs %d-%d at router %d, its type owns VCs %d-%d", t, s, d, e.vc_start, e.vc_end,
              r->GetID(), t * VPT, (t + 1) * VPT - 1);
      FlitChannel *c = r->GetOutputChannel(e.output_port);
      if (ejid.count(c)) {
        if (ejid[c] != d)
          RFAIL("packet from %d to %d type %d is ejected at node %d", s, d, t, ejid[c]);
        a.eject = true;
      } else {
        if (!cid.count(c))
          RFAIL("output %d of router %d is not connected", e.output_port, r->GetID());
        for (int x = e.vc_start; x <= e.vc_end; x++)
          a.outs.insert({cid[c], x});
      }
    }
    if (a.eject && !a.outs.empty())
      RFAIL("packet from %d to %d may leave its destination router again", s, d);
    res.insert(a);
    f->Free();
    // next choice sequence
    while (!g_pick.empty() && g_pick.back() + 1 >= g_lim.back())
      g_pick.pop_back(), g_lim.pop_back();
    if (g_pick.empty())
      break;
    g_pick.back()++;
  }
  return {res.begin(), res.end()};
}

static void run(const std::vector<std::string> &o) {
  BookSimConfig cfg;
  auto cs = [&](const char *k, const std::string &v) { cfg.Assign(k, v); };
  auto ci = [&](const char *k, int v) { cfg.Assign(k, v); };
  cs("topology", topo);
  cs("routing_function", rf);
  ci("k", K), ci("n", 2);
  std::string anyfile;
  std::vector<std::vector<int>> w; // anynet router graph: latency or 0
  std::vector<int> home, nlat;
  if (topo == "cmesh")
    ci("c", 4), ci("xr", 2), ci("yr", 2);
  ci("use_noc_latency", std::find(o.begin(), o.end(), "nolat") == o.end());
  static const char *nm[] = {"read_request", "write_request", "write_data", "read_reply", "write_reply"};
  ci("num_vcs", T * VPT);
  for (int t = 0; t < 5; t++)
    if (t < T) {
      ci((std::string(nm[t]) + "_begin_vc").c_str(), t * VPT);
      ci((std::string(nm[t]) + "_end_vc").c_str(), (t + 1) * VPT - 1);
    }
  ci("vc_buf_size", 8), cs("router", "iq"), cs("vc_allocator", "islip"), cs("sw_allocator", "islip"), ci("alloc_iters", 1);
  ci("wait_for_tail_credit", 0);
  if (topo == "anynet") {
    // K = number of routers, o[0] = edge mask over ordered pairs with latency digits, o[1] = home routers
    w.assign(K, std::vector<int>(K, 0));
    size_t p = 0;
    for (int i = 0; i < K; i++)
      for (int j = 0; j < K; j++)
        if (i != j)
          w[i][j] = o[0][p++] - '0';
    for (char c : o[1])
      home.push_back(c - '0');
    anyfile = "/tmp/verif_any_" + std::to_string(getpid());
    std::ofstream f(anyfile);
    // format R: routers with nodes and all links, I: reverse links of latency 1
    // left to the default, N: nodes on lines of their own
    char form = o.size() > 2 && !o[2].empty() ? o[2][0] : 'R';
    for (size_t n = 0; n < home.size(); n++)
      nlat.push_back(o.size() > 3 ? o[3][n] - '0' : 1);
    auto lat = [](int l) { return l > 1 ? " " + std::to_string(l) : std::string(); };
    for (int i = 0; i < K; i++) {
      f << "router " << i;
      if (form != 'N')
        for (size_t n = 0; n < home.size(); n++)
          if (home[n] == i)
            f << " node " << n << lat(nlat[n]);
      for (int j = 0; j < K; j++)
        if (w[i][j] && (form != 'I' || w[i][j] > 1 || i < j))
          f << " router " << j << lat(w[i][j]);
      f << "\n";
    }
    if (form == 'N')
      for (size_t n = 0; n < home.size(); n++)
        f << "node " << n << " router " << home[n] << lat(nlat[n]) << "\n";
    f.close();
    cs("network_file", anyfile);
  }
  InitializeRoutingMap(cfg);
  net = Network::New(cfg, "net");
  if (!anyfile.empty())
    unlink(anyfile.c_str());
  if (!net)
    RFAIL("the network is not built");
  NN = net->NumNodes();
  int expect = topo == "cmesh" ? 4 * K * K : topo == "anynet" ? (int)home.size() : K * K;
  if (NN != expect)
    RFAIL("%d nodes instead of %d", NN, expect);
  if (!gRoutingFunctionMap.count(rf + "_" + topo))
    RFAIL("routing function unknown");
  fn = gRoutingFunctionMap[rf + "_" + topo];
  g_rndmax = NN;
  for (int i = 0; i < net->NumRouters(); i++) {
    Router *r = net->GetRouter(i);
    if (r->GetID() != i)
      RFAIL("router %d has id %d", i, r->GetID());
    view.emplace_back(new ViewRouter(cfg, i, r->NumInputs(), r->NumOutputs()));
  }
  for (int i = 0; i < NN; i++) {
    cid[net->GetInject(i)] = chans.size(), chans.push_back(net->GetInject(i));
    ejid[net->GetEject(i)] = i;
    if (!net->GetInject(i)->GetSink())
      RFAIL("node %d is not attached", i);
  }
  for (auto *c : net->GetChannels())
    cid[c] = chans.size(), chans.push_back(c);
  if (net->NumRouters() != (topo == "anynet" ? K : K * K))
    RFAIL("%d routers", net->NumRouters());
  if (topo == "anynet") { // cheapest latency, independent of the network's table
    const int INF = 1 << 20;
    std::vector<std::vector<int>> D(K, std::vector<int>(K, INF));
    for (int i = 0; i < K; i++) {
      D[i][i] = 0;
      for (int j = 0; j < K; j++)
        if (w[i][j])
          D[i][j] = w[i][j];
    }
    for (int m = 0; m < K; m++)
      for (int i = 0; i < K; i++)
        for (int j = 0; j < K; j++)
          D[i][j] = std::min(D[i][j], D[i][m] + D[m][j]);
    anyhop.assign(NN, std::vector<int>(NN));
    for (int s = 0; s < NN; s++)
      for (int d = 0; d < NN; d++)
        anyhop[s][d] = D[home[s]][home[d]];
    for (int i = 0; i < K; i++)
      for (int j = 0; j < K; j++)
        if (w[i][j]) {
          int n = 0;
          for (auto *c : net->GetChannels())
            if (c->GetSource() && c->GetSink() && c->GetSource()->GetID() == i && c->GetSink()->GetID() == j) {
              n++;
              if (c->GetLatency() != w[i][j])
                RFAIL("link %d->%d has latency %d instead of %d", i, j, c->GetLatency(), w[i][j]);
            }
          if (n != 1)
            RFAIL("%d links %d->%d", n, i, j);
        }
    if (net->NumRouters() != K)
      RFAIL("%d routers instead of %d", net->NumRouters(), K);
    for (int n = 0; n < NN; n++)
      if (net->GetInject(n)->GetLatency() != nlat[n] || net->GetEject(n)->GetLatency() != nlat[n] || net->GetInject(n)->GetSink()->GetID() != home[n])
        RFAIL("node %d is attached to router %d with latencies %d, %d instead of to %d with %d", n, net->GetInject(n)->GetSink()->GetID(),
              net->GetInject(n)->GetLatency(), net->GetEject(n)->GetLatency(), home[n], nlat[n]);
  }
  bool minimal = rf == "dim_order" || rf == "dor" || rf == "dim_order_ni" || rf == "dim_order_pni" || rf == "dim_order_bal" || rf == "xy_yx" ||
                 rf == "adaptive_xy_yx" || rf == "min_adapt" || rf == "planar_adapt" || rf == "romm" || rf == "romm_ni" || rf == "min" || rf.find("no_express") != std::string::npos;
  bool express = topo == "cmesh" && rf.find("no_express") == std::string::npos;
  bool nodl = std::find(o.begin(), o.end(), "nodeadlock") != o.end();
  size_t nst = 0, maxh = 0;
  for (int t = 0; t < T; t++) {
    // all reachable (packet state, destination) with their alternatives
    std::map<std::pair<PState, int>, std::vector<Alt>> g;
    for (int s = 0; s < NN; s++)
      for (int d = 0; d < NN; d++) {
        int D = dist(s, d), bound = express || minimal ? D : 4 * K;
        int bestlat = 1 << 30;
        std::map<PState, int> hops; // longest (or cheapest: latency) seen
        std::set<std::pair<PState, int>> seen;
        std::deque<std::pair<PState, int>> q;
        PState p0{s, t * VPT, -1, -1};
        q.push_back({p0, 0});
        seen.insert({p0, 0});
        bool arrived = false;
        while (!q.empty()) {
          auto [p, h] = q.front();
          q.pop_front();
          auto alts = route(p, t, s, d);
          ex::S->execs++;
          auto &ga = g[{p, d}];
          if (ga.empty())
            ga = alts;
          else {
            std::set<Alt> m(ga.begin(), ga.end());
            m.insert(alts.begin(), alts.end());
            ga.assign(m.begin(), m.end());
          }
          for (auto &a : alts) {
            if (a.eject) {
              arrived = true;
              if (minimal && !express && h != D)
                RFAIL("packet from %d to %d type %d takes %d links (cycles) instead of %d", s, d, t, h, D);
              maxh = std::max(maxh, (size_t)h);
              bestlat = std::min(bestlat, h);
            }
            for (auto &e : a.outs) {
              int nh = h + (topo == "anynet" ? chans[e.first]->GetLatency() : 1);
              if (nh > bound)
                RFAIL("packet from %d to %d type %d is not delivered within %d links%s", s, d, t, bound, minimal ? ", the shortest path" : "");
              PState n{e.first, e.second, a.ph, a.intm};
              if (seen.insert({n, nh}).second)
                q.push_back({n, nh}), ex::visit(hmix((uint64_t)n.chan * 4099 + n.vc) ^ hmix(n.ph * 77 + n.intm) ^ hmix(d * 31 + t) ^ hmix(std::hash<std::string>()(topo + rf) + K * 64 + VPT));
            }
          }
        }
        if (!arrived)
          RFAIL("packet from %d to %d type %d never arrives", s, d, t);
      }
    nst += g.size();
    if (nodl)
      continue;
    // Deadlock configurations.  A channel/VC is blocked when some packet that
    // can stand in it is blocked: for one possible answer of the routing
    // function either all offered channel/VCs are blocked (its head waits
    // there), or it continues into one where it is itself blocked further on
    // (its body lies here).  Greatest fixpoint over the blocked channels,
    // least fixpoint for the bodies.  Empty = no deadlock is possible.
    std::set<std::pair<int, int>> blocked;
    for (auto &[k, a] : g)
      blocked.insert({k.first.chan, k.first.vc});
    for (;;) {
      std::set<std::pair<PState, int>> b;
      for (bool more = true; more;) {
        more = false;
        for (auto &[k, alts] : g) {
          if (b.count(k))
            continue;
          bool is = false;
          for (auto &a : alts) {
            if (a.eject)
              continue;
            bool all = true, body = false;
            for (auto &e : a.outs) {
              all = all && blocked.count(e);
              body = body || b.count({PState{e.first, e.second, a.ph, a.intm}, k.second});
            }
            is = is || all || body;
          }
          if (is)
            b.insert(k), more = true;
        }
      }
      std::set<std::pair<int, int>> nb;
      for (auto &k : b)
        nb.insert({k.first.chan, k.first.vc});
      for (auto it = nb.begin(); it != nb.end();)
        it = blocked.count(*it) ? std::next(it) : nb.erase(it);
      if (nb == blocked)
        break;
      blocked = nb;
    }
    if (!blocked.empty()) {
      std::string s;
      for (auto &e : blocked)
        if (e.first >= NN && s.size() < 300)
          s += " " + std::to_string(chans[e.first]->GetSource()->GetID()) + ">" + std::to_string(chans[e.first]->GetSink()->GetID()) + ":" + std::to_string(e.second);
      RFAIL("packets of type %d can block each other forever, holding channel:VC%s", t, s.c_str());
    }
  }
  ex::S->nontrivial += nst;
  ex::sample("%s_%s k=%d, %d nodes, %d VCs x %d types: %zu (channel, VC, packet) states, all routing answers; longest path %zu; no deadlock configuration",
             rf.c_str(), topo.c_str(), K, NN, VPT, T, nst, maxh);
}

int sc_main(int argc, char **argv) {
  Args a(argc, argv);
  for (auto &sc : split(a.s("scen"), ';')) {
    // topology:function:k:vcs per type:types[:options]
    auto t = split(sc, ':');
    gscen = sc;
    topo = t[0], rf = t[1], K = atoi(t[2].c_str()), VPT = atoi(t[3].c_str()), T = atoi(t[4].c_str());
    ex::g_cpu_limit_s = 800;
    bool ok = ex::explore(sc, 0, [&]() {
      mute();
      run({t.begin() + 5, t.end()});
    });
    printf("@scen %s execs %ld cpu %.1f\n", sc.c_str(), ex::S->execs.load(), [] { struct rusage u; getrusage(RUSAGE_CHILDREN, &u); return u.ru_utime.tv_sec + u.ru_utime.tv_usec * 1e-6; }());
    fflush(stdout);
    if (!ok)
      break;
  }
  int rc = ex::report();
  fflush(stdout);
  _exit(rc);
}
