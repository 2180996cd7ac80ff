// BookSim's arbiters, allocators and routing functions, driven by a script:
//   arb TYPE N        then: r<i>[:pri] ... = <expected winner>[!]   (! = confirm the selection)
//   alloc TYPE R C    then: <i>><o>[:pri] ... [x <n>] [= <size>]: n cycles with these requests; every cycle
//                     must be a matching of requests, non-empty, of that size if given; "each in" / "each req"
//                     requires every input / request to be served in those cycles
//   net key=val ..    then: walk <n>: n random walks of every packet; "min" requires shortest paths (mesh),
//                     "cdg" requires an acyclic channel dependency graph; lat <src> <dst> <n>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <systemc.h>
#include <unistd.h>
#include "globals.hpp"
#include "booksim.hpp"
#include "booksim_config.hpp"
#include "allocator.hpp"
#include "arbiter.hpp"
#include "network.hpp"
#include "routefunc.hpp"
#include "random_utils.hpp"
using namespace std;
static int errors;
#define FAIL(...) do { if (errors++ < 5) { printf("WRONG: " __VA_ARGS__); printf("\n"); } } while (0)

static Network *net;
static tRoutingFunction fn;
static BookSimConfig *cfg;
static map<string, int> val;
static string topo, rf;

static int dist(int s, int d) {
  int k = val["k"], x1, y1, x2, y2;
  if (topo == "cmesh")
    x1 = s % (2 * k) / 2, y1 = s / (2 * k) / 2, x2 = d % (2 * k) / 2, y2 = d / (2 * k) / 2;
  else
    x1 = s % k, y1 = s / k, x2 = d % k, y2 = d / k;
  int dx = abs(x1 - x2), dy = abs(y1 - y2);
  if (topo == "torus")
    dx = min(dx, k - dx), dy = min(dy, k - dy);
  return dx + dy;
}

static void walk(int n, bool minimal, bool cdg, bool escape, int s0, int d0, int lat) {
  typedef pair<const FlitChannel *, int> CV;
  static Flit::FlitType types[5] = {Flit::READ_REQUEST, Flit::WRITE_REQUEST, Flit::WRITE_DATA, Flit::READ_REPLY, Flit::WRITE_REPLY};
  int nn = net->NumNodes(), nt = val["types"], vpt = val["num_vcs"] / nt;
  map<CV, set<CV>> dep;
  for (int t = 0; t < nt; t++)
    for (int s = 0; s < nn; s++)
      for (int d = 0; d < nn; d++)
        for (int i = 0; i < n; i++) {
          if (s0 >= 0 && (s != s0 || d != d0))
            continue;
          Flit *f = Flit::New();
          f->type = types[t], f->head = f->tail = true, f->src = s, f->dest = d, f->vc = t * vpt, f->watch = false;
          FlitChannel *c = net->GetInject(s);
          int hops = 0, cycles = 0;
          for (;; hops++) {
            const Router *r = c->GetSink();
            if (!r || hops > 4 * nn) {
              FAIL("packet %d->%d type %d is not delivered", s, d, t);
              break;
            }
            OutputSet os;
            fn(r, f, c->GetSinkPort(), &os, false);
            auto &es = os.GetSet();
            auto e = es.begin();
            advance(e, RandomInt(es.size() - 1));
            if (e->vc_start < t * vpt || e->vc_end >= (t + 1) * vpt || e->vc_start > e->vc_end)
              FAIL("packet %d->%d type %d is offered VCs %d-%d", s, d, t, e->vc_start, e->vc_end);
            FlitChannel *o = r->GetOutputChannel(e->output_port);
            if (o == net->GetEject(d))
              break;
            bool ej = false;
            for (int x = 0; x < nn; x++)
              ej = ej || o == net->GetEject(x);
            if (ej) {
              FAIL("packet %d->%d type %d is delivered to another node", s, d, t);
              break;
            }
            for (auto &q : es)
              if (escape && hops && f->vc < t * vpt + 2 && q.vc_end >= t * vpt + 2)
                FAIL("packet %d->%d type %d leaves the escape VCs", s, d, t);
            int v = e->vc_start + RandomInt(e->vc_end - e->vc_start);
            for (auto &q : es)
              for (int x = q.vc_start; x <= q.vc_end; x++)
                dep[{c, f->vc}].insert({r->GetOutputChannel(q.output_port), x});
            f->vc = v;
            c = o;
            cycles += o->GetLatency();
          }
          if (minimal && hops != dist(s, d))
            FAIL("packet %d->%d takes %d hops instead of %d", s, d, hops, dist(s, d));
          if (lat >= 0 && cycles != lat)
            FAIL("packet %d->%d takes %d cycles instead of %d", s, d, cycles, lat);
          f->Free();
        }
  if (cdg) {
    map<CV, int> col;
    function<void(CV)> dfs = [&](CV c) {
      col[c] = 1;
      for (auto &x : dep[c]) {
        if (col[x] == 1)
          FAIL("packets can wait for each other in a cycle through %s VC %d", x.first->Name().c_str(), x.second);
        else if (!col[x])
          dfs(x);
      }
      col[c] = 2;
    };
    vector<CV> all;
    for (auto &x : dep)
      all.push_back(x.first);
    for (auto &x : all)
      if (!col[x])
        dfs(x);
  }
}

int sc_main(int, char **) {
  BookSimConfig plain;
  unique_ptr<Arbiter> a;
  unique_ptr<Allocator> al;
  RandomSeed(7);
  ifstream in("spec");
  string line;
  while (getline(in, line)) {
    istringstream is(line);
    string w;
    is >> w;
    if (w.empty())
      continue;
    if (w == "arb") {
      string t;
      int n;
      is >> t >> n;
      a.reset(Arbiter::NewArbiter(0, "a", t, n));
      al.reset();
    } else if (w == "alloc") {
      string t;
      int r, c;
      is >> t >> r >> c;
      al.reset(Allocator::NewAllocator(0, "al", t, r, c, &plain));
      a.reset();
    } else if (w == "net") {
      cfg = new BookSimConfig;
      cfg->Assign("n", 2), cfg->Assign("c", 4), cfg->Assign("xr", 2), cfg->Assign("yr", 2), cfg->Assign("router", "iq");
      cfg->Assign("vc_allocator", "islip"), cfg->Assign("sw_allocator", "islip");
      while (is >> w) {
        string k = w.substr(0, w.find('=')), v = w.substr(w.find('=') + 1);
        if (k == "file") {
          ofstream o("anynet.txt");
          for (char c : v)
            o << (c == '_' ? ' ' : c == '/' ? '\n' : c);
          o << "\n";
          cfg->Assign("network_file", string("anynet.txt"));
        } else if (isdigit(v[0])) {
          val[k] = atoi(v.c_str());
          if (k != "types")
            cfg->Assign(k, val[k]);
        } else
          cfg->Assign(k, v);
      }
      topo = cfg->GetStr("topology"), rf = cfg->GetStr("routing_function");
      if (!val["types"])
        val["types"] = 1;
      static const char *nm[] = {"read_request", "write_request", "write_data", "read_reply", "write_reply"};
      int vpt = val["num_vcs"] / val["types"];
      for (int t = 0; t < val["types"]; t++) {
        cfg->Assign(string(nm[t]) + "_begin_vc", t * vpt);
        cfg->Assign(string(nm[t]) + "_end_vc", (t + 1) * vpt - 1);
      }
      InitializeRoutingMap(*cfg);
      net = Network::New(*cfg, "net");
      fn = gRoutingFunctionMap[rf + "_" + topo];
    } else if (w == "walk" || w == "lat") {
      int n = 1, s = -1, d = -1, l = -1;
      bool mn = false, cd = false, es = false;
      if (w == "lat")
        is >> s >> d >> l;
      else
        is >> n;
      while (is >> w)
        mn = mn || w == "min", cd = cd || w == "cdg", es = es || w == "escape";
      walk(n, mn, cd, es, s, d, l);
    } else if (a) {
      int want = -1;
      bool conf = false;
      do {
        if (w[0] == 'r') {
          int i = atoi(w.c_str() + 1), p = w.find(':') == string::npos ? 0 : atoi(w.c_str() + w.find(':') + 1);
          a->AddRequest(i, 100 + i, p);
        } else if (w == "=") {
          is >> w;
          want = atoi(w.c_str());
          conf = w.back() == '!';
        }
      } while (is >> w);
      int id = -2, pri = -2, got = a->Arbitrate(&id, &pri);
      if (got != want || (got >= 0 && id != 100 + got))
        FAIL("%s: selects %d (id %d)", line.c_str(), got, id);
      if (conf)
        a->UpdateState();
      a->Clear();
    } else {
      map<pair<int, int>, pair<int, int>> req;
      int n = 1, size = -1;
      bool eachin = false, eachreq = false;
      do {
        if (w.find('>') != string::npos) {
          int i = atoi(w.c_str()), o = atoi(w.c_str() + w.find('>') + 1), p = w.find(':') == string::npos ? 0 : atoi(w.c_str() + w.find(':') + 1);
          size_t sl = w.find('/');
          req[{i, o}] = {p, sl == string::npos ? p : atoi(w.c_str() + sl + 1)};
        } else if (w == "x")
          is >> n;
        else if (w == "=")
          is >> size;
        else if (w == "each") {
          is >> w;
          (w == "in" ? eachin : eachreq) = true;
        }
      } while (is >> w);
      set<int> ins;
      set<pair<int, int>> reqs;
      for (int i = 0; i < n; i++) {
        al->Clear();
        for (auto &r : req)
          al->AddRequest(r.first.first, r.first.second, 1, r.second.first, r.second.second);
        al->Allocate();
        set<int> ui, uo;
        for (int x = 0; x < 16; x++) {
          bool has = false;
          for (auto &r : req)
            has = has || r.first.first == x;
          if (!has)
            continue;
          int o = al->OutputAssigned(x);
          if (o < 0)
            continue;
          if (!req.count({x, o}) || uo.count(o) || al->InputAssigned(o) != x)
            FAIL("%s: grants %d>%d", line.c_str(), x, o);
          uo.insert(o), ui.insert(x), ins.insert(x), reqs.insert({x, o});
        }
        if (!req.empty() && (ui.empty() || (size >= 0 && (int)ui.size() != size)))
          FAIL("%s: cycle %d grants %zu requests", line.c_str(), i, ui.size());
      }
      for (auto &r : req)
        if ((eachin && !ins.count(r.first.first)) || (eachreq && !reqs.count(r.first)))
          FAIL("%s: %d>%d is never served", line.c_str(), r.first.first, r.first.second);
    }
  }
  fflush(stdout);
  _exit(errors != 0);
}
