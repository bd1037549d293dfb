// schedule checking for the demonstrations
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <set>
#include "aggregation/lbc.h"
#include "aggregation/hdagg.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/sparse_utilities.h"
typedef std::vector<int> V;
static unsigned long long S = 88172645463325252ull;
static unsigned rnd() { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return (unsigned)(S >> 11); }
struct G { int n; V p, i; };
static G make(int n, std::set<std::pair<int,int>> e) {
  G g; g.n = n; g.p.push_back(0);
  for (int j = 0; j < n; ++j) { g.i.push_back(j); for (auto it = e.lower_bound({j, 0}); it != e.end() && it->first == j; ++it) if (it->second > j && it->second < n) g.i.push_back(it->second); g.p.push_back((int)g.i.size()); }
  return g;
}
// random layered graphs, trees, bands, hubs
static G graph() {
  int n = 2 + rnd() % 60, kind = rnd() % 6; std::set<std::pair<int,int>> e;
  for (int j = 0; j + 1 < n; ++j) {
    if (kind == 0) { int k = rnd() % 3; while (k--) e.insert({j, j + 1 + (int)(rnd() % (n - j - 1))}); }
    else if (kind == 1) e.insert({j, j + 1 + (int)(rnd() % (n - j - 1))});
    else if (kind == 2) { for (int k = 1; k < 4 && j + k < n; ++k) if (rnd() % 2) e.insert({j, j + k}); }
    else if (kind == 3) { if (rnd() % 3) e.insert({j, std::min(n - 1, j + 1 + (int)(rnd() % 6))}); }
    else if (kind == 4) { int k = 5; if (j + k < n) e.insert({j, j + k}); if (rnd() % 6 == 0 && j + 7 < n) e.insert({j, j + 7}); }
    else { if (j < n / 2) { e.insert({j, n / 2 + (int)(rnd() % (n - n / 2))}); } else if (rnd() % 4 == 0) e.insert({j, j + 1 + (int)(rnd() % (n - j - 1))}); }
  }
  return make(n, e);
}
static int bad = 0;
static void fail(const char *who, const char *what, int a = 0, int b = 0) { if (bad++ < 3) printf("DEMO %s: %s %d %d\n", who, what, a, b); }
static void check(const char *who, const G &g, int nl, const int *lp, const int *pp, const int *ns) {
  int n = g.n; V lev(n, -1), part(n), pos(n); int cnt = 0;
  if (nl < 1) { fail(who, "no levels", nl); return; }
  for (int l = 0; l < nl; ++l) for (int q = lp[l]; q < lp[l + 1]; ++q) for (int t = pp[q]; t < pp[q + 1]; ++t) {
    int v = ns[t]; if (v < 0 || v >= n) { fail(who, "bad node", v); return; }
    if (lev[v] >= 0) { fail(who, "node twice", v); return; } lev[v] = l; part[v] = q; pos[v] = t; ++cnt; }
  if (cnt != n) { fail(who, "nodes missing", cnt, n); return; }
  for (int u = 0; u < n; ++u) for (int k = g.p[u] + 1; k < g.p[u + 1]; ++k) { int v = g.i[k];
    if (!(lev[u] < lev[v] || (lev[u] == lev[v] && part[u] == part[v] && pos[u] < pos[v]))) { fail(who, "edge violated", u, v); return; } }
}
