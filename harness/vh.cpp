#include "vh.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <iostream>
#include <numeric>

namespace vh {
static std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
const std::vector<Prop> &all_props() { return props(); }
void register_prop(const char *id, CaseFn fn) { props().push_back({id, fn}); }

static int g_log = 2;
static void wr(const std::string &s) {
  size_t o = 0;
  while (o < s.size()) {
    ssize_t k = ::write(g_log, s.data() + o, s.size() - o);
    if (k <= 0) break;
    o += (size_t)k;
  }
}
static std::string esc(const std::string &s) {
  std::string o;
  for (char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if ((unsigned char)ch < 32) o += ' ';
    else if ((unsigned char)ch > 126) o += '?';
    else o += ch;
  }
  return o;
}
void Ctx::note(const char *fmt, ...) {
  char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  desc += b;
}
void Ctx::fail(const std::string &key, const char *fmt, ...) {
  char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  for (auto &v : viol) if (v.key == key) return;
  if (viol.size() < 20) viol.push_back({key, b});
  if (verbose) fprintf(stderr, "FAIL %s: %s\n", key.c_str(), b);
}
void Ctx::stage(const std::string &s) {
  if (!shared) { std::string l = "S " + s + "\n"; wr(l); }
  cur = s;
  if (verbose) fprintf(stderr, "stage %s\n", s.c_str());
  add("call." + s.substr(0, s.find(' ')));
}
template <class T> static std::string v2s(const std::vector<T> &v, size_t lim) {
  std::string s = "[";
  for (size_t k = 0; k < v.size() && k < lim; ++k) {
    char b[40];
    if (sizeof(T) == sizeof(double)) snprintf(b, sizeof b, "%s%.17g", k ? "," : "", (double)v[k]);
    else snprintf(b, sizeof b, "%s%d", k ? "," : "", (int)v[k]);
    s += b;
  }
  if (v.size() > lim) s += ",..." + std::to_string(v.size()) + " entries";
  return s + "]";
}
std::string vec2s(const std::vector<int> &v, size_t lim) { return v2s(v, lim); }
std::string vec2s(const std::vector<double> &v, size_t lim) { return v2s(v, lim); }

// ------------------------------------------------------------------------ DAGs
Dag dag_from_edges(int n, std::vector<std::pair<int, int>> e, const std::string &kind) {
  Dag d; d.n = n; d.kind = kind;
  std::vector<std::vector<int>> ch(n);
  for (auto &x : e) if (x.first < x.second && x.first >= 0 && x.second < n) ch[x.first].push_back(x.second);
  d.p.push_back(0);
  for (int j = 0; j < n; ++j) {
    std::sort(ch[j].begin(), ch[j].end());
    ch[j].erase(std::unique(ch[j].begin(), ch[j].end()), ch[j].end());
    d.i.push_back(j);
    for (int r : ch[j]) d.i.push_back(r);
    d.p.push_back((int)d.i.size());
  }
  return d;
}
const int N_DAG_KINDS = 20;
Dag gen_dag_kind(Rng &r, int kind, int n) {
  std::vector<std::pair<int, int>> e;
  auto E = [&](int a, int b) { e.push_back({a, b}); };
  std::string name;
  if (n > 20000) { if (kind == 2 || kind == 11 || kind == 15 || kind == 17 || kind == 8) kind = 3; if (kind == 19) kind = 5; }  // linear effort
  switch (kind) {
  case 0: name = "diagonal"; break;
  case 1: name = "chain"; for (int j = 0; j + 1 < n; ++j) E(j, j + 1); break;
  case 2: { name = "random"; static const double ds[] = {0.01, 0.03, 0.08, 0.2, 0.5};
    double d = ds[r.range(0, 4)];
    for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) if (r.chance(d)) E(a, b);
    break; }
  case 3: { name = "banded"; int w = r.range(1, 6); double k = 0.3 + 0.7 * r.unit();
    for (int a = 0; a < n; ++a) for (int b = a + 1; b <= a + w && b < n; ++b) if (r.chance(k)) E(a, b);
    break; }
  case 4: { name = "tree"; for (int j = 0; j + 1 < n; ++j) E(j, r.range(j + 1, n - 1)); break; }
  case 5: { name = "forest"; double k = r.unit(); int w = r.range(1, 8);
    for (int j = 0; j + 1 < n; ++j) if (r.chance(k)) E(j, r.range(j + 1, std::min(n - 1, j + w)));
    break; }
  case 6: name = "arrow_row"; for (int j = 0; j + 1 < n; ++j) E(j, n - 1); break;
  case 7: name = "arrow_col"; for (int j = 1; j < n; ++j) E(0, j); break;
  case 8: name = "dense"; { int m = std::min(n, 24); n = m; for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) E(a, b); } break;
  case 9: { name = "blocks"; int s = 0;
    while (s < n) { int t = std::min(n, s + r.range(1, 9)); double d = r.unit();
      for (int a = s; a < t; ++a) for (int b = a + 1; b < t; ++b) if (r.chance(d)) E(a, b);
      s = t; }
    break; }
  case 10: case 11: { name = kind == 10 ? "grid" : "grid_factor";
    int w = std::max(1, r.range(1, (int)std::sqrt((double)n) + 1)), h = std::max(1, n / w); n = w * h;
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
      if (x + 1 < w) E(y * w + x, y * w + x + 1);
      if (y + 1 < h) E(y * w + x, (y + 1) * w + x); }
    break; }
  case 12: { name = "layered"; std::vector<int> lev(n); int l = 0;
    int maxw = r.range(1, std::max(1, n / 2)); int pos = 0;
    std::vector<std::pair<int, int>> rng;
    while (pos < n) { int w = std::min(n - pos, r.range(1, maxw)); rng.push_back({pos, pos + w}); pos += w; ++l; }
    for (int k = 1; k < (int)rng.size(); ++k)
      for (int b = rng[k].first; b < rng[k].second; ++b) {
        int t = r.range(1, 3);
        while (t--) { int q = r.chance(0.8) ? k - 1 : r.range(0, k - 1); E(r.range(rng[q].first, rng[q].second - 1), b); } }
    break; }
  case 13: { name = "chains"; int k = r.range(1, 8); for (int j = 0; j + k < n; ++j) E(j, j + k); break; }
  case 14: { name = "hubs"; int k = r.range(1, 4);
    for (int t = 0; t < k; ++t) { int h = r.range(0, n - 1);
      for (int j = 0; j < n; ++j) if (j != h && r.chance(0.4)) E(std::min(h, j), std::max(h, j)); }
    break; }
  case 15: { name = "bipartite"; int h = std::max(1, n / 2); double d = r.unit() * 0.4;
    for (int a = 0; a < h; ++a) for (int b = h; b < n; ++b) if (r.chance(d)) E(a, b);
    break; }
  case 16: { name = "spine"; for (int j = 0; j + 2 < n; j += 2) { E(j, j + 2); E(j + 1, j + 2); } break; }
  case 17: { name = "random_factor"; double d = r.chance(0.5) ? 0.05 : 0.12;
    for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) if (r.chance(d)) E(a, b);
    break; }
  case 18: { name = "binary_tree"; // children before parents
    for (int j = 0; j + 1 < n; ++j) { int k = n - 1 - j; E(j, n - 1 - (k - 1) / 2); }
    break; }
  default: { name = "mixed";  // independent components of different shapes
    int s = 0;
    while (s < n) { int t = std::min(n, s + r.range(1, std::max(1, n / 2)));
      int k = r.range(0, 3);
      for (int a = s; a + 1 < t; ++a) {
        if (k == 0) E(a, a + 1); else if (k == 1) E(a, r.range(a + 1, t - 1));
        else if (k == 2) { for (int b = a + 1; b < t; ++b) if (r.chance(0.15)) E(a, b); } }
      s = t; }
    break; }
  }
  Dag d = dag_from_edges(n, e, name);
  if (kind == 11 || kind == 17) { d = cholesky_fill(d); d.kind = name; }
  return d;
}
Dag relabel_topological(Rng &r, const Dag &d) {
  // random linear extension of d
  int n = d.n; std::vector<int> indeg(n, 0), ready, pos(n);
  for (int j = 0; j < n; ++j) for (int k = d.p[j] + 1; k < d.p[j + 1]; ++k) indeg[d.i[k]]++;
  for (int j = 0; j < n; ++j) if (!indeg[j]) ready.push_back(j);
  int t = 0;
  while (!ready.empty()) {
    int q = r.range(0, (int)ready.size() - 1); int v = ready[q]; ready[q] = ready.back(); ready.pop_back();
    pos[v] = t++;
    for (int k = d.p[v] + 1; k < d.p[v + 1]; ++k) if (--indeg[d.i[k]] == 0) ready.push_back(d.i[k]);
  }
  std::vector<std::pair<int, int>> e;
  for (int j = 0; j < n; ++j) for (int k = d.p[j] + 1; k < d.p[j + 1]; ++k) e.push_back({pos[j], pos[d.i[k]]});
  return dag_from_edges(n, e, d.kind + "+relabel");
}
static double g_huge = 0; static int g_huge_n = 5000;   // share of the graphs with thousands of nodes
static int g_giant = -1;   // shape of the next graph if it is to have more than 65536 nodes
bool giant() { bool g = g_giant >= 0; if (g) g_giant = -1; return g; }
bool giant_next() { return g_giant >= 0; }
// a node with so many parents, or children, that a counter of eight bits is back at 0 or 1
static Dag gen_counted(Rng &r) {
  int D = r.pick(std::vector<int>{127, 128, 129, 255, 256, 256, 256, 257, 257, 257, 258, 513}), tail = r.range(0, 40), mode = r.range(0, 3), lead = mode == 1 ? 0 : D, n = lead + 1 + (mode == 0 ? 0 : mode == 3 ? r.range(1, 3) : D) + tail;
  std::vector<std::pair<int, int>> e; bool plain = r.chance(0.6);
  if (mode != 1) for (int j = 0; j < D; ++j) e.push_back({j, D});               // D parents of the hub
  if (mode == 1 || mode == 2) for (int j = 0; j < D; ++j) e.push_back({lead, lead + 1 + j});   // D children
  if (mode == 3) e.push_back({lead, lead + 1});
  if (!plain) for (int k = r.range(1, 20); k > 0; --k) { int a = r.range(0, n - 2); e.push_back({a, r.range(a + 1, std::min(n - 1, a + 5))}); }
  for (int j = n - tail; j < n; ++j) if (j > 0 && r.chance(0.7)) e.push_back({r.chance(0.6) ? j - 1 : r.range(0, j - 1), j});
  std::sort(e.begin(), e.end()); e.erase(std::unique(e.begin(), e.end()), e.end());
  if (r.chance(0.3)) e.erase(e.begin() + r.range(0, (int)e.size() - 1));
  Dag d = dag_from_edges(n, e, "counted"); return r.chance(0.25) ? relabel_topological(r, d) : d;
}
Dag gen_dag(Rng &r, int max_n) {
  int n;
  double u = r.unit();
  if (u < 0.12) n = r.range(1, 4);
  else if (u < 0.55) n = r.range(2, 20);
  else if (u < 0.9) n = r.range(10, 70);
  else n = r.range(40, std::max(40, max_n));
  n = std::min(n, max_n);
  int kind = r.range(0, N_DAG_KINDS - 1);
  if (max_n >= 100 && r.chance(0.006)) { n = r.range(200, 1500); kind = r.pick(std::vector<int>{0, 1, 3, 4, 5, 6, 7, 10, 13, 14, 16, 18}); }  // size thresholds
  if (max_n >= 100 && r.unit() < g_huge) { n = r.range(1500, g_huge_n); kind = r.pick(std::vector<int>{0, 1, 3, 4, 5, 6, 7, 10, 13, 14, 16, 18}); }
  if (g_giant < 0 && max_n >= 60 && r.chance(0.01)) return gen_counted(r);
  if (g_giant >= 0) { n = r.chance(0.4) ? r.range(65537, 65539) : r.range(65540, 70000); kind = g_giant; g_giant = -1; }
  Dag d = gen_dag_kind(r, kind, n);
  if (r.chance(0.25)) d = relabel_topological(r, d);
  return d;
}
Dag cholesky_fill(const Dag &d) {
  int n = d.n; std::vector<std::set<int>> col(n);
  for (int j = 0; j < n; ++j) for (int k = d.p[j] + 1; k < d.p[j + 1]; ++k) col[j].insert(d.i[k]);
  std::vector<std::pair<int, int>> e;
  for (int j = 0; j < n; ++j) {
    if (!col[j].empty()) {
      int par = *col[j].begin();
      for (int r : col[j]) if (r != par) col[par].insert(r);
    }
    for (int r : col[j]) e.push_back({j, r});
  }
  return dag_from_edges(n, e, d.kind + "+fill");
}
std::vector<int> longest_path_levels(const Dag &d) {
  std::vector<int> l(d.n, 0);
  for (int j = 0; j < d.n; ++j) for (int k = d.p[j]; k < d.p[j + 1]; ++k) if (d.i[k] != j) l[d.i[k]] = std::max(l[d.i[k]], l[j] + 1);
  return l;
}
std::vector<int> ref_etree(const Dag &d) {
  Dag f = cholesky_fill(d); std::vector<int> par(d.n, -1);
  for (int j = 0; j < d.n; ++j) if (f.p[j + 1] - f.p[j] > 1) par[j] = f.i[f.p[j] + 1];
  return par;
}
std::string dag2s(const Dag &d) {
  return "kind=" + d.kind + " n=" + std::to_string(d.n) + " p=" + vec2s(d.p) + " i=" + vec2s(d.i, 1500);
}
void mix_dag(Ctx &c, const Dag &d) {
  c.mix(d.n); c.mixv(d.p); c.mixv(d.i);
  c.add("in.nodes", d.n); c.add("in.edges", d.edges());
  c.add("shape." + d.kind);
}
std::vector<std::vector<uint64_t>> closure(int n, const std::vector<int> &p, const std::vector<int> &i) {
  int w = (n + 63) / 64; std::vector<std::vector<uint64_t>> r(n, std::vector<uint64_t>(w, 0));
  for (int j = n - 1; j >= 0; --j)
    for (int k = p[j]; k < p[j + 1]; ++k) {
      int t = i[k]; if (t == j) continue;
      r[j][t / 64] |= 1ull << (t % 64);
      for (int q = 0; q < w; ++q) r[j][q] |= r[t][q];
    }
  return r;
}

// -------------------------------------------------------------- schedule monitor
// layers of more than 250,000 / dist nodes: with these tuning values LBC gets one or two windows of more than 250,000 nodes
Dag gen_layers(Rng &r, int dist, int div) {
  int big = r.range(1, 2), m = 251000 / std::min(dist, big > 1 ? div : dist) + r.range(0, 2000), H = dist + (big > 1 ? div : 0) + r.range(1, 2), n = m * H, span = r.range(1, 60);
  Dag d; d.n = n; d.p.assign(1, 0); d.kind = "layers";
  for (int u = 0; u < n; ++u) {   // node k of a layer precedes node k of the next one, or two nodes of its block of `span`
    d.i.push_back(u); int k = u % m, up = u - k + m;
    if (u + m < n) { int t = std::min(m - 1, k / span * span + r.range(0, span - 1)), a = std::min(k, t), b = std::max(k, t); if (a == b || r.chance(0.8)) d.i.push_back(u + m); else { d.i.push_back(up + a); d.i.push_back(up + b); } }
    d.p.push_back((int)d.i.size());
  }
  return d;
}
void check_aggregation(Ctx &c, const std::string &who, const Dag &d, const std::vector<int> &lev, const Sched &s, bool pieces) {
  int nw = 0; for (int x : lev) nw = std::max(nw, x + 1);
  if (s.nlev > nw) c.fail(who + ":more_levels", "%s: %d levels for %d wavefronts", who.c_str(), s.nlev, nw);
  std::vector<int> of(d.n), part(d.n), lo(s.nlev, nw), hi(s.nlev, -1);
  for (int l = 0; l < s.nlev; ++l) for (int q = s.lptr[l]; q < s.lptr[l + 1]; ++q) for (int k = s.pptr[q]; k < s.pptr[q + 1]; ++k) { int v = s.nset[k]; of[v] = l; part[v] = q; lo[l] = std::min(lo[l], lev[v]); hi[l] = std::max(hi[l], lev[v]); }
  int at = 0;
  for (int l = 0; l < s.nlev; ++l) { if (lo[l] > hi[l]) { c.fail(who + ":empty_level", "%s: level %d holds no node", who.c_str(), l); return; } if (lo[l] != at) { c.fail(who + ":wavefronts", "%s: level %d begins with wavefront %d instead of %d", who.c_str(), l, lo[l], at); return; } at = hi[l] + 1; }
  c.add("obs.merged_wavefronts", nw - s.nlev); c.add("obs.levels", s.nlev);
  if (!pieces) return;
  std::vector<int> root(d.n); for (int v = 0; v < d.n; ++v) root[v] = v;
  std::function<int(int)> find = [&](int v) { while (root[v] != v) v = root[v] = root[root[v]]; return v; };
  for (int u = 0; u < d.n; ++u) for (int k = d.p[u]; k < d.p[u + 1]; ++k) if (of[d.i[k]] == of[u]) root[find(u)] = find(d.i[k]);
  std::map<int, int> piece; for (int v = 0; v < d.n; ++v) { auto it = piece.emplace(part[v], find(v)); if (it.first->second != find(v)) { c.fail(who + ":part_not_connected", "%s: part %d holds nodes that are not connected inside its level", who.c_str(), part[v]); return; } }
  c.add("obs.connected_parts", (long)piece.size());
}
bool check_schedule_shape(Ctx &c, const std::string &who, int n, const Sched &s) {
  size_t before = c.viol.size();
  c.out(s.nlev); c.outv(s.lptr); c.outv(s.pptr); c.outp(s.nset.data(), s.pptr.empty() ? 0 : std::min(s.nset.size(), (size_t)std::max(0, s.pptr.back())));
  if (s.nlev < 0 || (int)s.lptr.size() < s.nlev + 1) { c.fail(who + ":levels", "%s: level count %d, pointer array of %zu", who.c_str(), s.nlev, s.lptr.size()); return false; }
  if (n > 0 && s.nlev < 1) { c.fail(who + ":levels", "%s: %d levels for %d nodes", who.c_str(), s.nlev, n); return false; }
  if (s.lptr[0] != 0) c.fail(who + ":level_ptr", "%s: level_ptr[0]=%d", who.c_str(), s.lptr[0]);
  for (int l = 0; l < s.nlev; ++l) if (s.lptr[l + 1] < s.lptr[l]) { c.fail(who + ":level_ptr", "%s: level_ptr not monotone at %d", who.c_str(), l); return false; }
  int P = s.lptr[s.nlev];
  if (P < 0 || (int)s.pptr.size() < P + 1) { c.fail(who + ":part_ptr", "%s: %d parts, pointer array of %zu", who.c_str(), P, s.pptr.size()); return false; }
  if (s.pptr[0] != 0) c.fail(who + ":part_ptr", "%s: part_ptr[0]=%d", who.c_str(), s.pptr[0]);
  for (int q = 0; q < P; ++q) if (s.pptr[q + 1] < s.pptr[q]) { c.fail(who + ":part_ptr", "%s: part_ptr not monotone at %d", who.c_str(), q); return false; }
  if (s.pptr[P] > (int)s.nset.size()) { c.fail(who + ":part_ptr", "%s: part_ptr ends at %d beyond %zu nodes", who.c_str(), s.pptr[P], s.nset.size()); return false; }
  if (s.pptr[P] != n) c.fail(who + ":complete", "%s: schedule holds %d nodes, graph has %d", who.c_str(), s.pptr[P], n);
  std::vector<int> seen(n, 0);
  for (int q = 0; q < s.pptr[P]; ++q) {
    int v = s.nset[q];
    if (v < 0 || v >= n) { c.fail(who + ":range", "%s: node id %d at position %d", who.c_str(), v, q); return false; }
    if (++seen[v] == 2) c.fail(who + ":duplicate", "%s: node %d scheduled twice", who.c_str(), v);
  }
  for (int v = 0; v < n; ++v) if (!seen[v]) { c.fail(who + ":missing", "%s: node %d never scheduled", who.c_str(), v); break; }
  c.add("obs.levels", s.nlev); c.add("obs.parts", P); c.add("obs.nodes", s.pptr[P]);
  return c.viol.size() == before;
}
bool check_schedule(Ctx &c, const std::string &who, const Dag &d, const Sched &s, int max_parts) {
  if (!check_schedule_shape(c, who, d.n, s)) return false;
  size_t before = c.viol.size();
  int n = d.n; std::vector<int> lev(n), part(n), pos(n);
  int wide = 0, coarse = 0;
  for (int l = 0; l < s.nlev; ++l) {
    int np = s.lptr[l + 1] - s.lptr[l], nonempty = 0;
    if (np > 1) ++wide;
    for (int q = s.lptr[l]; q < s.lptr[l + 1]; ++q) {
      if (s.pptr[q + 1] > s.pptr[q]) ++nonempty;
      if (s.pptr[q + 1] - s.pptr[q] > 1) ++coarse;
      for (int t = s.pptr[q]; t < s.pptr[q + 1]; ++t) { int v = s.nset[t]; lev[v] = l; part[v] = q; pos[v] = t; }
    }
    if (max_parts > 0 && np > max_parts) c.fail(who + ":parts", "%s: level %d has %d parts, at most %d requested", who.c_str(), l, np, max_parts);
    (void)nonempty;
  }
  long same = 0, cross = 0;
  for (int u = 0; u < n; ++u)
    for (int k = d.p[u]; k < d.p[u + 1]; ++k) {
      int v = d.i[k]; if (v == u) continue;
      if (lev[u] < lev[v]) { ++cross; continue; }
      if (lev[u] == lev[v] && part[u] == part[v] && pos[u] < pos[v]) { ++same; continue; }
      if (lev[u] == lev[v] && part[u] != part[v])
        c.fail(who + ":race", "%s: edge %d->%d crosses concurrent parts %d,%d of level %d", who.c_str(), u, v, part[u], part[v], lev[u]);
      else
        c.fail(who + ":order", "%s: edge %d->%d violated (level/part/pos %d/%d/%d vs %d/%d/%d)", who.c_str(), u, v, lev[u], part[u], pos[u], lev[v], part[v], pos[v]);
    }
  c.add("obs.edges_same_part", same); c.add("obs.edges_cross_level", cross);
  c.add("obs.levels_with_parallelism", wide); c.add("obs.parts_with_several_nodes", coarse);
  c.mixv(s.lptr); c.mixv(s.pptr); c.mixv(s.nset);
  return c.viol.size() == before;
}

// ---------------------------------------------------------------- dense matrices
Mat gen_mat(Rng &r, int m, int n, double density, bool full_diag) {
  Mat a; a.m = m; a.n = n; a.p.push_back(0); bool wide = r.chance(0.3);   // values that do not fit a float
  if ((double)m * n > 3e7) {   // a few entries in each column
    for (int j = 0; j < n; ++j) {
      std::set<int> s; if (full_diag && j < m) s.insert(j); if (density > 0) for (int k = r.range(0, 4); k > 0; --k) s.insert(r.range(0, m - 1));
      for (int i : s) { a.i.push_back(i); a.x.push_back((double)r.range(-50, 50) / 8.0 + 0.0625); }
      a.p.push_back((int)a.i.size());
    }
    return a;
  }
  for (int j = 0; j < n; ++j) {
    for (int i = 0; i < m; ++i) if ((full_diag && i == j) || r.chance(density)) { a.i.push_back(i); a.x.push_back(wide && r.chance(0.2) ? (double)((r.range(0, 33554431) * 2 + 1) * (r.chance(0.5) ? 1 : -1)) : (double)r.range(-50, 50) / 8.0 + 0.0625); }
    a.p.push_back((int)a.i.size());
  }
  return a;
}
Mat mat_from_dag(Rng &r, const Dag &d) {
  Mat a; a.m = a.n = d.n; a.p = d.p; a.i = d.i; a.x.resize(d.i.size());
  for (int j = 0; j < d.n; ++j)
    for (int k = d.p[j]; k < d.p[j + 1]; ++k)
      a.x[k] = d.i[k] == j ? 2.0 + r.unit() : (r.unit() - 0.5) / (1.0 + 0.25 * (d.p[j + 1] - d.p[j]));
  return a;
}
std::vector<double> dense_of(const Mat &a) {
  std::vector<double> d((size_t)a.m * a.n, 0.0);
  for (int j = 0; j < a.n; ++j) for (int k = a.p[j]; k < a.p[j + 1]; ++k) d[(size_t)j * a.m + a.i[k]] += a.x[k];
  return d;
}
std::string mat2s(const Mat &a) {
  return std::to_string(a.m) + "x" + std::to_string(a.n) + " p=" + vec2s(a.p) + " i=" + vec2s(a.i, 800) + " x=" + vec2s(a.x, 120);
}
}  // namespace vh

// ------------------------------------------------------------------------- main
using namespace vh;
static void on_prof(int) { const char m[] = "H\n"; if (::write(vh::g_log, m, 2)) {} _exit(77); }
static uint64_t fnv(const char *s) { uint64_t h = 1469598103934665603ull; while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull; return h; }

// which cases have more than 65536 rows, and of which shapes (a diagonal, b chain, c banded, d tree, e forest, f arrow row,
// g arrow column, h grid, i chains, j spine, k binary tree); shapes on which the code takes quadratic time are left out
static const struct Giant { const char *id; long every; const char *kinds; } GIANTS[] = {
  {"C01", 10000, "adfhk"}, {"C02", 13000, "abcdefik"}, {"C03", 8000, "abdfk"}, {"C04", 7000, "adfk"}, {"C05", 15000, "abcdefghijk"}, {"C06", 8000, "adfk"},
  {"C07", 2000, "adfk"}, {"C09", 25000, "abcdefghijk"}, {"C10", 1500, "abcdefhijk"}, {"C11", 1500, "abdefhijk"}, {"C12", 8000, "abcdefghijk"}, {"C13", 8000, "adfk"},
  {"C14", 3500, "a"}, {"C15", 4000, "a"}, {"C16", 1000, "adfk"}, {"C17", 3000, "abcdefghijk"}, {"C19", 3000, "abcdefhijk"}, {"C20", 1900, "abdefgijk"}, {"C21", 9000, "abcdefijk"}, {"C22", 7000, "adfk"},
  {"C23", 25000, "abcdefghijk"}, {"C26", 2500, "abcdehijk"}, {"C29", 7000, "acdefk"}, {"C30", 3000, "adfk"}};

int main(int argc, char **argv) {
  if (argc < 2) { for (auto &p : props()) printf("%s\n", p.id); return 0; }
  std::string id = argv[1], log, tier = "quick", work = "/tmp"; uint64_t seed = 1; long from = 0, to = 1; bool verbose = false; int cpu = 60;
  for (int a = 2; a < argc; ++a) {
    std::string k = argv[a]; auto val = [&]() { return std::string(++a < argc ? argv[a] : ""); };
    if (k == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (k == "--from") from = atol(val().c_str());
    else if (k == "--to") to = atol(val().c_str());
    else if (k == "--tier") tier = val();
    else if (k == "--log") log = val();
    else if (k == "--work") work = val();
    else if (k == "--cpu") cpu = atoi(val().c_str());
    else if (k == "--verbose") verbose = true;
  }
  if (!log.empty()) { g_log = ::open(log.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); if (g_log < 0) { perror("log"); return 3; } }
  std::vector<CaseFn> fns; for (auto &p : props()) if (id == p.id) fns.push_back(p.fn);
  if (fns.empty()) { fprintf(stderr, "no such property %s\n", id.c_str()); return 3; }
  signal(SIGPROF, on_prof);
  if (id == "C01" || id == "C04" || id == "C05" || id == "C09" || id == "C11" || id == "C21" || id == "C23" || id == "C30") vh::g_huge = 0.0005;
  else if (id == "C10") vh::g_huge = 0.003;   // size limits of the groups begin with 2000 nodes
  else if (id == "C02" || id == "C03" || id == "C06" || id == "C12" || id == "C13" || id == "C22" || id == "C29") { vh::g_huge = 0.0003; vh::g_huge_n = 2200; }
  if (const char *g = getenv("VH_HUGE")) vh::g_huge = atof(g);
  for (long i = from; i < to; ++i) {
    wr("B " + std::to_string(i) + "\n");
    Ctx c(fnv(id.c_str()) ^ (seed * 1000003ull + (uint64_t)i * 2654435761ull));
    c.idx = i; c.thorough = tier == "thorough"; c.verbose = verbose; c.workdir = work;
    vh::g_giant = -1;
    if (getenv("VH_GIANT")) vh::g_giant = atoi(getenv("VH_GIANT"));
    else if (!getenv("VH_NOGIANT")) for (auto &g : GIANTS) if (id == g.id && i % g.every == g.every - 3) { std::string k = g.kinds; vh::g_giant = std::vector<int>{0, 1, 3, 4, 5, 6, 7, 10, 13, 16, 18}[k[(size_t)((i / g.every + (long)seed) % (long)k.size())] - 'a']; c.add("in.beyond_65536_rows"); }
    struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = vh::g_giant >= 0 ? 3 * cpu : cpu; setitimer(ITIMER_PROF, &tv, 0);
    for (CaseFn fn : fns) fn(c);
    memset(&tv, 0, sizeof tv); setitimer(ITIMER_PROF, &tv, 0);
    if (verbose) fprintf(stderr, "case %ld: %s\n", i, c.desc.c_str());
    std::string o = "E {\"i\":" + std::to_string(i) + ",\"h\":\"" + std::to_string(c.hash) + "\",\"nt\":" + (c.nontrivial ? "1" : "0") + ",\"c\":{";
    bool first = true;
    for (auto &kv : c.cnt) { o += (first ? "\"" : ",\"") + esc(kv.first) + "\":" + std::to_string(kv.second); first = false; }
    o += "},\"v\":["; first = true;
    for (auto &v : c.viol) { o += std::string(first ? "" : ",") + "[\"" + esc(v.key) + "\",\"" + esc(v.msg) + "\"]"; first = false; }
    o += "]";
    if (!c.viol.empty() || i < 3) o += ",\"d\":\"" + esc(c.desc) + "\"";
    o += "}\n"; wr(o);
  }
  wr("DONE\n");
  return 0;
}
