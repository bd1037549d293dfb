// Wavefront (level set) builders against the longest-path recurrence.
#include "vh.h"
#include <memory>
#include "aggregation/hdagg.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/sparse_utilities.h"
using namespace vh;

namespace {
// longest path levels of an arbitrary directed graph, empty when cyclic
std::vector<int> kahn(int n, const std::vector<int> &p, const std::vector<int> &i) {
  std::vector<int> deg(n, 0), lev(n, 0), q;
  for (int u = 0; u < n; ++u) for (int k = p[u]; k < p[u + 1]; ++k) if (i[k] != u) deg[i[k]]++;
  for (int u = 0; u < n; ++u) if (!deg[u]) q.push_back(u);
  for (size_t h = 0; h < q.size(); ++h) {
    int u = q[h];
    for (int k = p[u]; k < p[u + 1]; ++k) if (i[k] != u) { lev[i[k]] = std::max(lev[i[k]], lev[u] + 1); if (--deg[i[k]] == 0) q.push_back(i[k]); }
  }
  if ((int)q.size() != n) lev.clear();
  return lev;
}
template <class T>
void check_levels(Ctx &c, const std::string &who, int n, const std::vector<int> &lev, int nl, const int *lp, const T *ls) {
  int want = 0; for (int x : lev) want = std::max(want, x + 1);
  c.out(nl); if (nl == want) { c.outp(lp, nl + 1); if (lp[nl] == n) c.outp(ls, n); }
  if (nl != want) { c.fail(who + ":count", "%s: %d levels, longest path gives %d", who.c_str(), nl, want); return; }
  if (lp[0] != 0 || lp[nl] != n) { c.fail(who + ":ptr", "%s: level pointer starts at %d ends at %d for %d nodes", who.c_str(), lp[0], lp[nl], n); return; }
  std::vector<int> seen(n, 0);
  for (int l = 0; l < nl; ++l) {
    if (lp[l + 1] <= lp[l]) { c.fail(who + ":ptr", "%s: level %d is empty or reversed", who.c_str(), l); return; }
    for (int k = lp[l]; k < lp[l + 1]; ++k) {
      int v = (int)ls[k];
      if (v < 0 || v >= n) { c.fail(who + ":range", "%s: node %d in level %d", who.c_str(), v, l); return; }
      if (seen[v]++) c.fail(who + ":duplicate", "%s: node %d listed twice", who.c_str(), v);
      if (lev[v] != l) c.fail(who + ":level", "%s: node %d in level %d, longest path %d", who.c_str(), v, l, lev[v]);
    }
  }
  c.add("obs.levels", nl); c.add("obs.nodes", n);
}
void levels_case(Ctx &c) {
  Rng &r = c.rng;
  Dag d = gen_dag(r, c.thorough ? 600 : 200);
  int n = d.n;
  // arbitrary numbering: the builders only need a DAG with its diagonal stored first
  bool perm = r.chance(0.4), cyc = r.chance(0.2);
  std::vector<int> name(n); for (int k = 0; k < n; ++k) name[k] = k;
  if (perm) r.shuffle(name);
  std::vector<std::vector<int>> ch(n);
  for (int u = 0; u < n; ++u) for (int k = d.p[u] + 1; k < d.p[u + 1]; ++k) ch[name[u]].push_back(name[d.i[k]]);
  if (cyc && n > 1) {  // add back edges
    int m = r.range(1, 3);
    while (m--) { int a = r.range(0, n - 1), b = r.range(0, n - 1); if (a != b && std::find(ch[a].begin(), ch[a].end(), b) == ch[a].end()) ch[a].push_back(b); }
  }
  std::vector<int> p(1, 0), i;
  for (int u = 0; u < n; ++u) { std::sort(ch[u].begin(), ch[u].end()); i.push_back(u); i.insert(i.end(), ch[u].begin(), ch[u].end()); p.push_back((int)i.size()); }
  std::vector<int> lev = kahn(n, p, i);
  bool acyclic = !lev.empty();
  c.mix(n); c.mixv(p); c.mixv(i); c.add("shape." + d.kind); c.add(acyclic ? "in.acyclic" : "in.cyclic"); if (perm) c.add("in.arbitrary_numbering");
  c.note("kind=%s n=%d p=%s i=%s acyclic=%d", d.kind.c_str(), n, vec2s(p).c_str(), vec2s(i, 1500).c_str(), (int)acyclic);
  c.nontrivial = i.size() > (size_t)n;
  IArr P(p), I(i);
  auto cyc_check = [&](const char *who, int nl) { c.out(nl); if (nl != -1) c.fail(std::string(who) + ":cycle", "%s returns %d levels for a cyclic graph", who, nl); else c.add("obs.cycles_reported"); };
  {
    int *lp = 0, *ls = 0; c.stage("build_levelSet_CSC");
    int nl = sym_lib::build_levelSet_CSC((size_t)n, (int *)P, (int *)I, lp, ls);
    if (acyclic) check_levels(c, "build_levelSet_CSC", n, lev, nl, lp, ls); else cyc_check("build_levelSet_CSC", nl);
    delete[] lp; delete[] ls;
  }
  {
    IArr lp((size_t)n + 1), ls((size_t)n); memset((int *)lp, 0, sizeof(int) * (n + 1)); c.stage("build_levelSet_CSC_prealloc");
    int nl = sym_lib::build_levelSet_CSC((size_t)n, (const int *)P, (const int *)I, (int *)lp, (int *)ls);
    if (acyclic) check_levels(c, "build_levelSet_CSC_prealloc", n, lev, nl, (int *)lp, (int *)ls); else cyc_check("build_levelSet_CSC_prealloc", nl);
  }
  {
    std::vector<int> lp, ls; int nl = -9; std::string who = "computingLevelSet_CSC";
    if (r.chance(0.5)) { lp.assign(n + 1, 0); ls.assign(n, 0); }
    std::vector<int> vp = p, vi = i;
    c.stage(who);
    sym_lib::computingLevelSet_CSC(n, P, I, lp, ls, nl);
    if (acyclic) check_levels(c, who, n, lev, nl, lp.data(), ls.data()); else cyc_check(who.c_str(), nl);
    if (acyclic && nl > 0) {
      std::vector<int> n2l; if (r.chance(0.5)) n2l.assign(n, 77);
      c.stage("computingNode2Level"); HDAGG::computingNode2Level(lp, ls, nl, n, n2l);
      c.outv(n2l);
      if ((int)n2l.size() < n || !std::equal(lev.begin(), lev.end(), n2l.begin())) c.fail("computingNode2Level:level", "node levels %s want %s", vec2s(n2l).c_str(), vec2s(lev).c_str());
    }
  }
  {
    IArr lp((size_t)n + 1), ls((size_t)n), nl2((size_t)n); memset((int *)lp, 0, sizeof(int) * (n + 1)); c.stage("HDAGG.build_levelSet_CSC");
    int nl = HDAGG::build_levelSet_CSC((size_t)n, P, I, lp, ls, nl2);
    if (acyclic) {
      check_levels(c, "HDAGG.build_levelSet_CSC", n, lev, nl, (int *)lp, (int *)ls);
      c.outv(nl2.vec());
      if (nl2.vec() != lev) c.fail("HDAGG.build_levelSet_CSC:node2level", "node levels %s want %s", vec2s(nl2.vec()).c_str(), vec2s(lev).c_str());
    } else cyc_check("HDAGG.build_levelSet_CSC", nl);
  }
  if (acyclic) {
    IArr lp((size_t)n + 1), ls((size_t)n); int *a = lp, *b = ls; memset(a, 0, sizeof(int) * (n + 1)); c.stage("buildLevelSet_CSC_Queue");
    int nl = sym_lib::buildLevelSet_CSC_Queue(n, (int)i.size(), P, I, a, b);
    check_levels(c, "buildLevelSet_CSC_Queue", n, lev, nl, a, b);
  }
  if (acyclic) {
    int q = r.range(1, 3); int *lp = 0, *ls = 0; c.stage("level_set_multi_graphs");
    int nl = sym_lib::level_set_multi_graphs(n, P, I, lp, ls, q);
    std::vector<int> ml; for (int k = 0; k < q; ++k) for (int v = 0; v < n; ++v) ml.push_back(lev[v] + k);
    check_levels(c, "level_set_multi_graphs", n * q, ml, nl, lp, ls);
    delete[] lp; delete[] ls;
  }
  if (P.vec() != p || I.vec() != i) c.fail("levels:input_changed", "a level-set builder modified its input");
  if (acyclic) {  // depth: longest path to a sink
    std::vector<int> rp(n + 1, 0), ri(i.size()); std::vector<std::vector<int>> rc(n);
    for (int u = 0; u < n; ++u) for (int k = p[u]; k < p[u + 1]; ++k) rc[i[k]].push_back(u);
    rp.assign(1, 0); ri.clear(); for (int u = 0; u < n; ++u) { ri.insert(ri.end(), rc[u].begin(), rc[u].end()); rp.push_back((int)ri.size()); }
    std::vector<int> dep = kahn(n, rp, ri);
    sym_lib::CSC A(n, n, i.size()); std::copy(p.begin(), p.end(), A.p); std::copy(i.begin(), i.end(), A.i);
    IArr dg((size_t)n); c.stage("compute_depth"); sym_lib::compute_depth(&A, dg);
    c.outv(dg.vec());
    if (dg.vec() != dep) c.fail("compute_depth:level", "depths %s want %s", vec2s(dg.vec()).c_str(), vec2s(dep).c_str());
  }
  // ---- forests
  {
    std::vector<int> par = ref_etree(d);
    if (perm) { std::vector<int> q(n); for (int v = 0; v < n; ++v) q[name[v]] = par[v] < 0 ? -1 : name[par[v]]; par = q; }
    std::vector<int> hl(n, 0), nc(n, 0);
    for (int v = 0; v < n; ++v) if (par[v] >= 0) nc[par[v]]++;
    std::vector<int> q, left = nc; for (int v = 0; v < n; ++v) if (!nc[v]) q.push_back(v);
    for (size_t h = 0; h < q.size(); ++h) { int u = par[q[h]]; if (u >= 0) { hl[u] = std::max(hl[u], hl[q[h]] + 1); if (--left[u] == 0) q.push_back(u); } }
    IArr T(par), N(nc), lp((size_t)n + 1), ls((size_t)n), nl2((size_t)n);
    memset((int *)lp, 0, sizeof(int) * (n + 1)); memset((int *)ls, 0, sizeof(int) * n); memset((int *)nl2, 0, sizeof(int) * n);
    c.note(" tree=%s", vec2s(par).c_str());
    c.stage("build_level_set_tree_efficient");
    int nl = sym_lib::build_level_set_tree_efficient((size_t)n, T, N, lp, ls, nl2);
    check_levels(c, "build_level_set_tree_efficient", n, hl, nl, (int *)lp, (int *)ls);
    c.outv(nl2.vec());
    if (nl2.vec() != hl) c.fail("build_level_set_tree_efficient:node2level", "levels %s want %s", vec2s(nl2.vec()).c_str(), vec2s(hl).c_str());
    IArr lp2((size_t)n + 1), ls2((size_t)n); c.stage("build_level_set_tree");
    nl = sym_lib::build_level_set_tree((size_t)n, T, lp2, ls2);
    check_levels(c, "build_level_set_tree", n, hl, nl, (int *)lp2, (int *)ls2);
    if (T.vec() != par || N.vec() != nc) c.fail("levels:input_changed", "a tree level-set builder modified its input");
  }
  // ---- blocked graphs: supernodes of the factor
  {
    Dag f = cholesky_fill(d); int m = f.n;
    std::vector<int> b2c(1, 0), c2b(m, 0);
    bool merge = r.chance(0.7);
    for (int j = 1; j < m; ++j) {
      bool same = (f.p[j] - f.p[j - 1] - 1 == f.p[j + 1] - f.p[j]) && std::equal(f.i.begin() + f.p[j], f.i.begin() + f.p[j + 1], f.i.begin() + f.p[j - 1] + 1);
      if (!(merge && same && r.chance(0.8))) b2c.push_back(j);
      c2b[j] = (int)b2c.size() - 1;
    }
    b2c.push_back(m); int nb = (int)b2c.size() - 1;
    std::vector<int> bp(1, 0), bi;
    std::vector<size_t> lip(m + 1), lpz(m + 1); std::vector<int> lr; size_t nz = 0;
    for (int b = 0; b < nb; ++b) {
      std::set<int> t; int f0 = b2c[b]; size_t st = lr.size();
      for (int k = f.p[f0]; k < f.p[f0 + 1]; ++k) { lr.push_back(f.i[k]); if (c2b[f.i[k]] != b) t.insert(c2b[f.i[k]]); }
      bi.push_back(b); bi.insert(bi.end(), t.begin(), t.end()); bp.push_back((int)bi.size());
      for (int j = f0; j < b2c[b + 1]; ++j) { lip[j] = st; lpz[j] = nz; nz += f.p[f0 + 1] - f.p[f0]; }
    }
    lip[m] = lr.size(); lpz[m] = nz;
    std::vector<int> bl = kahn(nb, bp, bi);
    IArr B(b2c), C2(c2b), R(lr); std::unique_ptr<size_t[]> LP(new size_t[m + 1]), LI(new size_t[m + 1]);
    std::copy(lip.begin(), lip.end(), LI.get()); std::copy(lpz.begin(), lpz.end(), LP.get());
    int *lp = 0; size_t *ls = 0; c.stage("build_levelSet_BCSC");
    int nl = sym_lib::build_levelSet_BCSC(m, (int)lr.size(), LP.get(), LI.get(), R, nb, B, C2, lp, ls);
    check_levels(c, "build_levelSet_BCSC", nb, bl, nl, lp, ls);
    delete[] lp; delete[] ls;
    // supernodal wavefronts over several kernels; nodes are named by their first column
    int q = r.range(1, 3); int *lp2 = 0, *ls2 = 0; IArr FP(f.p), FI(f.i);
    c.stage("level_set_bn");
    nl = sym_lib::level_set_bn(m, FP, FI, lp2, ls2, B, nb, q, true);
    std::vector<int> ml; for (int k = 0; k < q; ++k) for (int b = 0; b < nb; ++b) ml.push_back(bl[b] + k);
    int tot = nb * q; std::vector<int> mapped(tot); bool ok = true;
    for (int k = 0; k < tot; ++k) {
      int v = ls2[k], col = v % m, kn = v / m;
      if (v < 0 || kn >= q || b2c[c2b[col]] != col) { c.fail("level_set_bn:range", "entry %d is not the first column of a supernode", v); ok = false; break; }
      mapped[k] = kn * nb + c2b[col];
    }
    if (ok) check_levels(c, "level_set_bn", tot, ml, nl, lp2, mapped.data());
    if (ok && nl > 0) {
      int *s2n = 0; c.stage("sup2node_gen");
      sym_lib::sup2node_gen(m, tot, ls2, nb, B, s2n);
      for (int k = 0; k < tot; ++k) if (s2n[k] != c2b[ls2[k] % m]) c.fail("sup2node_gen:map", "column %d maps to supernode %d, want %d", ls2[k], s2n[k], c2b[ls2[k] % m]);
      delete[] s2n;
    }
    delete[] lp2; delete[] ls2;
    {  // the transposed (backward) order: columns mirrored, supernodes named by their last column, last one first
      std::vector<int> up(1, 0), ui, us; for (int j = m - 1; j >= 0; --j) { for (int k = f.p[j + 1] - 1; k >= f.p[j]; --k) ui.push_back(m - 1 - f.i[k]); up.push_back((int)ui.size()); }
      for (int b = 0; b <= nb; ++b) us.push_back(m - 1 - b2c[b]);
      IArr UP(up), UI(ui), US(us); int *lp3 = 0, *ls3 = 0; c.stage("level_set_bn_upper"); int nu = sym_lib::level_set_bn(m, UP, UI, lp3, ls3, US, nb, q, false); bool good = true; std::vector<int> mp(tot);
      for (int k = 0; k < tot; ++k) { int v = ls3[k], kn = v / m, col = m - 1 - v % m; if (v < 0 || kn >= q || b2c[c2b[col]] != col) { c.fail("level_set_bn_upper:range", "entry %d is not the last column of a supernode", v); good = false; break; } mp[k] = kn * nb + c2b[col]; }
      if (good) check_levels(c, "level_set_bn_upper", tot, ml, nu, lp3, mp.data());
      delete[] lp3; delete[] ls3; }
  }
}
VH_PROP(C06, levels_case);
}  // namespace
