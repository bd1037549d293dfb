// Row/column groupings (C12), cost models (C22), weight and breadth-first partitions (C23).
#include "vh.h"
#include "aggregation/group.h"
#include "aggregation/group_utils.h"
#include "aggregation/hdagg.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/utils.h"
using namespace vh;

namespace {
struct Csr { std::vector<int> p, i; };   // row form of a lower triangular pattern, diagonal last
Csr to_rows(const Dag &d) {
  Csr c; c.p.assign(d.n + 1, 0);
  for (int x : d.i) c.p[x + 1]++;
  for (int r = 0; r < d.n; ++r) c.p[r + 1] += c.p[r];
  c.i.resize(d.i.size()); std::vector<int> pos(c.p.begin(), c.p.end() - 1);
  for (int j = 0; j < d.n; ++j) for (int k = d.p[j]; k < d.p[j + 1]; ++k) c.i[pos[d.i[k]]++] = j;
  return c;
}
typedef std::vector<std::vector<int>> Adj;
bool acyclic(const Adj &a) {
  int n = (int)a.size(); std::vector<int> in(n, 0), st; long done = 0;
  for (auto &v : a) for (int x : v) in[x]++;
  for (int v = 0; v < n; ++v) if (!in[v]) st.push_back(v);
  while (!st.empty()) { int v = st.back(); st.pop_back(); ++done; for (int x : a[v]) if (!--in[x]) st.push_back(x); }
  return done == n;
}
void group_case(Ctx &c) {
  Rng &r = c.rng;
  Dag d = gen_dag(r, c.thorough ? 500 : 220);
  Csr R = to_rows(d);
  int blk = r.chance(0.2) ? 1 : r.range(1, d.n + 2);
  mix_dag(c, d); c.mix(blk);
  c.note("%s block=%d", dag2s(d).c_str(), blk);
  c.nontrivial = d.edges() > 0;
  std::set<std::pair<int, int>> edges;
  for (int u = 0; u < d.n; ++u) for (int k = d.p[u]; k < d.p[u + 1]; ++k) if (d.i[k] != u) edges.insert({u, d.i[k]});
  for (int which = 0; which < 5; ++which) {
    static const char *nm[] = {"spicocsc_v1", "spicocsc_v2", "sptrsvcsr_v1", "sptrsvcsr_v2", "naive"};
    std::string who = nm[which];
    bool csr = which == 2 || which == 3 || (which == 4 && r.chance(0.5));
    IArr p(csr ? R.p : d.p), i(csr ? R.i : d.i), gp(d.n + 1), gs(d.n), gi(d.n); int ng = -3;
    c.stage(who);
    sym_lib::group g(d.n, p, i);
    switch (which) {
    case 0: g.inspection_spicocsc_v1(gp, gs, ng, gi); break;
    case 1: g.inspection_spicocsc_v2(gp, gs, ng, gi); break;
    case 2: g.inspection_sptrsvcsr_v1(gp, gs, ng, gi); break;
    case 3: g.inspection_sptrsvcsr_v2(gp, gs, ng, gi); break;
    case 4: g.NaiveGrouping(d.n, gp, gs, ng, gi, blk); break;
    }
    if (p.vec() != (csr ? R.p : d.p) || i.vec() != (csr ? R.i : d.i)) c.fail(who + ":input_changed", "%s modified the matrix", who.c_str());
    c.out(ng); if (ng >= 1 && ng <= d.n) c.outp((int *)gp, ng + 1); c.outp((int *)gs, d.n); c.outp((int *)gi, d.n);
    bool ok = ng >= 1 && ng <= d.n && gp[0] == 0 && gp[ng] == d.n;
    for (int k = 0; ok && k < ng; ++k) if (gp[k + 1] <= gp[k]) ok = false;
    if (!ok) { c.fail(who + ":group_ptr", "%s: %d groups, pointers %s", who.c_str(), ng, vec2s(gp.vec()).c_str()); continue; }
    std::vector<int> own(d.n, -1), pos(d.n, -1);
    for (int k = 0; k < ng; ++k)
      for (int t = gp[k]; t < gp[k + 1]; ++t) {
        int v = gs[t];
        if (v < 0 || v >= d.n) { c.fail(who + ":range", "%s: member %d", who.c_str(), v); ok = false; break; }
        if (own[v] != -1) { c.fail(who + ":duplicate", "%s: row %d in groups %d and %d", who.c_str(), v, own[v], k); ok = false; }
        own[v] = k; pos[v] = t;
      }
    if (!ok) continue;
    for (int v = 0; v < d.n; ++v) {
      if (own[v] < 0) { c.fail(who + ":missing", "%s: row %d in no group", who.c_str(), v); ok = false; break; }
      if (gi[v] != own[v]) { c.fail(who + ":inverse", "%s: inverse map of row %d says %d, it is in %d", who.c_str(), v, gi[v], own[v]); ok = false; break; }
    }
    if (!ok) continue;
    bool consecutive = which != 1;
    if (consecutive) for (int t = 0; t < d.n; ++t) if (gs[t] != t) { c.fail(who + ":consecutive", "%s: position %d holds row %d", who.c_str(), t, gs[t]); break; }
    if (which == 4) for (int v = 0; v < d.n; ++v) if (own[v] != v / blk) { c.fail(who + ":blocks", "row %d in group %d with blocks of %d", v, own[v], blk); break; }
    if (which != 4 && which != 1)   // members are chained by a dependence of each on its predecessor
      for (int k = 0; k < ng; ++k) for (int t = gp[k] + 1; t < gp[k + 1]; ++t) if (!edges.count({gs[t - 1], gs[t]})) { c.fail(who + ":chain", "%s: rows %d,%d share a group without a dependence", who.c_str(), gs[t - 1], gs[t]); break; }
    if (which != 4 && which != 1)   // and every such pair of neighbours is chained
      for (int v = 1; v < d.n; ++v) if (own[v - 1] != own[v] && edges.count({v - 1, v})) { c.fail(who + ":not_chained", "%s: row %d depends on its neighbour %d but is in another group", who.c_str(), v, v - 1); break; }
    for (auto &e : edges) if (own[e.first] == own[e.second] && pos[e.first] > pos[e.second]) { c.fail(who + ":order", "%s: dependence %d->%d reversed inside its group", who.c_str(), e.first, e.second); break; }
    c.add("obs.groups", ng); c.add("obs.multi_groups", d.n - ng > 0); c.mixv(std::vector<int>((int *)gp, (int *)gp + ng + 1)); c.mixv(gs.vec());
    // dependence inspectors and group graphs
    std::set<std::pair<int, int>> want;
    for (auto &e : edges) if (own[e.first] != own[e.second]) want.insert({own[e.first], own[e.second]});
    auto cmp = [&](const std::string &w, const Adj &a, const std::set<std::pair<int, int>> &exp, bool uniq, bool fwd) {
      for (auto &v : a) c.outv(v);
      if (a.size() < 1) return;
      std::set<std::pair<int, int>> got; long cnt = 0;
      for (size_t u = 0; u < a.size(); ++u) for (int v : a[u]) { got.insert({(int)u, v}); ++cnt; }
      for (auto &e : exp) if (!got.count(e)) { c.fail(w + ":lost", "%s: dependence %d->%d missing", w.c_str(), e.first, e.second); return; }
      for (auto &e : got) if (!exp.count(e)) { c.fail(w + ":invented", "%s: dependence %d->%d does not exist", w.c_str(), e.first, e.second); return; }
      if (uniq && cnt != (long)got.size()) c.fail(w + ":repeated", "%s: repeated dependences", w.c_str());
      if (fwd) for (auto &e : got) if (e.first >= e.second) { c.fail(w + ":backward", "%s: edge %d->%d points back", w.c_str(), e.first, e.second); return; }
      if (!acyclic(a)) c.fail(w + ":cycle", "%s: the dependence graph has a cycle", w.c_str());
      c.add("obs.dependences", (long)got.size());
    };
    IArr rp(R.p), ri(R.i), cp(d.p), ci(d.i);
    { Adj a(ng); c.stage(who + "_fs_csr"); sym_lib::fs_csr_inspector_dep(ng, gp, gs, gi, rp, ri, a); cmp(who + "_fs_csr", a, want, false, consecutive); }
    { Adj a(ng); c.stage(who + "_fs_csc"); sym_lib::fs_ic0csc_inspector_group(ng, gp, gs, gi, cp, ci, a); cmp(who + "_fs_csc", a, want, false, consecutive); }
    Adj rows(d.n);
    c.stage("fs_csr_rows"); sym_lib::fs_csr_inspector_dep(d.n, rp, ri, rows); cmp("fs_csr_rows", rows, edges, true, true);
    c.stage(who + "_group_dag"); Adj g2 = sym_lib::Group_DAG(rows, gp, gs, gi, ng);
    if ((int)g2.size() != ng) c.fail(who + "_group_dag:size", "%zu nodes for %d groups", g2.size(), ng); else cmp(who + "_group_dag", g2, want, true, consecutive);
  }
  if (c.idx % 4 == 1) {  // the check for pairs that depend on each other
    Adj a(d.n); for (auto &e : edges) a[e.first].push_back(e.second);
    std::set<std::pair<int, int>> exp, got; std::vector<std::pair<int, int>> ev(edges.begin(), edges.end());
    if (!ev.empty() && r.chance(0.7)) for (int k = r.range(1, 3); k > 0; --k) { auto e = ev[r.range(0, (int)ev.size() - 1)]; if (exp.insert({std::min(e.first, e.second), std::max(e.first, e.second)}).second) a[e.second].push_back(e.first); }
    for (auto &v : a) r.shuffle(v);
    if (c.shared) return;
    c.stage("detectDAGCircle"); std::string t; { Printed out; sym_lib::detectDAGCircle(a); t = out.text(); }
    const char *q = t.c_str(); std::vector<int> num; while (*q) { if (isdigit((unsigned char)*q)) { char *e; num.push_back((int)strtol(q, &e, 10)); q = e; } else ++q; }
    for (size_t k = 0; k + 1 < num.size(); k += 2) got.insert({std::min(num[k], num[k + 1]), std::max(num[k], num[k + 1])});
    c.add("obs.two_cycles", (long)exp.size()); if (got != exp || num.size() % 2) c.fail("detectDAGCircle:wrong", "%zu pairs depend on each other, %zu are reported", exp.size(), got.size());
  }
}
VH_PROP(C12, group_case);

// ------------------------------------------------------------------ C22 costs
void cost_case(Ctx &c) {
  Rng &r = c.rng;
  Dag d = gen_dag(r, c.thorough ? 500 : 220);
  Csr R = to_rows(d);
  int n = d.n;
  mix_dag(c, d); c.note("%s", dag2s(d).c_str()); c.nontrivial = d.edges() > 0;
  IArr cp(d.p), ci(d.i), rp(R.p), ri(R.i);
  // arbitrary grouping of the nodes
  int ng = r.range(1, n); std::vector<int> perm(n), cut(1, 0), all; for (int k = 0; k < n; ++k) perm[k] = k; r.shuffle(perm);
  std::set<int> cs; while ((int)cs.size() < ng - 1) cs.insert(r.range(1, n - 1)); cut.insert(cut.end(), cs.begin(), cs.end()); cut.push_back(n);
  IArr gp(cut), gs(perm);
  static const char *nm[] = {"trsv_ll", "trsv_rl", "ic0_ll", "ic0_rl", "ic0_ul", "ilu0_ul", "general"};
  for (int k = 0; k < 7; ++k) {
    auto len = [&](const std::vector<int> &p, int v) { return p[v + 1] - p[v]; };
    std::vector<double> ref(n, 0);
    for (int v = 0; v < n; ++v) {
      if (k == 0) ref[v] = len(R.p, v);
      else if (k == 1) ref[v] = len(d.p, v);
      else if (k == 3) for (int t = d.p[v]; t < d.p[v + 1]; ++t) ref[v] += len(d.p, d.i[t]);
      else for (int t = R.p[v]; t < R.p[v + 1]; ++t) ref[v] += len(k == 2 ? d.p : R.p, R.i[t]);
    }
    for (int grp = 0; grp < 2; ++grp) {
      std::string who = std::string("cost_") + nm[k] + (grp ? "_grouped" : "");
      std::vector<double> want = ref; if (grp) { want.assign(ng, 0); for (int g = 0; g < ng; ++g) for (int t = cut[g]; t < cut[g + 1]; ++t) want[g] += ref[perm[t]]; }
      std::vector<double> got; int ini = r.range(0, 2); if (ini == 1) got.assign(want.size(), 0.0); if (ini == 2) got.assign(r.range(1, 2 * n), 7.5);
      c.stage(who);
      HDAGG::costComputation(grp ? ng : n, cp, ci, rp, ri, (HDAGG::Kernel)k, grp ? (int *)gp : nullptr, grp ? (int *)gs : nullptr, grp, got);
      c.outv(got);
      if (got.size() != want.size()) { c.fail(who + ":size", "%zu costs for %zu items", got.size(), want.size()); continue; }
      for (size_t v = 0; v < want.size(); ++v) if (got[v] != want[v]) { c.fail(who + ":cost", "%s: item %zu costs %g, expected %g", who.c_str(), v, got[v], want[v]); break; }
      c.add("obs.costs", (long)want.size());
    }
  }
  if (cp.vec() != d.p || ci.vec() != d.i || rp.vec() != R.p || ri.vec() != R.i || gp.vec() != cut || gs.vec() != perm) c.fail("cost:input_changed", "an input was modified");
  // tree measures
  std::vector<int> par = ref_etree(d);
  if (r.chance(0.4)) for (int v = 0; v < n; ++v) par[v] = (v == n - 1 || r.chance(0.1)) ? -1 : r.range(v + 1, std::min(n - 1, v + 1 + (r.chance(0.5) ? 3 : n)));
  std::vector<int> nch(n, 0), w(n); std::vector<double> wd(n);
  for (int v = 0; v < n; ++v) { if (par[v] >= 0) nch[par[v]]++; w[v] = r.range(0, 9); wd[v] = r.range(0, 90) / 4.0; }
  c.mixv(par); c.mixv(w);
  c.note("tree=%s weight=%s", vec2s(par).c_str(), vec2s(w).c_str());
  IArr t(par), nc(nch), wi(w); DArr wv(wd);
  std::vector<double> sub = wd; std::vector<int> dep(n), dw(n); int h = 0, hw = 0;
  for (int v = 0; v < n; ++v) if (par[v] >= 0) sub[par[v]] += sub[v];
  for (int v = n - 1; v >= 0; --v) { dep[v] = par[v] >= 0 ? dep[par[v]] + 1 : 0; dw[v] = w[v] + (par[v] >= 0 ? dw[par[v]] : 0); h = std::max(h, dep[v]); hw = std::max(hw, dw[v]); }
  c.stage("subtree_cost"); double *sc = sym_lib::compute_subtree_cost(n, t, wv);
  c.outp(sc, n);
  for (int v = 0; v < n; ++v) if (sc[v] != sub[v]) { c.fail("subtree_cost:value", "subtree of %d costs %g, expected %g", v, sc[v], sub[v]); break; }
  delete[] sc;
  c.stage("node_depth");
  for (int v = 0; v < n; ++v) {
    int a = sym_lib::get_node_depth(v, n, t), b = sym_lib::get_node_depth(v, n, t, wi);
    if (a != dep[v] || b != dw[v]) { c.fail("node_depth:value", "node %d: depth %d/%d, expected %d/%d", v, a, b, dep[v], dw[v]); break; }
  }
  struct { const char *n; int got, want; } hs[] = {
    {"height_bruteforce", (c.stage("height_bruteforce"), sym_lib::get_tree_height_bruteforce(n, t)), h},
    {"height_bruteforce_w", sym_lib::get_tree_height_bruteforce(n, t, wi), hw},
    {"height", (c.stage("height"), sym_lib::get_tree_height(n, t, nc)), h},
    {"height_w", sym_lib::get_tree_height(n, t, nc, wi), hw},
    {"height_efficient", (c.stage("height_efficient"), sym_lib::get_tree_height_efficient(n, t, nc, nullptr)), h},
    {"height_efficient_w", sym_lib::get_tree_height_efficient(n, t, nc, wi), hw}};
  for (auto &x : hs) c.out(x.got);
  for (auto &x : hs) if (x.got != x.want) c.fail(std::string(x.n) + ":value", "%s is %d, expected %d", x.n, x.got, x.want);
  c.add("obs.tree_height", h);
  if (t.vec() != par || nc.vec() != nch || wi.vec() != w || wv.vec() != wd) c.fail("tree_cost:input_changed", "an input was modified");
}
VH_PROP(C22, cost_case);

// ------------------------------------------------------------------ C23 partitions
void part_case(Ctx &c) {
  Rng &r = c.rng;
  Dag d = gen_dag(r, c.thorough ? 400 : 200);
  int n = d.n, parts = r.chance(0.2) ? 1 : r.range(1, r.chance(0.8) ? 8 : n + 4);
  std::vector<double> w(n); int k = r.range(0, 5);   // kinds 4 and 5: whole numbers whose sums need all bits of a double
  for (auto &x : w) x = k == 0 ? 1 : k == 1 ? r.range(0, 5) : k == 2 ? r.unit() * 3 : k == 3 ? (r.chance(0.2) ? 100 : 0) : k == 4 ? r.range(1, 40000000) : r.chance(0.3) ? 1 : (double)(1 + (r.next() >> 30));
  std::vector<int> set(n); for (int v = 0; v < n; ++v) set[v] = v; if (r.chance(0.6)) r.shuffle(set);
  std::vector<double> tw; double sum = 0; for (double x : w) sum += x;
  bool target = r.chance(0.5); if (target) for (int q = 0; q < parts; ++q) tw.push_back(r.chance(0.1) ? 0 : r.unit() * 2 * (sum + 1) / parts);
  if (target && k != 2 && r.chance(0.4)) { int at = 0; c.add("in.exact_targets"); for (auto &x : tw) { int to = std::min(n, at + r.range(0, 2 * n / parts + 1)); x = 0; for (; at < to; ++at) x += w[set[at]]; } }   // reached exactly
  mix_dag(c, d); c.mix(parts); c.mixv(set);
  c.note("%s parts=%d set=%s weight=%s target=%s", dag2s(d).c_str(), parts, vec2s(set).c_str(), vec2s(w).c_str(), vec2s(tw).c_str());
  c.nontrivial = n > 2 && parts > 1;
  DArr W(w), T(tw); IArr S(set);
  std::vector<double> eff = tw; if (!target) eff.assign(parts, std::ceil(sum / parts));
  std::string who = "by_weight"; c.stage(who);
  int *ix = sym_lib::partition_by_weight(n, S, W, parts, target ? (double *)T : nullptr);
  c.outp(ix, parts + 1);
  bool ok = ix[0] == 0 && ix[parts] == n;
  for (int q = 0; q < parts; ++q) if (ix[q + 1] < ix[q]) ok = false;
  if (!ok) c.fail(who + ":boundaries", "%d elements cut at %s", n, vec2s(std::vector<int>(ix, ix + parts + 1)).c_str());
  else for (int q = 0; q < parts; ++q) {
    double acc = 0; int last = ix[q + 1] - 1;
    for (int t = ix[q]; t < last; ++t) acc += w[set[t]];
    // without its last element the part is below its target; only exhausting the input leaves it short
    if (q < parts - 1 && ix[q + 1] > ix[q] && acc >= eff[q]) c.fail(who + ":late", "part %d goes on after reaching %g of %g", q, acc, eff[q]);
    double full = acc + (ix[q + 1] > ix[q] ? w[set[last]] : 0);
    if (full < eff[q] && ix[q + 1] != n) c.fail(who + ":early", "part %d stops at %g of %g", q, full, eff[q]);
    c.add("obs.weight_parts");
  }
  delete[] ix;
  sym_lib::CSC A(n, n, (int)d.i.size()); std::copy(d.p.begin(), d.p.end(), A.p); std::copy(d.i.begin(), d.i.end(), A.i); std::fill(A.x, A.x + d.i.size(), 1.0);
  who = "by_bfs"; c.stage(who);
  int nl = -1, *lp = nullptr, *pp = nullptr, *np = nullptr;
  sym_lib::partition_by_bfs(n, &A, W, nl, lp, parts, pp, np, target ? (double *)T : nullptr);
  if (nl != 1 || lp[0] != 0 || lp[1] != parts) c.fail(who + ":levels", "%d levels with %d parts", nl, lp[1]);
  else {
    Sched s; s.nlev = 1; s.lptr = {0, parts}; s.pptr.assign(pp, pp + parts + 1); s.nset.assign(np, np + n);
    if (check_schedule_shape(c, who, n, s))
      for (int q = 0; q + 1 < parts; ++q) {
        double acc = 0; for (int t = s.pptr[q]; t + 1 < s.pptr[q + 1]; ++t) acc += w[s.nset[t]];
        if (s.pptr[q + 1] > s.pptr[q] && acc >= eff[q]) c.fail(who + ":late", "part %d goes on after reaching %g of %g", q, acc, eff[q]);
        double full = acc + (s.pptr[q + 1] > s.pptr[q] ? w[s.nset[s.pptr[q + 1] - 1]] : 0);
        if (full < eff[q] && s.pptr[q + 1] != n) c.fail(who + ":early", "part %d stops at %g of %g", q, full, eff[q]);
      }
    c.mixv(s.pptr);
  }
  delete[] lp; delete[] pp; delete[] np;
  if (W.vec() != w || S.vec() != set || (target && T.vec() != tw) || !std::equal(d.p.begin(), d.p.end(), A.p) || !std::equal(d.i.begin(), d.i.end(), A.i)) c.fail("partition:input_changed", "an input was modified");
}
VH_PROP(C23, part_case);
}  // namespace
