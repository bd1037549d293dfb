// LBC schedulers: general-DAG, elimination-tree and blocked variants.
#include "vh.h"
#include <memory>
#include "aggregation/lbc.h"
#include "aggregation/lbc_utils.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/BCSCMatrix.h"
using namespace vh;

void vh_hdagg_aggregation(vh::Ctx &c);
namespace {
struct LbcParams { int parts, dist, div; };
LbcParams gen_params(Rng &r) {
  LbcParams p;
  p.parts = r.chance(0.2) ? 1 : (r.chance(0.7) ? r.range(2, 8) : r.chance(0.9) ? r.range(9, 24) : r.chance(0.85) ? r.range(25, 200) : r.range(201, 3000));
  p.dist = r.chance(0.15) ? -1 : (r.chance(0.8) ? r.range(1, 6) : r.range(7, 40));
  p.div = r.chance(0.8) ? r.range(1, 6) : r.range(7, 4000);
  if (p.dist < 0 && p.div < 2) p.div = 2;
  return p;
}
std::vector<double> gen_cost(Rng &r, const Dag &d) {
  std::vector<double> c(d.n);
  int k = r.chance(0.06) ? r.range(4, 5) : r.range(0, 3); double big = std::floor(2.1e9 / d.n); bool all = r.chance(0.3);
  for (int j = 0; j < d.n; ++j)
    c[j] = k == 0 ? 1.0 : k == 1 ? (double)(d.p[j + 1] - d.p[j]) : k == 2 ? (double)r.range(0, 20) : k == 3 ? r.unit() * 100 + 0.01 : k == 4 ? 0.0 : (all || r.chance(0.2) ? big : 1.0);
  return c;
}
Sched take(int nlev, int *lp, int *pp, int *np, int n) {
  Sched s; s.nlev = nlev;
  if (nlev < 0 || nlev > n || !lp || !pp || !np) { s.nlev = -1; return s; }
  s.lptr.assign(lp, lp + nlev + 1);
  int P = lp[nlev];
  if (P < 0 || P > n) { return s; }
  s.pptr.assign(pp, pp + P + 1);
  s.nset.assign(np, np + n);
  return s;
}
// where the tuning asks for a cut: general LBC (tree=false) takes `dist` wavefronts first and `div` from then on, up to the last
// wavefront of more than one node; tree and blocked LBC cut `dist` wavefronts below the last one wider than the part count,
// which is divided by `div` for each further cut
void check_cuts(Ctx &c, const std::string &who, const std::vector<int> &lev, const Sched &s, const LbcParams &q, bool tree) {
  int H = 0; for (int x : lev) H = std::max(H, x + 1);
  std::vector<int> width(H, 0), cut{0}, got;
  for (int x : lev) ++width[x];
  if (!tree) {
    if (H > q.dist) {
      int last = 0; for (int l = 0; l < H; ++l) if (width[l] > 1) last = l + 1;
      long b = q.dist; if (b > 0) cut.push_back((int)b);
      for (b += q.div; b < last; b += q.div) cut.push_back((int)b);
    }
  } else if (H > 2) {
    for (int P = q.parts; P > 1; P /= q.div < 2 ? 10 : q.div) {   // a factor below 2 is documented to become 10
      int t = H; while (t > 0 && width[t - 1] <= P) --t;
      int b = t - q.dist; if (b > cut.back() && b < H) cut.push_back(b);
    }
  }
  for (int l = 0; l < s.nlev; ++l) { int lo = H; for (int k = s.pptr[s.lptr[l]]; k < s.pptr[s.lptr[l + 1]]; ++k) lo = std::min(lo, lev[s.nset[k]]); got.push_back(lo); }
  c.add(tree ? "obs.tree_cuts" : "obs.dag_cuts", (long)cut.size() - 1);
  if (got != cut) c.fail(who + ":cuts", "%s: levels begin at wavefronts %s, the tuning (%d parts, cut %d, factor %d) asks for %s of %d", who.c_str(), vec2s(got).c_str(), q.parts, q.dist, q.div, vec2s(cut).c_str(), H);
}
// windows of more than 250,000 nodes take a path of their own in the parallel variant
void large_windows(Ctx &c, bool agg) {
  Rng &r = c.rng;
  LbcParams q; q.parts = r.range(1, 9); q.dist = r.range(1, 3); q.div = r.range(1, 3);
  Dag d = gen_layers(r, q.dist, q.div); int n = d.n;
  std::vector<double> cost(n); for (auto &x : cost) x = r.range(1, 9);
  mix_dag(c, d); c.mix(q.parts); c.mix(q.dist); c.mix(q.div); c.note("layers n=%d edges=%d parts=%d dist=%d div=%d", n, (int)d.edges(), q.parts, q.dist, q.div); c.nontrivial = true;
  std::vector<int> lev = longest_path_levels(d);
  for (int which = 0; which < 2; ++which) {
    bool bin = which == 0; IArr p(d.p), i(d.i); DArr w(cost); int nl = -7, pn = -7, *lp = nullptr, *pp = nullptr, *np = nullptr;
    std::string who = bin ? "lbc_large" : "lbc_large_nobin"; c.stage(who);
    sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, p, i, nl, lp, pn, pp, np, q.parts, q.dist, q.div, w, r.range(1, 4), bin);
    Sched s = take(nl, lp, pp, np, n);
    if (check_schedule(c, who, d, s, !bin ? -1 : q.parts > 1 ? q.parts : 6) && agg) { check_aggregation(c, who, d, lev, s, !bin); check_cuts(c, who, lev, s, q, false); }
    if (s.nlev > 0 && pn != s.lptr[s.nlev]) c.fail(who + ":part_count", "%s reports %d parts, schedule has %d", who.c_str(), pn, s.lptr[s.nlev]);
    if (p.vec() != d.p || i.vec() != d.i) c.fail(who + ":input_changed", "%s modified its input graph", who.c_str());
    delete[] lp; delete[] pp; delete[] np;
  }
  c.add("obs.large_windows");
}
void dag_entry_points(Ctx &c, bool agg) {
  Rng &r = c.rng;
  if (!giant_next() && c.idx % 10000 == 700) { large_windows(c, agg); return; }
  Dag d = gen_dag(r, c.thorough ? 700 : 300);
  LbcParams q = gen_params(r);
  std::vector<double> cost = gen_cost(r, d);
  mix_dag(c, d); c.mix(q.parts); c.mix(q.dist); c.mix(q.div);
  c.note("%s parts=%d dist=%d div=%d cost=%s", dag2s(d).c_str(), q.parts, q.dist, q.div, vec2s(cost).c_str());
  c.nontrivial = d.edges() > 0 && d.n > 2;
  std::vector<int> lev = longest_path_levels(d);
  for (int which = 0; which < 6; ++which) {
    IArr p(d.p), i(d.i); DArr w(cost);
    int nl = -7, pn = -7, *lp = nullptr, *pp = nullptr, *np = nullptr;
    std::string who; int maxp = q.parts > 1 ? q.parts : 6;
    switch (which) {
    case 0: who = "lbc_dag"; c.stage(who); sym_lib::get_coarse_levelSet_DAG_CSC(d.n, p, i, nl, lp, pn, pp, np, q.parts, q.dist, q.div, w, true); break;
    case 1: who = "lbc_dag_nobin"; c.stage(who); sym_lib::get_coarse_levelSet_DAG_CSC(d.n, p, i, nl, lp, pn, pp, np, q.parts, q.dist, q.div, w, false); maxp = -1; break;
    case 2: who = "lbc_dag03"; c.stage(who); sym_lib::get_coarse_Level_set_DAG_CSC03(d.n, p, i, nl, lp, pn, pp, np, q.parts, q.dist, q.div, w); break;
    case 3: who = "lbc_dag03_par"; c.stage(who); sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(d.n, p, i, nl, lp, pn, pp, np, q.parts, q.dist, q.div, w, 4, true); break;
    case 4: who = "lbc_dag03_par_nobin"; c.stage(who); sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(d.n, p, i, nl, lp, pn, pp, np, q.parts, q.dist, q.div, w, 4, false); maxp = -1; break;
    case 5: who = "lbc_dag03_par1"; c.stage(who); sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(d.n, p, i, nl, lp, pn, pp, np, q.parts, q.dist, q.div, w, 1, true); break;
    }
    Sched s = take(nl, lp, pp, np, d.n);
    if (check_schedule(c, who, d, s, maxp) && agg) { check_aggregation(c, who, d, lev, s, which == 1 || which == 4); check_cuts(c, who, lev, s, q, false); }
    if (s.nlev > 0 && pn != s.lptr[s.nlev]) c.fail(who + ":part_count", "%s reports %d parts, schedule has %d", who.c_str(), pn, s.lptr[s.nlev]);
    if (p.vec() != d.p || i.vec() != d.i) c.fail(who + ":input_changed", "%s modified its input graph", who.c_str());
    if (w.vec() != cost) c.fail(who + ":cost_changed", "%s modified the cost array", who.c_str());
    delete[] lp; delete[] pp; delete[] np;
  }
}
void dag_case(Ctx &c) { dag_entry_points(c, false); }
VH_PROP(C01, dag_case);

void tree_entry_points(Ctx &c, bool agg) {
  Rng &r = c.rng;
  Dag d = gen_dag(r, c.thorough ? 700 : 300);
  LbcParams q = gen_params(r);
  if (q.div < 2) q.div = 2;
  std::vector<double> cost = gen_cost(r, d);
  mix_dag(c, d); c.mix(q.parts); c.mix(q.dist); c.mix(q.div);
  c.note("%s parts=%d dist=%d div=%d cost=%s", dag2s(d).c_str(), q.parts, q.dist, q.div, vec2s(cost).c_str());
  c.nontrivial = d.edges() > 0 && d.n > 2;
  std::vector<int> par = ref_etree(d);
  {
    IArr t(par); DArr w(cost); std::string who = "lbc_tree";
    int nl = -7, pn = -7, *lp = nullptr, *pp = nullptr, *np = nullptr;
    c.stage(who);
    sym_lib::get_coarse_levelSet_tree(d.n, t, nl, lp, pn, pp, np, q.parts, q.dist, q.div, w);
    std::vector<std::pair<int, int>> e;
    for (int j = 0; j < d.n; ++j) if (par[j] >= 0) e.push_back({j, par[j]});
    Dag td = dag_from_edges(d.n, e, "etree");
    Sched s = take(nl, lp, pp, np, d.n);
    if (check_schedule(c, who, td, s, q.parts) && agg) { check_aggregation(c, who, td, longest_path_levels(td), s, false); check_cuts(c, who, longest_path_levels(td), s, q, true); }
    if (s.nlev > 0 && pn != s.lptr[s.nlev]) c.fail(who + ":part_count", "%s reports %d parts, schedule has %d", who.c_str(), pn, s.lptr[s.nlev]);
    if (t.vec() != par) c.fail(who + ":input_changed", "%s modified its input tree", who.c_str());
    delete[] lp; delete[] pp; delete[] np;
  }
  for (int st = -1; st <= 0; ++st) {
    IArr p(d.p), i(d.i); DArr w(cost); std::string who = st ? "lbc_dag_tree" : "lbc_dag_tree_general";
    int nl = -7, pn = -7, *lp = nullptr, *pp = nullptr, *np = nullptr;
    c.stage(who);
    sym_lib::get_coarse_levelSet_DAG_CSC_tree(d.n, p, i, st, nl, lp, pn, pp, np, q.parts, q.dist, q.div, w);
    Sched s = take(nl, lp, pp, np, d.n);
    if (check_schedule(c, who, d, s, q.parts) && agg) { std::vector<std::pair<int, int>> e; for (int j = 0; j < d.n; ++j) if (par[j] >= 0) e.push_back({j, par[j]}); Dag td = dag_from_edges(d.n, e, "etree"); check_aggregation(c, who, td, longest_path_levels(td), s, false); check_cuts(c, who, longest_path_levels(td), s, q, true); }
    if (p.vec() != d.p || i.vec() != d.i) c.fail(who + ":input_changed", "%s modified its input graph", who.c_str());
    delete[] lp; delete[] pp; delete[] np;
  }
}
void tree_case(Ctx &c) { tree_entry_points(c, false); }
VH_PROP(C02, tree_case);

// ---- blocked scheduler on a supernodal factor
void blocked_entry_point(Ctx &c, bool agg) {
  Rng &r = c.rng;
  Dag d = gen_dag(r, c.thorough ? 300 : 150);
  bool factor = r.chance(0.5);
  if (factor) d = cholesky_fill(d);
  LbcParams q = gen_params(r);
  int n = d.n;
  std::vector<int> b2c(1, 0), c2b(n, 0);
  int mode = r.range(0, 2), maxw = r.chance(0.3) ? r.range(1, 4) : n;
  for (int j = 1; j < n; ++j) {
    // column j joins the supernode of j-1 when struct(j-1)\{j-1} == struct(j)
    bool same = (d.p[j] - d.p[j - 1] - 1 == d.p[j + 1] - d.p[j]) &&
                std::equal(d.i.begin() + d.p[j], d.i.begin() + d.p[j + 1], d.i.begin() + d.p[j - 1] + 1);
    if (!factor) same = r.chance(0.4);  // relaxed supernodes: rows are the union of the member columns
    bool join = mode != 0 && same && j - b2c.back() < maxw && (mode == 1 || r.chance(0.7));
    if (!join) b2c.push_back(j);
    c2b[j] = (int)b2c.size() - 1;
  }
  b2c.push_back(n);
  int nb = (int)b2c.size() - 1;
  bool inner_offset = r.chance(0.5);
  std::vector<size_t> lip(n + 1), lp(n + 1);
  std::vector<int> lr;
  size_t nz = 0;
  for (int b = 0; b < nb; ++b) {
    size_t st = lr.size(); int f = b2c[b];
    std::set<int> rows;
    for (int j = f; j < b2c[b + 1]; ++j) rows.insert(d.i.begin() + d.p[j], d.i.begin() + d.p[j + 1]);
    lr.insert(lr.end(), rows.begin(), rows.end());
    for (int j = f; j < b2c[b + 1]; ++j) { lip[j] = st + (inner_offset ? j - f : 0); lp[j] = nz; nz += rows.size(); }
  }
  lip[n] = lr.size(); lp[n] = nz;
  std::vector<std::pair<int, int>> e;
  for (int b = 0; b < nb; ++b)
    for (int k = d.p[b2c[b]]; k < d.p[b2c[b + 1]]; ++k) if (c2b[d.i[k]] != b) e.push_back({b, c2b[d.i[k]]});
  Dag bd = dag_from_edges(nb, e, d.kind + "+blocks");
  std::vector<double> cost = gen_cost(r, bd);
  mix_dag(c, d); c.mixv(b2c); c.mix(q.parts); c.mix(q.dist); c.mix(q.div);
  c.note("%s supernodes=%s parts=%d dist=%d div=%d cost=%s", dag2s(d).c_str(), vec2s(b2c).c_str(), q.parts, q.dist, q.div, vec2s(cost).c_str());
  c.nontrivial = bd.edges() > 0;
  c.add("in.supernodes", nb); c.add("in.wide_supernodes", n - nb);
  IArr B(b2c), C(c2b), R(lr); DArr w(cost);
  std::unique_ptr<size_t[]> P(new size_t[n + 1]), I(new size_t[n + 1]);
  std::copy(lp.begin(), lp.end(), P.get()); std::copy(lip.begin(), lip.end(), I.get());
  int nl = -7, pn = -7, *flp = nullptr, *pls = nullptr, *fpp = nullptr, *fnp = nullptr;
  std::string who = "lbc_blocked"; c.stage(who);
  sym_lib::getCoarseLevelSet_DAG_BCSC02(nb, P.get(), I.get(), R, B, C, nl, flp, pls, pn, fpp, fnp, q.parts, q.dist, q.div, w);
  Sched s = take(nl, flp, fpp, fnp, nb);
  if (check_schedule(c, who, bd, s, q.parts > 1 ? q.parts : -1) && agg) { check_aggregation(c, who, bd, longest_path_levels(bd), s, false); check_cuts(c, who, longest_path_levels(bd), s, q, true); }
  if (s.nlev > 0 && pn != s.lptr[s.nlev]) c.fail(who + ":part_count", "%s reports %d parts, schedule has %d", who.c_str(), pn, s.lptr[s.nlev]);
  if (B.vec() != b2c || C.vec() != c2b || R.vec() != lr || w.vec() != cost) c.fail(who + ":input_changed", "%s modified its input", who.c_str());
  delete[] flp; delete[] fpp; delete[] fnp;
}
void blocked_case(Ctx &c) { blocked_entry_point(c, false); }
VH_PROP(C03, blocked_case);

void agg_case(Ctx &c) {
  switch (c.idx % 4) { case 0: dag_entry_points(c, true); break; case 1: tree_entry_points(c, true); break; case 2: blocked_entry_point(c, true); break; default: vh_hdagg_aggregation(c); }
}
VH_PROP(C29, agg_case);
}  // namespace
