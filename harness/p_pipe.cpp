// C30: whole pipelines, from a Matrix Market file to the solution of the system in it.
#include "vh.h"
#include <memory>
#include <unistd.h>
#include "aggregation/def.h"
#include "aggregation/sparse_io.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/metis_interface.h"
#include "aggregation/lfactor_creation.h"
#include "aggregation/hdagg.h"
#include "aggregation/lbc.h"
#include "aggregation/lbc_utils.h"
#include "aggregation/group.h"
#include "aggregation/group_utils.h"
#include "aggregation/BCSCMatrix.h"
#include "aggregation/amd.h"
using namespace vh;
namespace {
typedef sym_lib::CSC CSC; typedef sym_lib::CSR CSR;
typedef std::pair<int, int> Pos;
// a lower triangular system L y = b by rows, with the solution computed column by column in long double
struct Low { int n; Dag d; std::vector<int> rp, ri; std::vector<double> rx, b, y; double scale; };
void finish(Low &s, const std::vector<double> &cx) {
  int n = s.n; s.rp.assign(n + 1, 0); for (int x : s.d.i) s.rp[x + 1]++; for (int k = 0; k < n; ++k) s.rp[k + 1] += s.rp[k];
  s.ri.resize(s.d.i.size()); s.rx.resize(s.d.i.size()); std::vector<int> at(s.rp.begin(), s.rp.end() - 1);
  for (int j = 0; j < n; ++j) for (int k = s.d.p[j]; k < s.d.p[j + 1]; ++k) { int q = at[s.d.i[k]]++; s.ri[q] = j; s.rx[q] = cx[k]; }
  std::vector<long double> y(s.b.begin(), s.b.end());
  for (int j = 0; j < n; ++j) { y[j] /= cx[s.d.p[j]]; for (int k = s.d.p[j] + 1; k < s.d.p[j + 1]; ++k) y[s.d.i[k]] -= (long double)cx[k] * y[j]; }
  s.y.assign(y.begin(), y.end()); s.scale = 1; for (double v : s.y) s.scale = std::max(s.scale, std::fabs(v));
}
bool near(Ctx &c, const std::string &who, const std::vector<double> &got, const std::vector<double> &want, double tol) {
  for (size_t k = 0; k < want.size(); ++k) if (!(std::fabs(got[k] - want[k]) <= tol)) { c.fail(who + ":solution", "%s: unknown %zu is %.17g instead of %.17g", who.c_str(), k, got[k], want[k]); return false; }
  return true;
}
// executes a schedule of rows: the parts of a level in any order, reading what has been written so far
// and refusing to read what is written by another part of the same level
void execute(Ctx &c, const std::string &who, const Low &s, const Sched &q) {
  if (!check_schedule(c, who, s.d, q)) return;
  std::vector<double> x = s.b; std::vector<int> ord;
  for (int l = 0; l < q.nlev; ++l) {
    ord.clear(); for (int p = q.lptr[l]; p < q.lptr[l + 1]; ++p) ord.push_back(p);
    c.rng.shuffle(ord); c.add("obs.levels"); if (ord.size() > 1) c.add("obs.parallel_levels");
    for (int p : ord) for (int k = q.pptr[p]; k < q.pptr[p + 1]; ++k) {
      int v = q.nset[k]; double t = x[v]; int e = s.rp[v + 1] - 1;
      for (int z = s.rp[v]; z < e; ++z) t -= s.rx[z] * x[s.ri[z]];
      x[v] = t / s.rx[e];
    }
  }
  c.add("obs.solves"); c.add("obs.solves_" + who.substr(0, who.find('+'))); near(c, who, x, s.y, 1e-9 * s.scale);
}
Sched take(int nl, const int *lp, const int *pp, const int *np, int n) {
  Sched s; s.nlev = nl; if (nl < 1 || !lp) { s.nlev = -1; return s; }
  s.lptr.assign(lp, lp + nl + 1); int P = lp[nl]; if (P < 0 || P > n) return s;
  s.pptr.assign(pp, pp + P + 1); s.nset.assign(np, np + n); return s;
}
Sched takev(int nl, const std::vector<int> &lp, const std::vector<int> &pp, const std::vector<int> &np) {
  Sched s; s.nlev = nl; if (nl < 1 || (int)lp.size() < nl + 1) { s.nlev = -1; return s; }
  s.lptr.assign(lp.begin(), lp.begin() + nl + 1); int P = lp[nl]; if (P >= 0 && (int)pp.size() >= P + 1) s.pptr.assign(pp.begin(), pp.begin() + P + 1);
  s.nset = np; return s;
}
// a schedule of groups carried out group by group
Sched spread(const Sched &g, const std::vector<int> &gp, const std::vector<int> &gs) {
  Sched s; s.nlev = g.nlev; s.lptr = g.lptr; s.pptr.push_back(0);
  for (size_t p = 0; p + 1 < g.pptr.size(); ++p) { for (int k = g.pptr[p]; k < g.pptr[p + 1]; ++k) s.nset.insert(s.nset.end(), gs.begin() + gp[g.nset[k]], gs.begin() + gp[g.nset[k] + 1]); s.pptr.push_back((int)s.nset.size()); }
  return s;
}
Sched waves(int nl, const std::vector<int> &lp, const std::vector<int> &ls) {
  Sched s; if (nl < 1 || (int)lp.size() < nl + 1 || lp[nl] != (int)ls.size()) { s.nlev = -1; return s; }
  s.nlev = nl; s.lptr.assign(lp.begin(), lp.begin() + nl + 1); s.nset = ls; for (size_t k = 0; k <= ls.size(); ++k) s.pptr.push_back((int)k); return s;
}
std::string name(Ctx &c, const char *what) { return c.workdir + "/" + what; }
void spit(const std::string &fn, const std::string &t) { FILE *f = fopen(fn.c_str(), "wb"); if (!f) return; fwrite(t.data(), 1, t.size(), f); fclose(f); }
// blocks of columns solved one after the other from the blocked form alone
void blocked(Ctx &c, const std::string &who, const Low &s, CSC *L, int parts, int dist, int div) {
  int n = s.n; c.stage(who + "_blocks"); sym_lib::BCSCMatrix M(L); sym_lib::BCSC *B = M.getBCSC(); int nb = B->nodes;
  std::vector<int> S(B->supernodes, B->supernodes + nb + 1), c2b(n); if (S[0] != 0 || S[nb] != n) { c.fail(who + ":blocks", "blocks do not cover the columns"); return; }
  for (int b = 0; b < nb; ++b) for (int j = S[b]; j < S[b + 1]; ++j) c2b[j] = b;
  std::vector<size_t> lip(n + 1), lp(n + 1); std::vector<int> lr; size_t nz = 0; std::vector<Pos> e; std::vector<double> cost(nb);
  for (int b = 0; b < nb; ++b) {
    size_t st = lr.size(); int h = B->nrows[b]; lr.insert(lr.end(), B->i + B->p[b], B->i + B->p[b] + h); cost[b] = (double)h * (S[b + 1] - S[b]);
    for (int j = S[b]; j < S[b + 1]; ++j) { lip[j] = st + (j - S[b]); lp[j] = nz; nz += h; }
    for (int k = 0; k < h; ++k) if (c2b[lr[st + k]] != b) e.push_back({b, c2b[lr[st + k]]});
  }
  lip[n] = lr.size(); lp[n] = nz; Dag bd = dag_from_edges(nb, e, "blocks");
  IArr BB(S), C(c2b), R(lr); DArr w(cost); int nl = -7, pn = -7, *flp = nullptr, *pls = nullptr, *fpp = nullptr, *fnp = nullptr; c.stage(who);
  sym_lib::getCoarseLevelSet_DAG_BCSC02(nb, lp.data(), lip.data(), R, BB, C, nl, flp, pls, pn, fpp, fnp, parts, dist, div, w);
  Sched q = take(nl, flp, fpp, fnp, nb); delete[] flp; delete[] fpp; delete[] fnp;
  if (!check_schedule(c, who, bd, q)) return;
  std::vector<double> x = s.b;
  for (int k = 0; k < nb; ++k) {
    int b = q.nset[k], h = B->nrows[b]; const int *row = B->i + B->p[b];
    for (int j = S[b]; j < S[b + 1]; ++j) { const double *v = B->x + B->p[b] + (size_t)(j - S[b]) * h; int o = j - S[b]; x[j] /= v[o]; for (int t = o + 1; t < h; ++t) x[row[t]] -= v[t] * x[j]; }
  }
  c.add("obs.solves"); c.add("obs.solves_" + who); near(c, who, x, s.y, 1e-9 * s.scale);
}
void inspectors(Ctx &c, const Low &s, CSC *L, CSR *R) {
  Rng &r = c.rng; int n = s.n; bool big = n > 20000;
  int cores = r.range(1, 12), parts, dist, div; bool bin = r.chance(0.7);
  parts = r.range(2, 9); dist = r.chance(0.2) ? -1 : r.range(1, 6); div = r.chance(0.2) ? 4000 : r.range(2, 6);
  std::vector<double> cost(n); c.stage("costComputation");
  HDAGG::costComputation(n, L->p, L->i, R->p, R->i, HDAGG::SpTrSv_LL, nullptr, nullptr, false, cost);
  { std::vector<int> lp, ls; int nl = 0; c.stage("wavefronts"); sym_lib::computingLevelSet_CSC(n, L->p, L->i, lp, ls, nl); execute(c, "wavefronts", s, waves(nl, lp, ls)); }
  int from = big ? r.range(0, 4) : 0, to = big ? from : 4;
  for (int k = from; k <= to; ++k) {
    int nl = -1, pn = 0, *lp = nullptr, *pp = nullptr, *np = nullptr; DArr w(cost); std::string who;
    switch (k) {
    case 0: who = "lbc"; c.stage(who); sym_lib::get_coarse_levelSet_DAG_CSC(n, L->p, L->i, nl, lp, pn, pp, np, parts, dist, div, w, bin); break;
    case 1: who = "lbc03"; c.stage(who); sym_lib::get_coarse_Level_set_DAG_CSC03(n, L->p, L->i, nl, lp, pn, pp, np, parts, dist, div, w); break;
    case 2: who = "lbc03_par"; c.stage(who); sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, L->p, L->i, nl, lp, pn, pp, np, parts, dist, div, w, cores, bin); break;
    case 3: who = "lbc_tree"; c.stage(who); sym_lib::get_coarse_levelSet_DAG_CSC_tree(n, L->p, L->i, L->stype, nl, lp, pn, pp, np, parts, dist, div, w); break;
    case 4: { int a, b, e; bool pk; who = "lbc_config"; c.stage(who); sym_lib::lbc_config(n, (int)L->nnz, cores, a, b, e, pk); std::vector<int> x, y, z; if (b > 0) { sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, L->p, L->i, nl, lp, pn, pp, np, a, b, e, w, cores, pk); break; }
      HDAGG::build_coarsened_level_parallel(n, L->p, L->i, cores, nl, x, y, z); execute(c, "coarsened", s, takev(nl, x, y, z)); continue; }
    }
    Sched q = take(nl, lp, pp, np, n); delete[] lp; delete[] pp; delete[] np; execute(c, who, s, q);
  }
  for (int k = 0; k < 2; ++k) {
    if (big && k != (int)(cores & 1)) continue;
    std::vector<int> p(L->p, L->p + n + 1), i(L->i, L->i + L->nnz), lp, pp, np; int nl = -1; std::string who = k ? "glc" : "hdagg"; c.stage(who);
    (k ? HDAGG::GLC_V2 : HDAGG::HDAGG)(n, (int)L->nnz, p, i, cost, cores, nl, lp, pp, np, false, r.chance(0.4), bin);
    execute(c, who, s, takev(nl, lp, pp, np));
  }
  {  // sparsify, group, schedule the groups, expand
    std::vector<int> p, i, gp, gs, dp, di, lp, pp, np; int ng = 0, nl = -1; c.stage("sparsify");
    HDAGG::partialSparsification(n, (int)L->nnz, L->p, L->i, p, i, r.chance(0.7)); c.stage("group");
    int gk = r.range(0, 2); if (gk == 0) HDAGG::treeBasedGrouping(n, p, i, ng, gp, gs, r.chance(0.3)); else if (gk == 1) HDAGG::treeBasedGroupingBFS(n, p, i, ng, gp, gs, r.chance(0.3)); else HDAGG::chainGrouping(n, p, i, ng, gp, gs);
    c.stage("group_graph"); HDAGG::buildGroupDAG(n, ng, gp.data(), gs.data(), p.data(), i.data(), dp, di);
    std::vector<double> gc; c.stage("group_cost"); HDAGG::costComputation(ng, L->p, L->i, R->p, R->i, HDAGG::SpTrSv_LL, gp.data(), gs.data(), true, gc);
    { std::vector<int> a, b; int nw = 0; c.stage("group_wavefronts"); sym_lib::computingLevelSet_CSC(ng, dp.data(), di.data(), a, b, nw); std::vector<int> t = gs; for (int g = 0; g < ng; ++g) std::sort(t.begin() + gp[g], t.begin() + gp[g + 1]); execute(c, "group_wavefronts", s, spread(waves(nw, a, b), gp, t)); }
    bool glc = r.chance(0.4); c.stage("group_schedule"); (glc ? HDAGG::GLC_V2 : HDAGG::HDAGG)(ng, (int)di.size(), dp, di, gc, cores, nl, lp, pp, np, false, false, bin);
    c.stage("ungroup"); bool post = r.chance(0.5); HDAGG::ungroupingScheduleAndApplyOrdering(n, nl, lp, pp, np, gp, gs, p.data(), i.data(), !post, post);
    execute(c, "hdagg_groups", s, takev(nl, lp, pp, np));
  }
  if (n > 1) {  // row groups, their graph, LBC over the groups
    IArr gp(n + 1), gs(n), gi(n); int ng = 0; std::fill(gp.d, gp.d + n + 1, 0); c.stage("row_groups"); sym_lib::group g(n, R->p, R->i);
    if (r.chance(0.5)) g.inspection_sptrsvcsr_v1(gp, gs, ng, gi); else g.NaiveGrouping(n, gp, gs, ng, gi, r.range(1, 6));
    std::vector<std::vector<int>> D(ng); c.stage("row_group_dep"); sym_lib::fs_csr_inspector_dep(ng, gp, gs, gi, R->p, R->i, D);
    std::vector<int> v(1, 0), e; std::vector<double> gc(ng, 0); for (int q = 0; q < ng; ++q) { std::set<int> u(D[q].begin(), D[q].end()); e.push_back(q); e.insert(e.end(), u.begin(), u.end()); v.push_back((int)e.size()); for (int k = gp[q]; k < gp[q + 1]; ++k) gc[q] += R->p[gs[k] + 1] - R->p[gs[k]]; }
    int nl = -1, pn = 0, *lp = nullptr, *pp = nullptr, *np = nullptr; IArr V(v), E(e); DArr w(gc); c.stage("row_group_lbc");
    sym_lib::get_coarse_Level_set_DAG_CSC03(ng, V, E, nl, lp, pn, pp, np, parts, dist, div, w);
    Sched q = take(nl, lp, pp, np, ng); delete[] lp; delete[] pp; delete[] np;
    if (check_schedule_shape(c, "row_group_lbc", ng, q)) execute(c, "row_group_lbc", s, spread(q, gp.vec(), gs.vec()));
  }
  blocked(c, "blocked", s, L, parts, dist, div);
}
// symbolic factorization, a factorization on the pattern it predicts, solves in scheduled order, undoing the permutation
void factorize(Ctx &c, int n, const std::map<Pos, double> &A, CSC *low, const std::vector<double> &b, const std::vector<double> &sol) {
  Rng &r = c.rng; c.stage("symbolic"); std::unique_ptr<sym_lib::LFactorSymbolicInfo> s(sym_lib::build_symbolic_simplicial_lfactor(low));
  if (!s || !s->L || (int)s->L->n != n) { c.fail("symbolic:null", "no factor"); return; }
  CSC *P = s->L; std::vector<int> perm(s->perm, s->perm + n), inv(s->iperm, s->iperm + n);
  if (P->nnz > 400000) { c.add("in.factors_too_large"); return; }
  for (int k = 0; k < n; ++k) if (perm[k] < 0 || perm[k] >= n || inv[perm[k]] != k) { c.fail("symbolic:permutation", "the permutation and its inverse do not match"); return; }
  for (int j = 0; j < n; ++j) { if (P->p[j + 1] <= P->p[j] || P->i[P->p[j]] != j) { c.fail("symbolic:diagonal", "column %d does not begin with its diagonal", j); return; } for (int k = P->p[j] + 1; k < P->p[j + 1]; ++k) if (P->i[k] <= P->i[k - 1] || P->i[k] >= n) { c.fail("symbolic:order", "column %d is not sorted", j); return; } }
  std::vector<std::vector<std::pair<int, double>>> col(n); for (auto &e : A) { int i = inv[e.first.first], j = inv[e.first.second]; col[std::min(i, j)].push_back({std::max(i, j), e.second}); }
  // left-looking on the predicted pattern: what falls outside of it is lost
  Low f; f.n = n; f.d.n = n; f.d.p.assign(P->p, P->p + n + 1); f.d.i.assign(P->i, P->i + P->nnz); std::vector<double> x(P->nnz, 0), acc(n, 0); std::vector<std::vector<int>> upd(n); std::vector<int> pos(n, 0);
  for (int j = 0; j < n; ++j) {
    for (auto &e : col[j]) acc[e.first] += e.second;
    for (int k : upd[j]) { double l = x[pos[k]]; for (int q = pos[k]; q < P->p[k + 1]; ++q) acc[P->i[q]] -= l * x[q]; }
    std::vector<int> todo; todo.swap(upd[j]); for (int k : todo) if (++pos[k] < P->p[k + 1]) upd[P->i[pos[k]]].push_back(k);
    double d = std::sqrt(acc[j]); if (!(d > 0)) { c.fail("symbolic:pivot", "pivot %d is not positive: the pattern misses entries", j); return; }
    for (int q = P->p[j]; q < P->p[j + 1]; ++q) { x[q] = q == P->p[j] ? d : acc[P->i[q]] / d; acc[P->i[q]] = 0; }
    for (auto &e : col[j]) acc[e.first] = 0; for (int k : todo) for (int q = P->p[k]; q < P->p[k + 1]; ++q) acc[P->i[q]] = 0;
    pos[j] = P->p[j] + 1; if (pos[j] < P->p[j + 1]) upd[P->i[pos[j]]].push_back(j);
  }
  f.b.resize(n); for (int k = 0; k < n; ++k) f.b[k] = b[perm[k]];
  f.scale = 1; finish(f, x);
  std::vector<double> w(n); for (int k = 0; k < n; ++k) w[k] = s->col_counts[k];
  int nl = -7, pn = -7, *lp = nullptr, *pp = nullptr, *np = nullptr; IArr T(std::vector<int>(s->parent, s->parent + n)); DArr W(w); int parts = r.range(1, 9), dist = r.chance(0.3) ? -1 : r.range(1, 6), div = r.range(2, 6);
  c.stage("factor_tree"); sym_lib::get_coarse_levelSet_tree(n, T, nl, lp, pn, pp, np, parts, dist, div, W);
  Sched q = take(nl, lp, pp, np, n); delete[] lp; delete[] pp; delete[] np;
  execute(c, "factor_tree", f, q);
  if (check_schedule_shape(c, "factor_tree", n, q)) {   // forward in the order of the schedule, backward against it
    std::vector<double> y = f.b; auto &d = f.d;
    for (int k = 0; k < n; ++k) { int j = q.nset[k]; y[j] /= x[d.p[j]]; for (int z = d.p[j] + 1; z < d.p[j + 1]; ++z) y[d.i[z]] -= x[z] * y[j]; }
    for (int k = n; k-- > 0;) { int j = q.nset[k]; for (int z = d.p[j] + 1; z < d.p[j + 1]; ++z) y[j] -= x[z] * y[d.i[z]]; y[j] /= x[d.p[j]]; }
    std::vector<double> o(n); for (int k = 0; k < n; ++k) o[perm[k]] = y[k];
    c.add("obs.systems_solved"); near(c, "factor_solve", o, sol, 1e-7);
  }
  CSC M((size_t)n, (size_t)n, P->nnz); std::copy(P->p, P->p + n + 1, M.p); std::copy(P->i, P->i + P->nnz, M.i); std::copy(x.begin(), x.end(), M.x); M.stype = -1;
  blocked(c, "factor_blocked", f, &M, std::max(parts, 2), dist < 0 ? 1 : dist, div);
}
void pipe_case(Ctx &c) {
  Rng &r = c.rng; Dag d = gen_dag(r, c.thorough ? 400 : 150); int n = d.n;
  // a symmetric, diagonally dominant matrix in an arbitrary numbering
  std::vector<int> q(n); for (int k = 0; k < n; ++k) q[k] = k; bool shuf = r.chance(0.6); if (shuf) r.shuffle(q);
  std::map<Pos, double> A; std::vector<double> dg(n, 1);
  for (int j = 0; j < n; ++j) for (int k = d.p[j] + 1; k < d.p[j + 1]; ++k) { int u = q[j], v = q[d.i[k]]; double t = r.unit() * 2 - 1; A[{std::max(u, v), std::min(u, v)}] = t; dg[u] += std::fabs(t); dg[v] += std::fabs(t); }
  for (int k = 0; k < n; ++k) A[{k, k}] = dg[k] * (1 + r.unit());
  std::vector<double> sol(n), b(n, 0); for (auto &v : sol) v = r.unit() * 2 - 1;
  for (auto &e : A) { int i = e.first.first, j = e.first.second; b[i] += e.second * sol[j]; if (i != j) b[j] += e.second * sol[i]; }
  mix_dag(c, d); c.mixv(q); c.note("%s shuffled=%d", dag2s(d).c_str(), (int)shuf); c.nontrivial = d.edges() > 0;
  // the files
  std::string mf = name(c, "a.mtx"), vf = name(c, "b.mtx");
  {
    std::vector<Pos> o; for (auto &e : A) o.push_back(e.first); int how = r.range(0, 2);
    if (how == 0) std::sort(o.begin(), o.end(), [](Pos a, Pos e) { return std::make_pair(a.second, a.first) < std::make_pair(e.second, e.first); }); else if (how == 1) r.shuffle(o);
    std::string t = "%%MatrixMarket matrix coordinate real symmetric\n"; if (r.chance(0.5)) t += "% made by C30\n"; t += std::to_string(n) + " " + std::to_string(n) + " " + std::to_string(o.size()) + "\n"; char l[96];
    for (auto &e : o) { snprintf(l, sizeof l, "%d %d %.17g\n", e.first + 1, e.second + 1, A[e]); t += l; }
    spit(mf, t);
    t = "%%MatrixMarket matrix array real general\n" + std::to_string(n) + " 1\n"; for (double v : b) { snprintf(l, sizeof l, "%.17g\n", v); t += l; }
    spit(vf, t);
  }
  c.stage("read_mtx"); std::unique_ptr<CSC> low(sym_lib::read_mtx(mf)); unlink(mf.c_str());
  if (!low) { unlink(vf.c_str()); c.fail("read_mtx:refused", "a well-formed file is refused"); return; }
  { sym_lib::Dense *D = nullptr; c.stage("read_rhs"); sym_lib::load_mtx_array_real(vf, D); unlink(vf.c_str()); if (!D || (int)D->row != n || D->col != 1) { c.fail("read_rhs:dims", "the right-hand side has wrong dimensions"); delete D; return; } for (int k = 0; k < n; ++k) if (D->a[k] != b[k]) { c.fail("read_rhs:value", "entry %d is %.17g instead of %.17g", k, D->a[k], b[k]); break; } b.assign(D->a, D->a + n); delete D; }
  // expand, order, halve, permute
  int ok = r.range(0, 3); std::vector<int> perm(n); for (int k = 0; k < n; ++k) perm[k] = k;
  c.stage("make_full"); std::unique_ptr<CSC> full(sym_lib::make_full(low.get())); if (!full) { c.fail("make_full:null", "nothing"); return; }
  static const char *on[] = {"natural", "metis_general", "metis_symmetric", "amd"}; std::string oname = on[ok];
  if (ok == 1 || ok == 2) { int *pm = nullptr; c.stage(oname); int ret = ok == 1 ? sym_lib::metis_perm_general(full.get(), pm) : sym_lib::metis_perm_symmetric(low.get(), pm); (void)ret; if (!pm) { c.fail(oname + ":null", "no permutation"); return; } perm.assign(pm, pm + n); delete[] pm; }
  if (ok == 3) { IArr pm(n); c.stage(oname); int ret = amd_order(n, full->p, full->i, pm, (double *)nullptr, (double *)nullptr); if (ret < 0) { c.fail(oname + ":status", "status %d", ret); return; } perm = pm.vec(); }
  std::vector<int> inv(n, -1); for (int k = 0; k < n; ++k) { if (perm[k] < 0 || perm[k] >= n || inv[perm[k]] >= 0) { c.fail(oname + ":permutation", "not a permutation"); return; } inv[perm[k]] = k; }
  c.add("obs.ordered_" + oname);
  c.stage("make_half"); std::unique_ptr<CSC> half(sym_lib::make_half(full->n, full->p, full->i, full->x)); full.reset();
  IArr PM(perm); c.stage("permute"); std::unique_ptr<CSC> up(sym_lib::transpose_symmetric(half.get(), ok ? (int *)PM : nullptr));
  if (!up) { c.fail("permute:refused", "a permutation is refused"); return; }
  c.stage("transpose"); std::unique_ptr<CSC> L(sym_lib::transpose_symmetric(up.get(), nullptr)); up.reset(); half.reset();
  // exactly the lower half of the reordered matrix, diagonal first, rows ascending
  std::map<Pos, double> W; for (auto &e : A) { int i = inv[e.first.first], j = inv[e.first.second]; W[{std::min(i, j), std::max(i, j)}] = e.second; }   // (column, row)
  Low s; s.n = n; s.d.n = n; s.d.kind = "reordered"; s.d.p.assign(n + 1, 0); std::vector<double> cx;
  for (auto &e : W) { s.d.p[e.first.first + 1]++; s.d.i.push_back(e.first.second); cx.push_back(e.second); } for (int k = 0; k < n; ++k) s.d.p[k + 1] += s.d.p[k];
  if (!L || (int)L->n != n || (int)L->m != n || L->nnz != s.d.i.size() || L->stype != -1 || !std::equal(s.d.p.begin(), s.d.p.end(), L->p) || !std::equal(s.d.i.begin(), s.d.i.end(), L->i)) { c.fail("reordered:pattern", "the pattern is not that of the lower half of the reordered matrix (%s)", oname.c_str()); return; }
  if (!std::equal(cx.begin(), cx.end(), L->x)) { c.fail("reordered:values", "the values are not those of the reordered matrix (%s)", oname.c_str()); return; }
  s.b.resize(n); for (int k = 0; k < n; ++k) s.b[k] = b[perm[k]]; finish(s, cx);
  c.stage("csc_to_csr"); std::unique_ptr<CSR> R(sym_lib::csc_to_csr(L.get()));
  if (!R || R->nnz != L->nnz || !std::equal(s.rp.begin(), s.rp.end(), R->p) || !std::equal(s.ri.begin(), s.ri.end(), R->i) || !std::equal(s.rx.begin(), s.rx.end(), R->x)) { c.fail("rows:different", "the rows are not those of the reordered matrix"); return; }
  c.add("obs.entries", (long)cx.size());
  inspectors(c, s, L.get(), R.get());
  factorize(c, n, A, low.get(), b, sol);
  if (!std::equal(s.d.p.begin(), s.d.p.end(), L->p) || !std::equal(s.d.i.begin(), s.d.i.end(), L->i) || !std::equal(cx.begin(), cx.end(), L->x) || !std::equal(s.ri.begin(), s.ri.end(), R->i)) c.fail("reordered:changed", "the matrix was changed on the way");
}
VH_PROP(C30, pipe_case);
}  // namespace
