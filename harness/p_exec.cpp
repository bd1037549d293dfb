// C07: the shipped solve kernels driven by every scheduler, any order of concurrent parts, any team.
#include "vh.h"
#include "team.h"
#include "aggregation/hdagg.h"
#include "aggregation/lbc.h"
#include "aggregation/lbc_utils.h"
#include "aggregation/group.h"
#include "aggregation/group_utils.h"
#include "aggregation/sparse_inspector.h"
#include "executor.h"
#include "sptrsv.h"
namespace HDAGG { __attribute__((weak)) bool treeBasedGrouping_Aggressive(int, std::vector<int> &, std::vector<int> &, int &, std::vector<int> &, std::vector<int> &, bool); }
using namespace vh;
namespace {
struct Sys { Dag d; std::vector<int> rp, ri; std::vector<double> rx, cx, b, ref; double scale; };
Sys make_sys(Rng &r, const Dag &d) {
  Sys s; s.d = d; Mat a = mat_from_dag(r, d); s.cx = a.x; int n = d.n;
  s.rp.assign(n + 1, 0); for (int x : d.i) s.rp[x + 1]++; for (int k = 0; k < n; ++k) s.rp[k + 1] += s.rp[k];
  s.ri.resize(d.i.size()); s.rx.resize(d.i.size()); std::vector<int> pos(s.rp.begin(), s.rp.end() - 1);
  for (int j = 0; j < n; ++j) for (int k = d.p[j]; k < d.p[j + 1]; ++k) { int q = pos[d.i[k]]++; s.ri[q] = j; s.rx[q] = a.x[k]; }
  s.b.resize(n); for (auto &x : s.b) x = r.unit() * 20 - 10;
  std::vector<long double> y(s.b.begin(), s.b.end());       // column oriented reference in long double
  for (int j = 0; j < n; ++j) { y[j] /= a.x[d.p[j]]; for (int k = d.p[j] + 1; k < d.p[j + 1]; ++k) y[d.i[k]] -= (long double)a.x[k] * y[j]; }
  s.ref.assign(y.begin(), y.end()); s.scale = 1; for (double v : s.ref) s.scale = std::max(s.scale, std::fabs(v));
  return s;
}
void verdict(Ctx &c, const std::string &who, const Sys &s, const std::vector<double> &x) {
  c.add("obs.solves"); c.add("obs.rows", (long)x.size());
  for (int k = 0; k < s.d.n; ++k) if (!(std::fabs(x[k] - s.ref[k]) <= 1e-9 * s.scale)) { c.fail(who + ":solution", "%s: x[%d]=%.17g, sequential solve gives %.17g", who.c_str(), k, x[k], s.ref[k]); return; }
}
struct Team { int t, m; uint64_t s; };
Team team(Rng &r) { return {r.range(1, 8), r.range(0, 2), r.next()}; }
void go(Rng &r) { Team t = team(r); vh_team(t.t, t.m, t.s); }
// concurrent parts may run in any order: reorder them inside their level
void permute_parts(Rng &r, Sched &s) {
  std::vector<int> pp(1, 0), ns;
  for (int l = 0; l < s.nlev; ++l) {
    std::vector<int> q; for (int k = s.lptr[l]; k < s.lptr[l + 1]; ++k) q.push_back(k);
    int how = r.range(0, 2); if (how == 0) std::reverse(q.begin(), q.end()); else if (how == 1) r.shuffle(q);
    for (int k : q) { ns.insert(ns.end(), s.nset.begin() + s.pptr[k], s.nset.begin() + s.pptr[k + 1]); pp.push_back((int)ns.size()); }
  }
  s.pptr = pp; s.nset = ns;
}
// the load statistics overflow their counter array in builds without OpenMP (known finding): there,
// one case each shows it, so that the rest of the run goes on
bool stat_ok(Ctx &c, long idx) { return vh_has_team() || c.idx == idx; }
void run_lbc(Ctx &c, const std::string &who, const Sys &s, Sched q, int total_n) {
  if (!check_schedule_shape(c, who, total_n, q)) return;
  Rng &r = c.rng;
  c.add("obs.levels", q.nlev); for (int l = 0; l < q.nlev; ++l) if (q.lptr[l + 1] - q.lptr[l] > 1) c.add("obs.parallel_levels");
  for (int k = 0; k < 3; ++k) {
    if (k) permute_parts(r, q);
    if (k == 2) for (int p = 0; p < q.lptr[q.nlev]; ++p) std::sort(q.nset.begin() + q.pptr[p], q.nset.begin() + q.pptr[p + 1]);   // as the demos do
    IArr Lp(s.rp), Li(s.ri), a(q.lptr), b(q.pptr), n(q.nset); DArr Lx(s.rx), x(s.b); go(r);
    c.stage(who + (k == 1 ? "+lbc_seq" : "+lbc"));
    (k == 1 ? sym_lib::sptrsv_csr_lbc_seq : sym_lib::sptrsv_csr_lbc)(s.d.n, Lp, Li, Lx, x, q.nlev, a, b, n);
    verdict(c, who + (k == 1 ? "+lbc_seq" : k == 2 ? "+lbc_sorted" : "+lbc"), s, x.vec());
  }
  if (r.chance(0.3) && stat_ok(c, 11)) {
    IArr Lp(s.rp), Li(s.ri), a(q.lptr), b(q.pptr), n(q.nset), lc(q.nlev); go(r); c.stage("lbc_stat");
    sym_lib::sptrsv_csr_lbc_stat(s.d.n, Lp, Li, q.nlev, a, b, n, lc);
    for (int l = 0; l < q.nlev; ++l) { long w = 0; for (int p = q.pptr[q.lptr[l]]; p < q.pptr[q.lptr[l + 1]]; ++p) w += s.rp[q.nset[p] + 1] - s.rp[q.nset[p]]; if (lc[l] < 0 || lc[l] > w || (!vh_has_team() && lc[l])) { c.fail("lbc_stat:imbalance", "level %d: imbalance %d of %ld", l, lc[l], w); break; } }
  }
}
void run_level(Ctx &c, const std::string &who, const Sys &s, int nl, const std::vector<int> &lp0, const std::vector<int> &ls0) {
  Rng &r = c.rng; int n = s.d.n;
  if (nl < 1 || (int)lp0.size() < nl + 1 || lp0[0] != 0 || lp0[nl] != n || (int)ls0.size() < n) { c.fail(who + ":shape", "%d levels", nl); return; }
  for (int k = 0; k < 3; ++k) {
    std::vector<int> ls(ls0.begin(), ls0.begin() + n);
    for (int l = 0; k && l < nl; ++l) { std::vector<int> t(ls.begin() + lp0[l], ls.begin() + lp0[l + 1]); r.shuffle(t); std::copy(t.begin(), t.end(), ls.begin() + lp0[l]); }
    IArr Lp(s.rp), Li(s.ri), a(std::vector<int>(lp0.begin(), lp0.begin() + nl + 1)), b(ls); DArr Lx(s.rx), x(s.b); go(r);
    std::string w = who + (k == 0 ? "+levelset" : k == 1 ? "+levelset_ll" : "+levelset_seq"); c.stage(w);
    if (k == 0) sym_lib::sptrsv_csr_levelset(n, Lp, Li, Lx, (double *)x, nl, a, b);
    else if (k == 1) sym_lib::sptrsv_csr_levelset(n, Lp, Li, Lx, nl, (const int *)a, b, x);
    else sym_lib::sptrsv_csr_levelset_seq(n, Lp, Li, Lx, x, nl, a, b);
    verdict(c, w, s, x.vec());
  }
}
Sched take(int nl, const int *lp, const int *pp, const int *np, int n) {
  Sched s; s.nlev = nl; if (nl < 1 || !lp) { s.nlev = -1; return s; }
  s.lptr.assign(lp, lp + nl + 1); int P = lp[nl]; if (P < 0 || P > n) return s;
  s.pptr.assign(pp, pp + P + 1); s.nset.assign(np, np + n); return s;
}
Sched takev(int nl, const std::vector<int> &lp, const std::vector<int> &pp, const std::vector<int> &np) {
  Sched s; s.nlev = nl; if (nl < 1 || (int)lp.size() < nl + 1) { s.nlev = -1; return s; }
  s.lptr.assign(lp.begin(), lp.begin() + nl + 1); int P = lp[nl]; if (P >= 0 && (int)pp.size() >= P + 1) s.pptr.assign(pp.begin(), pp.begin() + P + 1);
  s.nset = np; return s;
}
void exec_case(Ctx &c) {
  Rng &r = c.rng;
  Dag d = gen_dag(r, c.thorough ? 500 : 200); int n = d.n;
  Sys s = make_sys(r, d);
  int parts = r.chance(0.15) ? 1 : r.range(2, 9), dist = r.chance(0.15) ? -1 : r.range(1, 6), div = r.range(2, 6), cores = r.chance(0.1) ? 1 : r.range(2, 12);
  mix_dag(c, d); c.mix(parts); c.mix(dist); c.mix(div); c.mix(cores);
  c.note("%s parts=%d dist=%d div=%d cores=%d", dag2s(d).c_str(), parts, dist, div, cores);
  c.nontrivial = d.edges() > 0;
  std::vector<double> cost(n); for (int k = 0; k < n; ++k) cost[k] = s.rp[k + 1] - s.rp[k];
  { IArr Lp(s.rp), Li(s.ri); DArr Lx(s.rx), x(s.b); c.stage("serial"); sym_lib::sptrsv_csr(n, Lp, Li, Lx, x); verdict(c, "serial", s, x.vec()); }
  go(r);
  { IArr p(d.p), i(d.i); int *lp = nullptr, *ls = nullptr; c.stage("wavefront"); int nl = sym_lib::build_levelSet_CSC(n, p, i, lp, ls); run_level(c, "wavefront", s, nl, std::vector<int>(lp, lp + std::max(nl, 0) + 1), std::vector<int>(ls, ls + n)); delete[] lp; delete[] ls; }
  { std::vector<int> lp, ls; int nl = 0; go(r); c.stage("hdagg_wavefront"); sym_lib::computingLevelSet_CSC(n, d.p.data(), d.i.data(), lp, ls, nl); run_level(c, "hdagg_wavefront", s, nl, lp, ls); }
  for (int k = 0; k < 5; ++k) {
    IArr p(d.p), i(d.i); DArr w(cost); int nl = -1, pn = 0, *lp = nullptr, *pp = nullptr, *np = nullptr; std::string who; go(r);
    switch (k) {
    case 0: who = "lbc"; c.stage(who); sym_lib::get_coarse_levelSet_DAG_CSC(n, p, i, nl, lp, pn, pp, np, parts, dist, div, w, r.chance(0.7)); break;
    case 1: who = "lbc03"; c.stage(who); sym_lib::get_coarse_Level_set_DAG_CSC03(n, p, i, nl, lp, pn, pp, np, parts, dist, div, w); break;
    case 2: who = "lbc03_par"; c.stage(who); sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, p, i, nl, lp, pn, pp, np, parts, dist, div, w, r.range(1, 6), r.chance(0.7)); break;
    case 3: who = "lbc_tree"; c.stage(who); sym_lib::get_coarse_levelSet_DAG_CSC_tree(n, p, i, -1, nl, lp, pn, pp, np, parts, dist, div, w); break;
    case 4: { std::vector<int> a, b, e; who = "coarsened"; c.stage(who); HDAGG::build_coarsened_level_parallel(n, p, i, cores, nl, a, b, e); run_lbc(c, who, s, takev(nl, a, b, e), n); continue; }
    }
    run_lbc(c, who, s, take(nl, lp, pp, np, n), n);
    delete[] lp; delete[] pp; delete[] np;
  }
  for (int k = 0; k < 2; ++k) {
    std::vector<int> p = d.p, i = d.i, lp, pp, np; int nl = -1; std::string who = k ? "glc" : "hdagg"; go(r); c.stage(who);
    (k ? HDAGG::GLC_V2 : HDAGG::HDAGG)(n, (int)d.nnz(), p, i, cost, cores, nl, lp, pp, np, false, r.chance(0.4), r.chance(0.6));
    run_lbc(c, who, s, takev(nl, lp, pp, np), n);
  }
  {  // sparsify, group, schedule the groups, expand (the HDagg pipeline), and the grouped wavefronts
    std::vector<int> p, i, gp, gs, dp, di, lp, pp, np; int ng = 0, nl = -1; go(r); c.stage("sparsify");
    HDAGG::partialSparsification(n, (int)d.nnz(), d.p.data(), d.i.data(), p, i, r.chance(0.7)); c.stage("group");
    int gk = r.range(0, 2); if (gk == 0) HDAGG::treeBasedGrouping(n, p, i, ng, gp, gs, r.chance(0.5)); else if (gk == 1) HDAGG::treeBasedGroupingBFS(n, p, i, ng, gp, gs, r.chance(0.5)); else HDAGG::chainGrouping(n, p, i, ng, gp, gs);
    c.stage("group_dag"); HDAGG::buildGroupDAG(n, ng, gp.data(), gs.data(), p.data(), i.data(), dp, di);
    std::vector<double> gc; c.stage("group_cost"); HDAGG::costComputation(ng, d.p.data(), d.i.data(), s.rp.data(), s.ri.data(), HDAGG::SpTrSv_LL, gp.data(), gs.data(), true, gc);
    c.stage("hdagg_groups"); HDAGG::HDAGG(ng, (int)di.size(), dp, di, gc, cores, nl, lp, pp, np, false, false, r.chance(0.6));
    c.stage("ungroup"); bool post = r.chance(0.5); HDAGG::ungroupingScheduleAndApplyOrdering(n, nl, lp, pp, np, gp, gs, p.data(), i.data(), !post, post);
    run_lbc(c, "hdagg_pipeline", s, takev(nl, lp, pp, np), n);
    std::vector<int> a, b; int nw = 0; go(r); c.stage("group_levels"); sym_lib::computingLevelSet_CSC(ng, dp.data(), di.data(), a, b, nw);
    for (int g = 0; g < ng; ++g) std::sort(gs.begin() + gp[g], gs.begin() + gp[g + 1]);
    for (int l = 0; l < nw; ++l) { std::vector<int> t(b.begin() + a[l], b.begin() + a[l + 1]); r.shuffle(t); std::copy(t.begin(), t.end(), b.begin() + a[l]); }
    IArr Lp(s.rp), Li(s.ri), A(a), B(b), G(gp), S(gs); DArr Lx(s.rx), x(s.b); go(r); c.stage("group_levelset");
    sym_lib::sptrsv_csr_group_levelset(Lp, Li, Lx, x, nw, A, B, G, S); verdict(c, "group_levelset", s, x.vec());
  }
  {  // row grouping, its dependence inspector, wavefronts or LBC over the groups
    IArr Lp(s.rp), Li(s.ri), gp(n + 1), gs(n), gi(n); int ng = 0; std::fill(gp.d, gp.d + n + 1, 0); go(r); c.stage("row_grouping");
    sym_lib::group g(n, Lp, Li); int gk = r.range(0, 2);
    if (gk == 0) g.inspection_sptrsvcsr_v1(gp, gs, ng, gi); else if (gk == 1) g.inspection_sptrsvcsr_v2(gp, gs, ng, gi); else g.NaiveGrouping(n, gp, gs, ng, gi, r.range(1, 6));
    std::vector<std::vector<int>> D(ng); c.stage("row_group_dep"); sym_lib::fs_csr_inspector_dep(ng, gp, gs, gi, Lp, Li, D);
    std::vector<int> v(1, 0), e; for (int q = 0; q < ng; ++q) { std::set<int> u(D[q].begin(), D[q].end()); e.push_back(q); e.insert(e.end(), u.begin(), u.end()); v.push_back((int)e.size()); }
    { IArr V(v), E(e); int *lp = new int[ng + 1](), *ls = new int[ng](); c.stage("row_group_levels"); int nl = sym_lib::buildLevelSet_CSC_Queue(ng, 0, V, E, lp, ls);
      for (int l = 0; l < nl; ++l) { std::vector<int> t(ls + lp[l], ls + lp[l + 1]); r.shuffle(t); std::copy(t.begin(), t.end(), ls + lp[l]); }
      DArr Lx(s.rx), x(s.b); go(r); c.stage("sgroup"); sym_lib::fs_csr_executor_sgroup(n, Lp, Li, Lx, x, x, gp, gs, ng, nl, lp, ls); verdict(c, "sgroup", s, x.vec());
      if (stat_ok(c, 12)) { IArr lc(std::max(nl, 1)); go(r); c.stage("levelset_stat"); sym_lib::fs_csr_levelset_stat(Lp, Li, gp, gs, nl, lp, ls, lc);
      for (int l = 0; l < nl; ++l) if (lc[l] < 0 || lc[l] > (int)d.nnz() || (!vh_has_team() && lc[l])) { c.fail("levelset_stat:imbalance", "level %d: %d", l, lc[l]); break; } }
      delete[] lp; delete[] ls; }
    { IArr V(v), E(e); std::vector<double> gc(ng, 0); for (int q = 0; q < ng; ++q) for (int k = gp[q]; k < gp[q + 1]; ++k) gc[q] += s.rp[gs[k] + 1] - s.rp[gs[k]];
      DArr w(gc); int nl = -1, pn = 0, *lp = nullptr, *pp = nullptr, *np = nullptr; go(r); c.stage("row_group_lbc"); sym_lib::get_coarse_Level_set_DAG_CSC03(ng, V, E, nl, lp, pn, pp, np, parts, dist, div, w);
      Sched q = take(nl, lp, pp, np, ng); delete[] lp; delete[] pp; delete[] np;
      if (check_schedule_shape(c, "row_group_lbc", ng, q)) {
        permute_parts(r, q); IArr a(q.lptr), b(q.pptr), z(q.nset), lc(q.nlev); DArr Lx(s.rx), x(s.b); go(r); c.stage("group_lbc");
        sym_lib::sptrsv_csr_group_lbc(n, Lp, Li, Lx, x, q.nlev, a, b, z, gp, gs); verdict(c, "group_lbc", s, x.vec());
        if (stat_ok(c, 13)) { go(r); c.stage("group_lbc_stat"); sym_lib::sptrsv_csr_group_lbc_stat(n, Lp, Li, q.nlev, a, b, z, gp, gs, lc);
        for (int l = 0; l < q.nlev; ++l) if (lc[l] < 0 || lc[l] > (int)d.nnz() || (!vh_has_team() && lc[l])) { c.fail("group_lbc_stat:imbalance", "level %d: %d", l, lc[l]); break; } } } }
    int fl = 0, ac = 0, re = 0; c.stage("fs_csr_stat"); sym_lib::fs_csr_stat(n, Lp, Li, fl, ac, re);
    int off = (int)d.edges(), adj = 0; for (int k = 1; k < n; ++k) for (int j = s.rp[k]; j < s.rp[k + 1] - 1; ++j) adj += s.ri[j] == k - 1;
    if (fl != 2 * off + n || ac != 3 * off + 2 * n || re != adj) c.fail("fs_csr_stat:counts", "flops %d accesses %d reuse %d for %d rows and %d off-diagonals (%d adjacent)", fl, ac, re, n, off, adj);
  }
  vh_team(1, 0, 1);
  TeamStats t = vh_team_stats(); if (t.regions) { c.add("obs.regions", t.regions); c.add("obs.team_threads", t.threads); c.add("obs.barriers", t.barriers); c.add("obs.chunks", t.chunks); }
}
VH_PROP(C07, exec_case);
}  // namespace
