// C08: parallel inspectors and kernels with OpenMP on. Every routine runs once with a team of one and
// then with several teams (size, delays, order between barriers); results must be the same and valid.
// In the tsan build ThreadSanitizer watches every access of the same runs.
#include "vh.h"
#include "team.h"
#include "aggregation/hdagg.h"
#include "aggregation/lbc.h"
#include "aggregation/lbc_utils.h"
#include "aggregation/group.h"
#include "aggregation/group_utils.h"
#include "aggregation/sparse_inspector.h"
#include "executor.h"
#include "sptrsv.h"
namespace HDAGG { __attribute__((weak)) bool treeBasedGrouping_Aggressive(int, std::vector<int> &, std::vector<int> &, int &, std::vector<int> &, std::vector<int> &, bool);
__attribute__((weak)) void computePostOrderAndGroup(int n, const std::vector<int> &, const std::vector<int> &, int &, std::vector<int> &, std::vector<int> &, std::vector<int> &, std::vector<int> &); }
using namespace vh;
namespace {
struct Out {
  std::vector<std::vector<int>> v; std::vector<std::vector<double>> x;
  void add(const std::vector<int> &a) { v.push_back(a); }
  void add(const std::vector<double> &a) { x.push_back(a); }
  void add(int a) { v.push_back({a}); }
  bool operator==(const Out &o) const { return v == o.v && x == o.x; }
};
struct Teams { std::vector<int> t, m; std::vector<uint64_t> s; };
Teams gen_teams(Rng &r, int k) { Teams t; for (int j = 0; j < k; ++j) { t.t.push_back(j == 0 ? r.range(2, 4) : r.chance(0.06) ? r.range(9, 32) : r.range(2, 8)); t.m.push_back(j == 0 ? 0 : r.range(0, 2)); t.s.push_back(r.next()); } return t; }
// run with one thread, then with every team; same = results must be identical
template <class F, class V> void across(Ctx &c, const std::string &who, const Teams &t, bool same, F run, V valid) {
  vh_team(1, 0, 1); c.stage(who + "/1"); Out base = run();
  if (!valid(base, who)) return;
  for (size_t k = 0; k < t.t.size(); ++k) {
    vh_team(t.t[k], t.m[k], t.s[k]); c.stage(who); Out o = run(); c.add("obs.team_runs"); if (t.t[k] > 8) c.add("obs.wide_teams");
    std::string w = who + "@team";
    bool ok = valid(o, w);
    if (ok && same && !(o == base)) {
      std::string d; for (size_t q = 0; q < o.v.size() && q < base.v.size(); ++q) if (o.v[q] != base.v[q]) { d = "array " + std::to_string(q) + ": " + vec2s(o.v[q], 60) + " against " + vec2s(base.v[q], 60); break; }
      c.fail(who + ":threads", "%s with %d threads (mode %d) differs from one thread; %s", who.c_str(), t.t[k], t.m[k], d.c_str());
      break;
    }
  }
  vh_team(1, 0, 1);
}
Sched sched_of(const Out &o, size_t at) {
  Sched s; s.nlev = o.v[at][0];
  const std::vector<int> &lp = o.v[at + 1], &pp = o.v[at + 2];
  if (s.nlev < 0 || (int)lp.size() < s.nlev + 1) { s.nlev = -1; return s; }
  s.lptr.assign(lp.begin(), lp.begin() + s.nlev + 1); int P = lp[s.nlev];
  if (P >= 0 && (int)pp.size() >= P + 1) s.pptr.assign(pp.begin(), pp.begin() + P + 1);
  s.nset = o.v[at + 3]; return s;
}
bool groups_ok(Ctx &c, const std::string &w, int n, const Out &o, size_t at) {
  int ng = o.v[at][0]; const auto &p = o.v[at + 1], &s = o.v[at + 2];
  if (ng < 1 || (int)p.size() < ng + 1 || p[0] != 0 || p[ng] != n || (int)s.size() != n) { c.fail(w + ":shape", "%s: %d groups", w.c_str(), ng); return false; }
  std::vector<char> seen(n, 0); for (int v : s) { if (v < 0 || v >= n || seen[v]) { c.fail(w + ":duplicate", "%s: node %d", w.c_str(), v); return false; } seen[v] = 1; }
  return true;
}
void par_case(Ctx &c) {
  Rng &r = c.rng;
  bool big = c.idx % 100 == 11;                 // one window with more than 250000 nodes: parallel components of LBC
  if (big) {
    int k = r.chance(0.3) ? r.range(2, 4) : r.range(5, 12), m = 252000 / k + r.range(0, 3000), n = k * m; std::vector<int> p(1, 0), ix;
    for (int u = 0; u < n; ++u) { ix.push_back(u); int b = u % m; if (u + m < n) { ix.push_back(u + m); if (b % 97 == 5 && u + m + 1 < n && (u + m + 1) % m) ix.push_back(u + m + 1); } p.push_back((int)ix.size()); }
    Dag d; d.n = n; d.p = p; d.i = ix; d.kind = "ladders"; mix_dag(c, d); c.note("ladders n=%d k=%d", n, k); c.nontrivial = true;
    std::vector<double> cost(n); for (auto &x : cost) x = r.range(1, 9);
    bool bin = r.chance(0.5); int parts = r.range(2, 8); Teams t; t.t = {r.range(3, 8), r.range(3, 8)}; t.m = {0, r.range(1, 2)}; t.s = {r.next(), r.next()};
    int team = 1;
    size_t at = 0;
    across(c, "lbc_par_large", t, true, [&] {
      IArr P(d.p), I(d.i); DArr w(cost); int nl = -1, pn = -1, *lp = nullptr, *pp = nullptr, *np = nullptr; Out o;
      sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, P, I, nl, lp, pn, pp, np, parts, k + 2, 2, w, team, bin); team = t.t[at++ % t.t.size()];
      o.add(nl); if (nl < 1) { return o; } o.add(std::vector<int>(lp, lp + nl + 1)); int q = lp[nl]; o.add(std::vector<int>(pp, pp + q + 1)); o.add(std::vector<int>(np, np + n)); o.add(pn); delete[] lp; delete[] pp; delete[] np; c.add("obs.large_windows"); return o; },
      [&](const Out &o, const std::string &w) { return o.v.size() == 5 && check_schedule(c, w, d, sched_of(o, 0), bin ? parts : -1); });
    TeamStats ts = vh_team_stats(); c.add("obs.regions", ts.regions); c.add("obs.barriers", ts.barriers);
    return;
  }
  Dag d = gen_dag(r, c.idx % 90 == 40 ? 1500 : c.thorough ? 300 : 120); int n = d.n, nnz = (int)d.nnz();
  int cores = r.chance(0.1) ? 1 : r.chance(0.1) ? r.range(13, 80) : r.range(2, 12), parts = r.chance(0.1) ? 1 : r.chance(0.1) ? r.range(9, 80) : r.range(2, 8), dist = r.chance(0.2) ? -1 : r.range(1, 6), div = r.range(2, 6);
  std::vector<double> cost(n); int ck = r.range(0, 2); for (int j = 0; j < n; ++j) cost[j] = ck == 0 ? 1 : ck == 1 ? d.p[j + 1] - d.p[j] : r.range(0, 40);
  mix_dag(c, d); c.mix(cores); c.mix(parts);
  c.note("%s cores=%d parts=%d dist=%d div=%d cost=%s", dag2s(d).c_str(), cores, parts, dist, div, vec2s(cost).c_str());
  c.nontrivial = d.edges() > 0;
  auto T = [&] { return gen_teams(r, c.thorough ? 3 : 2); };
  std::vector<int> rp(n + 1, 0), ri(nnz); { for (int x : d.i) rp[x + 1]++; for (int k = 0; k < n; ++k) rp[k + 1] += rp[k]; std::vector<int> pos(rp.begin(), rp.end() - 1); for (int j = 0; j < n; ++j) for (int k = d.p[j]; k < d.p[j + 1]; ++k) ri[pos[d.i[k]]++] = j; }
  auto sched_valid = [&](int maxp) { return [&, maxp](const Out &o, const std::string &w) { return check_schedule(c, w, d, sched_of(o, 0), maxp); }; };
  for (int bin = 0; bin < 2; ++bin) {
    int threads = r.chance(0.06) ? r.range(9, 32) : r.range(1, 8);
    across(c, bin ? "lbc_par" : "lbc_par_nobin", T(), true, [&] {
      IArr P(d.p), I(d.i); DArr w(cost); int nl = -1, pn = -1, *lp = nullptr, *pp = nullptr, *np = nullptr; Out o;
      sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, P, I, nl, lp, pn, pp, np, parts, dist, div, w, threads, bin);
      o.add(nl); o.add(std::vector<int>(lp, lp + nl + 1)); o.add(std::vector<int>(pp, pp + lp[nl] + 1)); o.add(std::vector<int>(np, np + n)); o.add(pn); delete[] lp; delete[] pp; delete[] np; return o; },
      sched_valid(bin ? (parts > 1 ? parts : 6) : -1));
  }
  for (int which = 0; which < 8; ++which) {
    bool glc = which & 1, post = which & 2, bin = which & 4; if (r.chance(0.5)) continue;
    across(c, std::string(glc ? "glc" : "hdagg") + (post ? "_post" : "") + (bin ? "_bin" : "_nobin"), T(), true, [&] {
      std::vector<int> p = d.p, i = d.i, lp, pp, np; int nl = -1; Out o;
      std::vector<int> wm = (glc ? HDAGG::GLC_V2 : HDAGG::HDAGG)(n, nnz, p, i, cost, cores, nl, lp, pp, np, false, post, bin);
      o.add(nl); o.add(lp); o.add(pp); o.add(np); o.add(wm); return o; }, sched_valid(bin ? cores : -1));
  }
  across(c, "coarsened", T(), true, [&] { std::vector<int> lp, pp, np; int nl = -1; Out o; HDAGG::build_coarsened_level_parallel(n, d.p.data(), d.i.data(), cores, nl, lp, pp, np); np.resize(std::min<size_t>(np.size(), n)); o.add(nl); o.add(std::vector<int>(lp.begin(), lp.begin() + nl + 1)); o.add(std::vector<int>(pp.begin(), pp.begin() + lp[nl] + 1)); o.add(np); return o; }, sched_valid(-1));
  auto A = closure(n, d.p, d.i);
  Dag sp = d;
  for (int cl = 0; cl < 2; ++cl)
    across(c, cl ? "sparsify_clique" : "sparsify", T(), !cl, [&] { std::vector<int> p, i; Out o; HDAGG::partialSparsification(n, nnz, d.p.data(), d.i.data(), p, i, cl); o.add(p); o.add(i); return o; },
      [&](const Out &o, const std::string &w) {
        const auto &p = o.v[0], &i = o.v[1];
        if ((int)p.size() != n + 1 || p[0] != 0 || p[n] != (int)i.size()) { c.fail(w + ":ptr", "bad pointers"); return false; }
        for (int u = 0; u < n; ++u) { if (p[u + 1] <= p[u] || i[p[u]] != u) { c.fail(w + ":diag", "column %d", u); return false; } for (int k = p[u]; k < p[u + 1]; ++k) if (!std::binary_search(d.i.begin() + d.p[u], d.i.begin() + d.p[u + 1], i[k])) { c.fail(w + ":new_edge", "%d->%d", u, i[k]); return false; } }
        auto B = closure(n, p, i); if (A != B) { c.fail(w + ":reach", "reachability changed"); return false; }
        if (cl) { sp.p = p; sp.i = i; } return true; });
  Dag g = r.chance(0.5) ? sp : d;
  int ng = 0; std::vector<int> gp, gs;
  for (int k = 0; k < 7; ++k) {
    if (k != 0 && r.chance(0.5)) continue;
    if (k >= 5 && !&HDAGG::treeBasedGrouping_Aggressive) continue;
    static const char *nm[] = {"tree_group", "tree_group_L", "bfs_group", "bfs_group_L", "chain_group", "aggr_group", "aggr_group_L"};
    across(c, nm[k], T(), true, [&] { std::vector<int> p = g.p, i = g.i, a, b; int m = -1; Out o;
      switch (k) { case 0: case 1: HDAGG::treeBasedGrouping(n, p, i, m, a, b, k == 1); break; case 2: case 3: HDAGG::treeBasedGroupingBFS(n, p, i, m, a, b, k == 3); break; case 4: HDAGG::chainGrouping(n, p, i, m, a, b); break; default: HDAGG::treeBasedGrouping_Aggressive(n, p, i, m, a, b, k == 6); }
      o.add(m); o.add(a); o.add(b); return o; },
      [&](const Out &o, const std::string &w) { if (!groups_ok(c, w, n, o, 0)) return false; ng = o.v[0][0]; gp = o.v[1]; gs = o.v[2]; return true; });
  }
  if (ng < 1) return;
  std::vector<int> dp, di;
  across(c, "group_dag", T(), true, [&] { std::vector<int> p, i; Out o; HDAGG::buildGroupDAG(n, ng, gp.data(), gs.data(), g.p.data(), g.i.data(), p, i); o.add(p); o.add(i); return o; }, [&](const Out &o, const std::string &) { dp = o.v[0]; di = o.v[1]; return true; });
  std::vector<double> gc;
  for (int k = 0; k < 7; ++k) for (int grp = 0; grp < 2; ++grp) {
    if (!(k == 0 && grp) && r.chance(0.6)) continue;
    across(c, std::string("cost") + std::to_string(k) + (grp ? "_grouped" : ""), T(), true, [&] { std::vector<double> x; Out o; HDAGG::costComputation(grp ? ng : n, d.p.data(), d.i.data(), rp.data(), ri.data(), (HDAGG::Kernel)k, grp ? gp.data() : nullptr, grp ? gs.data() : nullptr, grp, x); o.add(x); return o; },
      [&](const Out &o, const std::string &) { if (k == 0 && grp) gc = o.x[0]; return true; });
  }
  Out gsched;
  across(c, "hdagg_groups", T(), true, [&] { std::vector<int> p = dp, i = di, lp, pp, np; int nl = -1; Out o; HDAGG::HDAGG(ng, (int)di.size(), p, i, gc, cores, nl, lp, pp, np, false, false, true); o.add(nl); o.add(lp); o.add(pp); o.add(np); return o; },
    [&](const Out &o, const std::string &w) { gsched = o; return check_schedule_shape(c, w, ng, sched_of(o, 0)); });
  if (gsched.v.size() == 4 && gsched.v[0][0] > 0) {
    Out us; int nl = gsched.v[0][0];
    for (int post = 0; post < 2; ++post)
      across(c, post ? "ungroup_post" : "ungroup_sort", T(), true, [&] { std::vector<int> lp = gsched.v[1], pp = gsched.v[2], np = gsched.v[3]; Out o; HDAGG::ungroupingScheduleAndApplyOrdering(n, nl, lp, pp, np, gp, gs, g.p.data(), g.i.data(), !post, post); o.add(nl); o.add(lp); o.add(pp); o.add(np); return o; },
        [&](const Out &o, const std::string &w) { us = o; return check_schedule(c, w, d, sched_of(o, 0), cores); });
    across(c, "final_dag", T(), true, [&] { int m = -1; std::vector<int> a, b, e, f; Out o; HDAGG::getFinalScheduleDAG(n, nl, us.v[1].data(), us.v[2].data(), us.v[3].data(), d.p.data(), d.i.data(), m, a, b, e, f); o.add(m); o.add(a); o.add(b); o.add(e); o.add(f); return o; }, [&](const Out &o, const std::string &w) { return groups_ok(c, w, n, o, 0); });
    across(c, "tiling", T(), true, [&] { std::vector<int> tp; std::vector<HDAGG::twoDIteration> it; Out o; HDAGG::twoDReordering(n, nnz, rp.data(), ri.data(), nl, us.v[1], us.v[2], us.v[3], 4, tp, it); o.add(tp); std::vector<int> f; for (auto &e : it) { f.push_back(e.i); f.push_back(e.j); f.push_back(e.k); } o.add(f); return o; }, [&](const Out &o, const std::string &w) { if (o.v[1].size() != 3u * nnz) { c.fail(w + ":size", "%zu of %d nonzeros", o.v[1].size() / 3, nnz); return false; } return true; });
    // kernels over this schedule and over the grouped wavefronts
    std::vector<double> rx(nnz), b(n); for (int k = 0; k < n; ++k) for (int j = rp[k]; j < rp[k + 1]; ++j) rx[j] = ri[j] == k ? 2 + r.unit() : (r.unit() - 0.5) / (1 + 0.25 * (rp[k + 1] - rp[k])); for (auto &v : b) v = r.unit() * 10 - 5;
    auto anyx = [](const Out &, const std::string &) { return true; };
    across(c, "kernel_lbc", T(), true, [&] { IArr P(rp), I(ri), l(us.v[1]), p(us.v[2]), q(us.v[3]); DArr X(rx), x(b); Out o; sym_lib::sptrsv_csr_lbc(n, P, I, X, x, nl, l, p, q); o.add(x.vec()); return o; }, anyx);
    across(c, "kernel_lbc_stat", T(), false, [&] { IArr P(rp), I(ri), l(us.v[1]), p(us.v[2]), q(us.v[3]), lc(nl); Out o; sym_lib::sptrsv_csr_lbc_stat(n, P, I, nl, l, p, q, lc); o.add(lc.vec()); return o; }, [&](const Out &o, const std::string &w) { for (int v : o.v[0]) if (v < 0 || v > nnz) { c.fail(w + ":range", "imbalance %d", v); return false; } return true; });
    std::vector<int> lp, ls; int nw = 0; sym_lib::computingLevelSet_CSC(n, d.p.data(), d.i.data(), lp, ls, nw);
    across(c, "kernel_levelset", T(), true, [&] { IArr P(rp), I(ri), l(lp), q(ls); DArr X(rx), x(b); Out o; sym_lib::sptrsv_csr_levelset(n, P, I, X, (double *)x, nw, l, q); o.add(x.vec()); return o; }, anyx);
    across(c, "kernel_levelset_ll", T(), true, [&] { IArr P(rp), I(ri), l(lp), q(ls); DArr X(rx), x(b); Out o; sym_lib::sptrsv_csr_levelset(n, P, I, X, nw, (const int *)l, q, x); o.add(x.vec()); return o; }, anyx);
    std::vector<int> ga, gb; int gw = 0; sym_lib::computingLevelSet_CSC(ng, dp.data(), di.data(), ga, gb, gw); std::vector<int> sg = gs; for (int q = 0; q < ng; ++q) std::sort(sg.begin() + gp[q], sg.begin() + gp[q + 1]);
    across(c, "kernel_group_levelset", T(), true, [&] { IArr P(rp), I(ri), l(ga), q(gb), G(gp), S(sg); DArr X(rx), x(b); Out o; sym_lib::sptrsv_csr_group_levelset(P, I, X, x, gw, l, q, G, S); o.add(x.vec()); return o; }, anyx);
    across(c, "kernel_sgroup", T(), true, [&] { IArr P(rp), I(ri), l(ga), q(gb), G(gp), S(sg); DArr X(rx), x(b); Out o; sym_lib::fs_csr_executor_sgroup(n, P, I, X, x, x, G, S, ng, gw, l, q); o.add(x.vec()); return o; }, anyx);
  }
  {  // inspectors without a team of their own today: the same with one thread and inside any team
    std::vector<int> par = ref_etree(d); std::vector<std::pair<int, int>> te; for (int j = 0; j < n; ++j) if (par[j] >= 0) te.push_back({j, par[j]}); Dag td = dag_from_edges(n, te, "etree");
    bool bin = r.chance(0.7); int st = r.chance(0.5) ? -1 : 0;
    for (int k = 0; k < 5; ++k) {
      static const char *nm[] = {"lbc", "lbc03", "lbc_dag_tree", "lbc_tree", "lbc_blocked"};
      if (r.chance(0.6)) continue;
      const Dag &want = k == 3 ? td : d; int maxp = k == 0 ? (bin ? (parts > 1 ? parts : 6) : -1) : k < 4 ? (parts > 1 ? parts : 6) : -1; if (k == 2 || k == 3) maxp = -1;
      across(c, nm[k], T(), true, [&] {
        IArr P(d.p), I(d.i), tr(par); DArr w(cost); int nl = -1, pn = -1, *lp = nullptr, *pp = nullptr, *np = nullptr; Out o;
        switch (k) {
        case 0: sym_lib::get_coarse_levelSet_DAG_CSC(n, P, I, nl, lp, pn, pp, np, parts, dist, div, w, bin); break;
        case 1: sym_lib::get_coarse_Level_set_DAG_CSC03(n, P, I, nl, lp, pn, pp, np, parts, dist, div, w); break;
        case 2: sym_lib::get_coarse_levelSet_DAG_CSC_tree(n, P, I, st, nl, lp, pn, pp, np, parts, dist, div, w); break;
        case 3: sym_lib::get_coarse_levelSet_tree(n, tr, nl, lp, pn, pp, np, parts, dist, div, w); break;
        case 4: { std::vector<size_t> a(d.p.begin(), d.p.end()), b = a; std::vector<int> id(n + 1); for (int q = 0; q <= n; ++q) id[q] = q; IArr B(id), C(id); int *pls = nullptr; sym_lib::getCoarseLevelSet_DAG_BCSC02(n, a.data(), b.data(), I, B, C, nl, lp, pls, pn, pp, np, parts, dist, div, w); break; }
        }
        o.add(nl); if (nl < 1 || !lp) return o; o.add(std::vector<int>(lp, lp + nl + 1)); o.add(std::vector<int>(pp, pp + lp[nl] + 1)); o.add(std::vector<int>(np, np + n)); o.add(pn); delete[] lp; delete[] pp; delete[] np; return o; },
        [&](const Out &o, const std::string &w) { Out q = o; if (q.v.size() < 4) { c.fail(w + ":empty", "%s: %d levels", w.c_str(), q.v[0][0]); return false; } return check_schedule(c, w, want, sched_of(o, 0), maxp); });
    }
    std::vector<int> lev = longest_path_levels(d);
    auto levels = [&](const Out &o, const std::string &w) { int nl = o.v[0][0]; const auto &p = o.v[1], &s = o.v[2]; std::vector<char> seen(n, 0);
      if (nl < 1 || (int)p.size() < nl + 1 || p[nl] != n || (int)s.size() < n) { c.fail(w + ":shape", "%s: %d levels", w.c_str(), nl); return false; }
      for (int l = 0; l < nl; ++l) for (int q = p[l]; q < p[l + 1]; ++q) { int v = s[q]; if (v < 0 || v >= n || seen[v] || lev[v] != l) { c.fail(w + ":level", "%s: node %d in level %d", w.c_str(), v, l); return false; } seen[v] = 1; } return true; };
    for (int k = 0; k < 4; ++k) {
      static const char *nm[] = {"build_levelSet_CSC", "computingLevelSet_CSC", "HDAGG.build_levelSet_CSC", "buildLevelSet_CSC_Queue"};
      if (r.chance(0.5)) continue;
      across(c, nm[k], T(), true, [&] { Out o; IArr P(d.p), I(d.i); int nl = -1; std::vector<int> lp, ls;
        switch (k) {
        case 0: { int *a = nullptr, *b = nullptr; nl = sym_lib::build_levelSet_CSC((size_t)n, (int *)P, (int *)I, a, b); if (nl > 0) { lp.assign(a, a + nl + 1); ls.assign(b, b + n); } delete[] a; delete[] b; break; }
        case 1: sym_lib::computingLevelSet_CSC(n, P, I, lp, ls, nl); break;
        case 2: { IArr a(std::vector<int>(n + 1, 0)), b((size_t)n), q((size_t)n); nl = HDAGG::build_levelSet_CSC((size_t)n, P, I, a, b, q); lp = a.vec(); ls = b.vec(); break; }
        case 3: { IArr a(std::vector<int>(n + 1, 0)), b((size_t)n); int *x = a, *y = b; nl = sym_lib::buildLevelSet_CSC_Queue(n, nnz, P, I, x, y); lp = a.vec(); ls = b.vec(); break; }
        }
        o.add(nl); lp.resize(nl > 0 ? nl + 1 : 0); o.add(lp); ls.resize(nl > 0 ? n : 0); o.add(ls); return o; }, levels);
    }
    for (int k = 0; k < 4; ++k) {
      static const char *nm[] = {"row_groups", "row_groups_v2", "column_groups", "blocks_of_rows"};
      if (r.chance(0.5)) continue; int bs = r.range(1, 6);
      across(c, nm[k], T(), true, [&] { Out o; IArr P(k == 2 ? d.p : rp), I(k == 2 ? d.i : ri), a(std::vector<int>(n + 1, 0)), s((size_t)n), inv((size_t)n); int m = 0; sym_lib::group gr(n, P, I);
        switch (k) { case 0: gr.inspection_sptrsvcsr_v1(a, s, m, inv); break; case 1: gr.inspection_sptrsvcsr_v2(a, s, m, inv); break; case 2: gr.inspection_spicocsc_v1(a, s, m, inv); break; default: gr.NaiveGrouping(n, a, s, m, inv, bs); }
        o.add(m); o.add(a.vec()); o.add(s.vec()); o.add(inv.vec()); return o; }, [&](const Out &o, const std::string &w) { return groups_ok(c, w, n, o, 0); });
    }
  }
  {  // dependence inspection over row groups
    IArr P(rp), I(ri), cp(d.p), ci(d.i), a(n + 1), s(n), inv(n); int m = 0; sym_lib::group gr(n, P, I); gr.inspection_sptrsvcsr_v1(a, s, m, inv);
    auto flat = [](const std::vector<std::vector<int>> &D) { Out o; for (auto v : D) { std::sort(v.begin(), v.end()); o.add(v); } return o; };
    auto any = [](const Out &, const std::string &) { return true; };
    across(c, "group_dep_csr", T(), true, [&] { std::vector<std::vector<int>> D(m); sym_lib::fs_csr_inspector_dep(m, a, s, inv, P, I, D); return flat(D); }, any);
    across(c, "group_dep_csc", T(), true, [&] { std::vector<std::vector<int>> D(m); sym_lib::fs_ic0csc_inspector_group(m, a, s, inv, cp, ci, D); return flat(D); }, any);
    across(c, "row_dep", T(), true, [&] { std::vector<std::vector<int>> D(n); sym_lib::fs_csr_inspector_dep(n, P, I, D); return flat(D); }, any);
  }
  TeamStats ts = vh_team_stats(); c.add("obs.regions", ts.regions); c.add("obs.team_threads", ts.threads); c.add("obs.barriers", ts.barriers); c.add("obs.chunks", ts.chunks); c.add("obs.singles", ts.singles);
}
VH_PROP(C08, par_case);
}  // namespace
