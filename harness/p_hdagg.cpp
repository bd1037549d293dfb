// HDagg / GLC schedulers, coarsened-level scheduler, sparsification, groupings, schedule post-processing.
#include "vh.h"
#include <memory>
#include "aggregation/hdagg.h"
#include "aggregation/lbc.h"
#include "aggregation/lbc_utils.h"
#include "aggregation/sparse_utilities.h"
namespace HDAGG { __attribute__((weak)) bool treeBasedGrouping_Aggressive(int, std::vector<int> &, std::vector<int> &, int &, std::vector<int> &, std::vector<int> &, bool);
__attribute__((weak)) void computePostOrderAndGroup(int n, const std::vector<int> &, const std::vector<int> &, int &, std::vector<int> &, std::vector<int> &, std::vector<int> &, std::vector<int> &); }
using namespace vh;

namespace {
std::vector<double> gen_pos_cost(Rng &r, const Dag &d) {
  std::vector<double> c(d.n);
  int k = r.range(0, 4);
  for (int j = 0; j < d.n; ++j)
    c[j] = k == 0 ? 1.0 : k == 1 ? (double)(d.p[j + 1] - d.p[j]) : k == 2 ? (double)r.range(1, 20) : k == 3 ? r.unit() * 100 + 0.01 : (r.chance(0.1) ? 1000.0 : 1.0);
  if (r.chance(0.15)) for (int j = 0; j < d.n; ++j) if (r.chance(0.3)) c[j] = 0;
  if (r.chance(0.03)) { bool zero = r.chance(0.4); double big = std::floor(2e9 / d.n); for (auto &x : c) x = zero ? 0 : r.chance(0.3) ? big : r.range(0, 3); }
  return c;
}
int gen_cores(Rng &r) { return r.chance(0.15) ? 1 : r.chance(0.7) ? r.range(2, 8) : r.chance(0.9) ? r.range(9, 40) : r.range(41, 300); }
void stale(Rng &r, std::vector<int> &v, int n) { if (r.chance(0.4)) { v.resize(r.range(0, 2 * n + 3)); for (auto &x : v) x = r.range(-3, 2 * n); } }
Sched take(int nlev, const std::vector<int> &lp, const std::vector<int> &pp, const std::vector<int> &np) {
  Sched s; s.nlev = nlev;
  if (nlev < 0 || (int)lp.size() < nlev + 1) { s.nlev = -1; return s; }
  s.lptr.assign(lp.begin(), lp.begin() + nlev + 1);
  int P = lp[nlev];
  if (P >= 0 && (int)pp.size() >= P + 1) s.pptr.assign(pp.begin(), pp.begin() + P + 1);
  s.nset = np;
  return s;
}
// does the schedule list exactly the connected components of each window? (no bin packing)
void hdagg_entry_points(Ctx &c, bool agg) {
  Rng &r = c.rng;
  Dag d = gen_dag(r, c.thorough ? 700 : 300);
  int cores = gen_cores(r);
  std::vector<double> cost = gen_pos_cost(r, d);
  mix_dag(c, d); c.mix(cores);
  c.note("%s cores=%d cost=%s", dag2s(d).c_str(), cores, vec2s(cost).c_str());
  c.nontrivial = d.edges() > 0 && d.n > 2;
  int nlev = 0; for (int x : longest_path_levels(d)) nlev = std::max(nlev, x + 1);
  for (int which = 0; which < 8; ++which) {
    bool glc = which & 1, post = which & 2, bin = which & 4;
    std::string who = std::string(glc ? "glc" : "hdagg") + (post ? "_post" : "") + (bin ? "_bin" : "_nobin");
    std::vector<int> p = d.p, i = d.i, lp, pp, np; std::vector<double> w = cost; int nl = -7;
    stale(r, lp, d.n); stale(r, pp, d.n); stale(r, np, d.n);
    c.stage(who);
    std::vector<int> wm = (glc ? HDAGG::GLC_V2 : HDAGG::HDAGG)(d.n, (int)d.nnz(), p, i, w, cores, nl, lp, pp, np, false, post, bin);
    c.outv(wm);
    Sched s = take(nl, lp, pp, np);
    if (check_schedule(c, who, d, s, bin ? cores : -1) && agg) check_aggregation(c, who, d, longest_path_levels(d), s, !bin);
    if (!agg && !glc && bin && s.nlev > 0 && (int)s.nset.size() == d.n && s.pptr.size() > (size_t)s.lptr[s.nlev]) {   // the order inside the parts
      std::vector<int> rank(d.n); for (int v = 0; v < d.n; ++v) rank[v] = v;
      if (post) { std::vector<int> po; HDAGG::computePostOrder(d.n, d.p.data(), d.i.data(), po); for (int k = 0; k < d.n && k < (int)po.size(); ++k) if (po[k] >= 0 && po[k] < d.n) rank[po[k]] = k; }
      for (int q = 0; q < s.lptr[s.nlev]; ++q) for (int t = s.pptr[q] + 1; t < s.pptr[q + 1]; ++t) if (rank[s.nset[t - 1]] > rank[s.nset[t]]) { c.fail(who + ":part_order", "%s: part %d runs node %d before %d", who.c_str(), q, s.nset[t - 1], s.nset[t]); t = d.n; q = d.n; break; }
      c.add("obs.ordered_parts", s.lptr[s.nlev]);
    }
    if ((int)np.size() != d.n) c.fail(who + ":size", "%s: node array has %zu entries for %d nodes", who.c_str(), np.size(), d.n);
    bool wmok = (int)wm.size() == nl + 1 && wm[0] == 0 && wm.back() == nlev;
    for (size_t k = 1; k < wm.size(); ++k) wmok = wmok && wm[k] > wm[k - 1];
    if (!wmok) c.fail(who + ":boundaries", "%s: merged level boundaries %s for %d wavefronts, %d levels", who.c_str(), vec2s(wm).c_str(), nlev, nl);
    else {  // each coarse level executes exactly the wavefronts it claims
      std::vector<int> lev = longest_path_levels(d);
      if (s.nlev > 0 && !s.pptr.empty() && (int)s.nset.size() == d.n)
        for (int l = 0; l < nl; ++l) {
          int a = s.pptr[s.lptr[l]], b = s.pptr[s.lptr[l + 1]];
          for (int k = a; k < b && k < d.n && k >= 0; ++k) { int v = s.nset[k]; if (v >= 0 && v < d.n && (lev[v] < wm[l] || lev[v] >= wm[l + 1])) c.fail(who + ":window", "node %d of wavefront %d is in merged level %d=[%d,%d)", v, lev[v], l, wm[l], wm[l + 1]); }
        }
      c.add("obs.merged_levels", nlev - nl);
    }
    if (p != d.p || i != d.i) c.fail(who + ":input_changed", "%s modified its input graph", who.c_str());
    if (w != cost) c.fail(who + ":cost_changed", "%s modified the costs", who.c_str());
  }
}
void hdagg_case(Ctx &c) { hdagg_entry_points(c, false); }
VH_PROP(C04, hdagg_case);
}
namespace {
// m copies per core of one graph with one source and the same costs: the work splits evenly at every wavefront, so HDagg
// and GLC need no barrier at all (one level), and packing gives every core exactly m copies
void equal_pieces(Ctx &c) {
  Rng &r = c.rng;
  Dag b = gen_dag(r, r.chance(0.1) ? 120 : 25);
  std::vector<char> has(b.n, 0); std::vector<std::pair<int, int>> be;
  for (int u = 0; u < b.n; ++u) for (int k = b.p[u]; k < b.p[u + 1]; ++k) if (b.i[k] != u) { be.push_back({u, b.i[k]}); has[b.i[k]] = 1; }
  for (int v = 1; v < b.n; ++v) if (!has[v]) be.push_back({0, v});
  int cores = r.chance(0.9) ? r.range(1, 8) : r.range(9, 40), m = r.chance(0.6) ? 1 : r.range(2, 4), K = cores * m, n = K * b.n;
  if (n > 3000) return;
  std::vector<int> bc(b.n), copy(n), node(n), pos(K, 0), left; std::vector<std::vector<int>> id(K, std::vector<int>(b.n));
  int ck = r.range(0, 2); for (int v = 0; v < b.n; ++v) bc[v] = ck == 0 ? 1 : ck == 1 ? r.range(1, 30) : (r.chance(0.1) ? 1000 : 1);
  bool mix = r.chance(0.7);   // copies interleaved at random, or one after the other
  for (int k = 0; k < K; ++k) left.push_back(k);
  for (int v = 0; v < n; ++v) {
    int q = mix ? r.range(0, (int)left.size() - 1) : 0, k = left[q];
    copy[v] = k; node[v] = pos[k]; id[k][pos[k]++] = v;
    if (pos[k] == b.n) left.erase(left.begin() + q);
  }
  std::vector<std::pair<int, int>> e; for (int k = 0; k < K; ++k) for (auto &x : be) e.push_back({id[k][x.first], id[k][x.second]});
  Dag d = dag_from_edges(n, e, "copies of " + b.kind);
  std::vector<double> cost(n); for (int v = 0; v < n; ++v) cost[v] = bc[node[v]];
  c.note(" pieces: %s cores=%d per_core=%d cost=%s", dag2s(b).c_str(), cores, m, vec2s(bc).c_str());
  for (int which = 0; which < 8; ++which) {
    bool glc = which & 1, post = which & 2, bin = which & 4;
    std::string who = std::string(glc ? "glc" : "hdagg") + "_pieces" + (post ? "_post" : "") + (bin ? "_bin" : "_nobin");
    std::vector<int> p = d.p, i = d.i, lp, pp, np; int nl = -7;
    c.stage(who);
    (glc ? HDAGG::GLC_V2 : HDAGG::HDAGG)(n, (int)d.nnz(), p, i, cost, cores, nl, lp, pp, np, false, post, bin);
    Sched s = take(nl, lp, pp, np);
    if (!check_schedule(c, who, d, s, bin ? cores : -1)) continue;
    if (nl != 1) { c.fail(who + ":barriers", "%s: %d equal independent pieces on %d cores are run with %d levels", who.c_str(), K, cores, nl); continue; }
    std::vector<int> part(K, -1), held(pp.size(), 0); bool split = false;
    for (int q = lp[0]; q < lp[1]; ++q) for (int t = pp[q]; t < pp[q + 1]; ++t) { int k = copy[np[t]]; if (part[k] >= 0 && part[k] != q) split = true; if (part[k] < 0) { part[k] = q; ++held[q]; } }
    if (split) c.fail(who + ":split", "%s: an independent piece is spread over several parts", who.c_str());
    for (int q = lp[0]; q < lp[1]; ++q) if (held[q] != (bin ? m : 1)) { c.fail(who + ":share", "%s: part %d holds %d of %d equal pieces on %d cores", who.c_str(), q, held[q], K, cores); break; }
    c.add("obs.equal_pieces", K);
  }
}
}
void vh_hdagg_aggregation(Ctx &c) { hdagg_entry_points(c, true); if (!vh::giant() && c.rng.chance(0.15)) equal_pieces(c); }
namespace {

// several dense-ish blocks, weakly coupled: enough entries per row for the tuning to coarsen, and still several components
Dag gen_dense_blocks(Rng &r) {
  int nb = r.range(1, 6), n = 0; std::vector<std::pair<int, int>> e; std::vector<int> st(1, 0);
  for (int b = 0; b < nb; ++b) {
    int sz = r.range(12, 45), bw = r.range(10, 24); double dens = r.chance(0.5) ? 1.0 : 0.6 + 0.4 * r.unit();
    for (int u = 0; u < sz; ++u) for (int v = u + 1; v < sz && v <= u + bw; ++v) if (r.chance(dens)) e.push_back({n + u, n + v});
    n += sz; st.push_back(n);
  }
  if (r.chance(0.5)) { int k = r.range(1, 4); while (k--) { int u = r.range(0, n - 2), v = r.range(u + 1, n - 1); e.push_back({u, v}); } }
  Dag d = dag_from_edges(n, e, "dense_blocks");
  return r.chance(0.5) ? relabel_topological(r, d) : d;
}
void coarsen_case(Ctx &c) {
  Rng &r = c.rng;
  Dag d = !giant_next() && r.chance(0.4) ? gen_dense_blocks(r) : gen_dag(r, c.thorough ? 900 : 300);
  int cores = gen_cores(r);
  mix_dag(c, d); c.mix(cores);
  c.note("%s cores=%d", dag2s(d).c_str(), cores);
  c.nontrivial = d.edges() > 0 && d.n > 2;
  IArr p(d.p), i(d.i); std::vector<int> lp, pp, np; int nl = -7;
  stale(r, lp, d.n); stale(r, pp, d.n); stale(r, np, d.n);
  c.stage("build_coarsened_level_parallel");
  HDAGG::build_coarsened_level_parallel(d.n, p, i, cores, nl, lp, pp, np);
  Sched s = take(nl, lp, pp, np); s.nset.resize(std::min<size_t>(s.nset.size(), d.n));
  if (check_schedule(c, "build_coarsened_level_parallel", d, s, -1)) {   // every level covers the next `factor` wavefronts
    int wp = cores, ic = -5, f = -5; bool bp = false; sym_lib::lbc_config(d.n, (int)d.nnz(), cores, wp, f, ic, bp);
    std::vector<int> lev = longest_path_levels(d); c.add(f > 0 ? "obs.coarsened_graphs" : "obs.wavefront_graphs");
    for (int l = 0; l < s.nlev; ++l) for (int k = s.pptr[s.lptr[l]]; k < s.pptr[s.lptr[l + 1]]; ++k) if (lev[s.nset[k]] / std::max(f, 1) != l) { c.fail("coarsen:window", "node %d of wavefront %d is in level %d with factor %d", s.nset[k], lev[s.nset[k]], l, f); l = s.nlev; break; }
    if (f > 0) check_aggregation(c, "coarsen", d, lev, s, true);   // parts are the connected pieces of their level
    else for (int l = 0; l < s.nlev; ++l) if (s.lptr[l + 1] - s.lptr[l] != 1) { c.fail("coarsen:wavefront_parts", "wavefront %d is kept in %d parts", l, s.lptr[l + 1] - s.lptr[l]); break; }
  }
  if (p.vec() != d.p || i.vec() != d.i) c.fail("coarsen:input_changed", "input graph modified");
  // tuning for a wide range of sizes
  int n = r.chance(0.5) ? r.range(1, 50) : r.range(1, 2000000), nnz = n + (int)(r.unit() * std::min(1e8, 60.0 * n));
  int wp = cores, ic = -5, cp = -5; bool bp = false; c.stage("lbc_config");
  c.note(" lbc_config n=%d nnz=%d cores=%d", n, nnz, cores);
  sym_lib::lbc_config(n, nnz, cores, wp, cp, ic, bp);
  c.out(wp); c.out(cp); c.out(ic); c.out(bp);
  c.add("obs.configs");
  if (wp < 1) c.fail("lbc_config:parts", "lbc_config(n=%d,nnz=%d,cores=%d) asks for %d parts", n, nnz, cores, wp);
  if (wp != cores) c.fail("lbc_config:parts", "lbc_config(n=%d,nnz=%d,cores=%d) asks for %d parts", n, nnz, cores, wp);
  int n2 = nnz + (int)(r.unit() * std::min(1e8, 60.0 * n)), wp2 = cores, ic2 = -5, cp2 = -5; bool bp2 = false;
  sym_lib::lbc_config(n, n2, cores, wp2, cp2, ic2, bp2);
  if (cp2 < cp) c.fail("lbc_config:monotone", "lbc_config coarsens n=%d by %d with %d nonzeros but by %d with %d", n, cp, nnz, cp2, n2);
  if (cp < 0 || ic < 0) c.fail("lbc_config:range", "lbc_config(n=%d,nnz=%d,cores=%d) gives factor %d cut %d", n, nnz, cores, cp, ic);
  c.add(cp == 0 ? "obs.config_wavefront" : "obs.config_coarsen");
}
VH_PROP(C05, coarsen_case);

void check_sub(Ctx &c, const std::string &who, const Dag &d, const std::vector<int> &p, const std::vector<int> &i, bool exact) {
  int n = d.n; c.outv(p); c.outv(i);
  if ((int)p.size() != n + 1 || p[0] != 0 || p[n] != (int)i.size()) { c.fail(who + ":ptr", "%s: pointer size %zu start %d end %d, %zu edges", who.c_str(), p.size(), p.empty() ? -1 : p[0], p.empty() ? -1 : p.back(), i.size()); return; }
  long removed = 0;
  for (int u = 0; u < n; ++u) {
    if (p[u + 1] <= p[u]) { c.fail(who + ":node_lost", "%s: column %d empty", who.c_str(), u); return; }
    if (i[p[u]] != u) c.fail(who + ":diag", "%s: column %d does not start with its diagonal", who.c_str(), u);
    for (int k = p[u] + 1; k < p[u + 1]; ++k) {
      if (i[k] <= i[k - 1]) c.fail(who + ":unsorted", "%s: column %d not ascending", who.c_str(), u);
      if (i[k] < 0 || i[k] >= n || !std::binary_search(d.i.begin() + d.p[u], d.i.begin() + d.p[u + 1], i[k])) { c.fail(who + ":new_edge", "%s: edge %d->%d is not in the input", who.c_str(), u, i[k]); return; }
    }
    removed += (d.p[u + 1] - d.p[u]) - (p[u + 1] - p[u]);
  }
  auto A = closure(n, d.p, d.i), B = closure(n, p, i);
  for (int u = 0; u < n; ++u) if (A[u] != B[u]) { c.fail(who + ":reach", "%s: reachability from %d changed", who.c_str(), u); return; }
  c.add("obs.edges_removed", removed); c.add("obs.edges_kept", (long)i.size() - n);
  if (exact) {  // an edge is dropped iff a two-edge path replaces it
    for (int u = 0; u < n; ++u) {
      std::set<int> kept(i.begin() + p[u], i.begin() + p[u + 1]), two;
      for (int k = d.p[u] + 1; k < d.p[u + 1]; ++k) { int m = d.i[k]; for (int q = d.p[m] + 1; q < d.p[m + 1]; ++q) two.insert(d.i[q]); }
      for (int k = d.p[u] + 1; k < d.p[u + 1]; ++k) if (two.count(d.i[k]) == kept.count(d.i[k])) { c.fail(who + ":two_edge", "%s: edge %d->%d %s", who.c_str(), u, d.i[k], kept.count(d.i[k]) ? "kept although a two-edge path exists" : "dropped without a two-edge path"); return; }
    }
  }
}
void sparsify_case(Ctx &c) {
  Rng &r = c.rng;
  Dag d = gen_dag(r, c.thorough ? 300 : 120);
  mix_dag(c, d); c.note("%s", dag2s(d).c_str());
  c.nontrivial = d.edges() > 1;
  for (int clique = 0; clique < 2; ++clique) {
    std::string who = clique ? "sparsify_clique" : "sparsify_plain";
    IArr p(d.p), i(d.i); std::vector<int> op, oi;
    if (r.chance(0.3)) { op.assign(r.range(0, 2 * d.n), 3); }
    if (r.chance(0.3)) oi.assign(r.range(1, 20), 1);
    c.stage(who);
    HDAGG::partialSparsification(d.n, (int)d.nnz(), p, i, op, oi, clique);
    check_sub(c, who, d, op, oi, !clique);
    if (clique) {   // exact as well: runs of nested columns become chains, and the two-edge rule applies to what is left
      Dag g = d; g.p.assign(1, 0); g.i.clear();
      for (int f = 0; f < d.n;) {
        int l = f + 1;
        while (l < d.n && d.p[f + 1] - d.p[f] - (l - f) == d.p[l + 1] - d.p[l] && std::equal(d.i.begin() + d.p[l], d.i.begin() + d.p[l + 1], d.i.begin() + d.p[f] + (l - f))) ++l;
        for (int v = f; v < l; ++v) { if (v + 1 < l) { g.i.push_back(v); g.i.push_back(v + 1); } else g.i.insert(g.i.end(), d.i.begin() + d.p[v], d.i.begin() + d.p[v + 1]); g.p.push_back((int)g.i.size()); }
        if (l - f > 1) c.add("obs.cliques"); f = l;
      }
      if (c.viol.empty()) check_sub(c, who + "_chains", g, op, oi, true);
    }
    if (p.vec() != d.p || i.vec() != d.i) c.fail(who + ":input_changed", "input modified");
  }
}
VH_PROP(C09, sparsify_case);

bool check_groups(Ctx &c, const std::string &who, int n, int ng, const std::vector<int> &gp, const std::vector<int> &gs, std::vector<int> &inv) {
  c.out(ng); c.outv(gp); c.outv(gs);
  inv.assign(n, -1);
  if (ng < 1 || ng > n || (int)gp.size() != ng + 1 || gp[0] != 0 || gp[ng] != n || (int)gs.size() != n) { c.fail(who + ":shape", "%s: ngroups=%d ptr size %zu last %d set size %zu, n=%d", who.c_str(), ng, gp.size(), gp.empty() ? -1 : gp.back(), gs.size(), n); return false; }
  for (int g = 0; g < ng; ++g) {
    if (gp[g + 1] <= gp[g]) { c.fail(who + ":empty_group", "%s: group %d empty", who.c_str(), g); return false; }
    for (int k = gp[g]; k < gp[g + 1]; ++k) {
      if (gs[k] < 0 || gs[k] >= n) { c.fail(who + ":range", "%s: node %d", who.c_str(), gs[k]); return false; }
      if (inv[gs[k]] >= 0) { c.fail(who + ":duplicate", "%s: node %d in two groups", who.c_str(), gs[k]); return false; }
      inv[gs[k]] = g;
    }
  }
  c.add("obs.groups", ng); c.add("obs.grouped_nodes", n - ng);
  return true;
}
// exact group graph and its acyclicity
bool check_group_dag(Ctx &c, const std::string &who, const Dag &d, int ng, const std::vector<int> &inv, const std::vector<int> &p, const std::vector<int> &i, bool diag) {
  c.outp(p.data(), std::min(p.size(), (size_t)ng + 1)); c.outv(i);
  if ((int)p.size() < ng + 1 || p[0] != 0 || p[ng] != (int)i.size()) { c.fail(who + ":dag_ptr", "%s: group graph pointers %zu/%zu", who.c_str(), p.size(), i.size()); return false; }
  std::vector<std::set<int>> want(ng);
  for (int u = 0; u < d.n; ++u) for (int k = d.p[u]; k < d.p[u + 1]; ++k) if (diag || inv[u] != inv[d.i[k]]) want[inv[u]].insert(inv[d.i[k]]);
  for (int g = 0; g < ng; ++g) {
    std::vector<int> got(i.begin() + p[g], i.begin() + p[g + 1]);
    std::vector<int> w(want[g].begin(), want[g].end());
    std::vector<int> s = got; std::sort(s.begin(), s.end());
    if (s != w) { c.fail(who + ":dag_edges", "%s: group %d has edges %s want %s", who.c_str(), g, vec2s(got).c_str(), vec2s(w).c_str()); return false; }
  }
  std::vector<int> deg(ng, 0), q; for (int g = 0; g < ng; ++g) for (int k = p[g]; k < p[g + 1]; ++k) if (i[k] != g) deg[i[k]]++;
  for (int g = 0; g < ng; ++g) if (!deg[g]) q.push_back(g);
  for (size_t h = 0; h < q.size(); ++h) for (int k = p[q[h]]; k < p[q[h] + 1]; ++k) if (i[k] != q[h] && --deg[i[k]] == 0) q.push_back(i[k]);
  if ((int)q.size() != ng) { c.fail(who + ":cyclic", "%s: the group graph has a cycle", who.c_str()); return false; }
  c.add("obs.group_edges", (long)i.size());
  return true;
}
// What each grouping joins. Tree groupings join every node with its only dependent, so a group is a whole tree of such links,
// or, with a size limit, one of as few pieces as the limit allows; the breadth-first one stops at nodes with several dependents
// but still takes whole trees of forests; chain groupings join u and v when v is u's only dependent and u v's only dependence.
void check_joined(Ctx &c, const std::string &who, const Dag &d, int ng, const std::vector<int> &inv, int kind) {
  int n = d.n; std::vector<int> uf(n), in(n, 0); for (int v = 0; v < n; ++v) uf[v] = v;
  std::function<int(int)> fd = [&](int x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; };
  bool forest = true;
  for (int u = 0; u < n; ++u) { if (d.p[u + 1] - d.p[u] > 2) forest = false; for (int k = d.p[u] + 1; k < d.p[u + 1]; ++k) ++in[d.i[k]]; }
  bool chain = kind == 4 || kind == 7, bfs = kind == 2 || kind == 3;
  for (int u = 0; u < n; ++u) if (d.p[u + 1] - d.p[u] == 2) { int v = d.i[d.p[u] + 1]; if (!chain || in[v] == 1) uf[fd(u)] = fd(v); }
  int limit = n;
  if (kind == 1) limit = std::max(1, (int)(0.001 * n));
  if (kind == 6) limit = std::max(1, (int)(0.002 * n));
  if (kind == 3) limit = std::max(1, (int)(0.0001 * n));
  std::vector<int> size(ng, 0), cls(n, 0), root(ng, -1); for (int v = 0; v < n; ++v) { ++size[inv[v]]; ++cls[fd(v)]; }
  for (int v = 0; v < n; ++v) { int &q = root[inv[v]]; if (q < 0) q = fd(v); else if (q != fd(v)) { c.fail(who + ":joined", "%s: nodes %d and %d share a group without a chain of only dependents between them", who.c_str(), v, q); return; } }
  for (int g = 0; g < ng; ++g) if (size[g] > limit) { c.fail(who + ":limit", "%s: group %d has %d nodes, the limit is %d", who.c_str(), g, size[g], limit); return; }
  if (bfs) {   // connected, and rooted: one node whose dependents are all outside
    std::vector<int> tops(ng, 0);
    for (int u = 0; u < n; ++u) if (d.p[u + 1] - d.p[u] != 2 || inv[d.i[d.p[u] + 1]] != inv[u]) ++tops[inv[u]];
    for (int g = 0; g < ng; ++g) if (tops[g] != 1) { c.fail(who + ":tree", "%s: group %d is not one tree but has %d roots", who.c_str(), g, tops[g]); return; }
  }
  if (!bfs || (kind == 2 && forest)) {
    long want = 0; for (int v = 0; v < n; ++v) if (cls[v]) want += (cls[v] + limit - 1) / limit;
    if (want != ng) { c.fail(who + ":not_joined", "%s: %d groups where %ld hold all links (limit %d)", who.c_str(), ng, want, limit); return; }
    c.add("obs.exact_groups", ng);
  }
}
struct Grp { int ng = -1; std::vector<int> p, s, inv; };
const int N_GRP = 7;
bool run_group(Ctx &c, int kind, const Dag &d, Grp &g, std::string &who) {
  static const char *nm[] = {"treeBasedGrouping", "treeBasedGrouping_L", "treeBasedGroupingBFS", "treeBasedGroupingBFS_L", "chainGrouping", "treeBasedGrouping_Aggressive", "treeBasedGrouping_Aggressive_L"};
  who = nm[kind];
  std::vector<int> p = d.p, i = d.i;
  stale(c.rng, g.p, d.n); stale(c.rng, g.s, d.n);
  c.stage(who);
  switch (kind) {
  case 0: HDAGG::treeBasedGrouping(d.n, p, i, g.ng, g.p, g.s, false); break;
  case 1: HDAGG::treeBasedGrouping(d.n, p, i, g.ng, g.p, g.s, true); break;
  case 2: HDAGG::treeBasedGroupingBFS(d.n, p, i, g.ng, g.p, g.s, false); break;
  case 3: HDAGG::treeBasedGroupingBFS(d.n, p, i, g.ng, g.p, g.s, true); break;
  case 4: HDAGG::chainGrouping(d.n, p, i, g.ng, g.p, g.s); break;
  case 5: HDAGG::treeBasedGrouping_Aggressive(d.n, p, i, g.ng, g.p, g.s, false); break;
  case 6: HDAGG::treeBasedGrouping_Aggressive(d.n, p, i, g.ng, g.p, g.s, true); break;
  }
  if (p != d.p || i != d.i) c.fail(who + ":input_changed", "%s modified its input", who.c_str());
  return check_groups(c, who, d.n, g.ng, g.p, g.s, g.inv);
}
// size > 1000 makes the size restriction of the factor variants larger than one
Dag big_or_small(Ctx &c) {
  Rng &r = c.rng;
  if (!giant_next() && r.chance(0.05)) { Dag d = gen_dag_kind(r, r.range(0, N_DAG_KINDS - 1), r.range(2000, 4000)); if (d.nnz() < 200000) return d; }
  return gen_dag(r, c.thorough ? 500 : 250);
}
void group_case(Ctx &c) {
  Rng &r = c.rng;
  Dag d = big_or_small(c);
  if (r.chance(0.5)) {  // the pipeline groups the sparsified graph
    std::vector<int> op, oi; c.stage("sparsify_before_grouping");
    HDAGG::partialSparsification(d.n, (int)d.nnz(), d.p.data(), d.i.data(), op, oi, true);
    d.p = op; d.i = oi;
  }
  mix_dag(c, d); c.note("%s", dag2s(d).c_str());
  c.nontrivial = d.edges() > 0;
  for (int k = 0; k < N_GRP; ++k) {
    if (k >= 5 && !&HDAGG::treeBasedGrouping_Aggressive) continue;
    Grp g; std::string who;
    if (!run_group(c, k, d, g, who)) continue;
    std::vector<int> gp, gi; stale(r, gp, 0); stale(r, gi, d.n);
    c.stage("buildGroupDAG");
    HDAGG::buildGroupDAG(d.n, g.ng, g.p.data(), g.s.data(), d.p.data(), d.i.data(), gp, gi);
    check_group_dag(c, who, d, g.ng, g.inv, gp, gi, true);
    check_joined(c, who, d, g.ng, g.inv, k);
    if (k == 4)
      for (int q = 0; q < g.ng; ++q) for (int x = g.p[q]; x + 1 < g.p[q + 1]; ++x) {
        int u = g.s[x], v = g.s[x + 1];
        if (!std::binary_search(d.i.begin() + d.p[u], d.i.begin() + d.p[u + 1], v) || d.p[u + 1] - d.p[u] != 2) c.fail(who + ":chain", "group %d: %d is followed by %d which is not its only dependent", q, u, v);
      }
    // number groups by their smallest node
    for (int q = 0; q + 1 < g.ng; ++q) {
      int a = *std::min_element(g.s.begin() + g.p[q], g.s.begin() + g.p[q + 1]), b = *std::min_element(g.s.begin() + g.p[q + 1], g.s.begin() + g.p[q + 2]);
      if (a >= b) c.fail(who + ":naming", "groups %d and %d are not ordered by smallest node", q, q + 1);
    }
  }
  {
    std::vector<int> po; stale(r, po, d.n); c.stage("computePostOrder");
    HDAGG::computePostOrder(d.n, d.p.data(), d.i.data(), po);
    c.outv(po);
    std::vector<int> pos(d.n, -1); bool ok = (int)po.size() == d.n;
    for (int k = 0; ok && k < d.n; ++k) { if (po[k] < 0 || po[k] >= d.n || pos[po[k]] >= 0) ok = false; else pos[po[k]] = k; }
    if (!ok) c.fail("computePostOrder:perm", "post order %s is not a permutation of %d nodes", vec2s(po).c_str(), d.n);
    else for (int u = 0; u < d.n; ++u) for (int k = d.p[u] + 1; k < d.p[u + 1]; ++k) if (pos[u] > pos[d.i[k]]) c.fail("computePostOrder:order", "edge %d->%d goes backwards in the post order", u, d.i[k]);
  }
  void (*pog)(int, const std::vector<int> &, const std::vector<int> &, int &, std::vector<int> &, std::vector<int> &, std::vector<int> &, std::vector<int> &) = &HDAGG::computePostOrderAndGroup;
  if (pog) {
    Grp g; std::vector<int> gp, gi; std::string who = "computePostOrderAndGroup"; c.stage(who);
    pog(d.n, d.p, d.i, g.ng, g.p, g.s, gp, gi);
    if (check_groups(c, who, d.n, g.ng, g.p, g.s, g.inv)) { check_group_dag(c, who, d, g.ng, g.inv, gp, gi, true); check_joined(c, who, d, g.ng, g.inv, 7); }
  }
}
VH_PROP(C10, group_case);

// group -> group graph -> schedule -> ungroup: the pipeline used by the executors
void pipeline_case(Ctx &c) {
  Rng &r = c.rng;
  Dag d = big_or_small(c);
  int cores = gen_cores(r);
  mix_dag(c, d); c.mix(cores);
  c.note("%s cores=%d", dag2s(d).c_str(), cores);
  c.nontrivial = d.edges() > 0;
  Dag s = d;
  if (r.chance(0.5)) { std::vector<int> op, oi; c.stage("sparsify"); HDAGG::partialSparsification(d.n, (int)d.nnz(), d.p.data(), d.i.data(), op, oi, true); s.p = op; s.i = oi; }
  Grp g; std::string gw;
  int kind = r.range(0, &HDAGG::treeBasedGrouping_Aggressive ? N_GRP - 1 : 4);
  if (!run_group(c, kind, s, g, gw)) return;
  std::vector<int> gp, gi; c.stage("buildGroupDAG");
  HDAGG::buildGroupDAG(s.n, g.ng, g.p.data(), g.s.data(), s.p.data(), s.i.data(), gp, gi);
  std::vector<double> cost; for (int q = 0; q < g.ng; ++q) { double t = 0; for (int k = g.p[q]; k < g.p[q + 1]; ++k) t += d.p[g.s[k] + 1] - d.p[g.s[k]]; cost.push_back(t); }
  std::vector<int> lp, pp, np; int nl = -7; bool bin = r.chance(0.7), glc = r.chance(0.4);
  c.stage("schedule_groups");
  (glc ? HDAGG::GLC_V2 : HDAGG::HDAGG)(g.ng, gp[g.ng], gp, gi, cost, cores, nl, lp, pp, np, false, false, bin);
  Sched sg = take(nl, lp, pp, np);
  if (!check_schedule_shape(c, "group_schedule", g.ng, sg)) return;
  std::vector<int> part_of(d.n, -1), lev_of(d.n, -1);
  for (int l = 0; l < nl; ++l) for (int q = lp[l]; q < lp[l + 1]; ++q) for (int k = pp[q]; k < pp[q + 1]; ++k) for (int x = g.p[np[k]]; x < g.p[np[k] + 1]; ++x) { part_of[g.s[x]] = q; lev_of[g.s[x]] = l; }
  bool post = r.chance(0.5);
  std::vector<int> lp2 = lp, pp2 = pp, np2 = np;
  c.stage(post ? "ungroup_post" : "ungroup_sort");
  HDAGG::ungroupingScheduleAndApplyOrdering(d.n, nl, lp2, pp2, np2, g.p, g.s, s.p.data(), s.i.data(), !post, post);
  Sched su = take(nl, lp2, pp2, np2);
  std::string who = post ? "ungroup_post" : "ungroup_sort";
  if (lp2 != lp) c.fail(who + ":levels", "%s changed the level pointer", who.c_str());
  if (!check_schedule(c, who, d, su, bin ? cores : -1)) return;
  for (int l = 0; l < nl; ++l) for (int q = lp[l]; q < lp[l + 1]; ++q) for (int k = pp2[q]; k < pp2[q + 1]; ++k) if (part_of[np2[k]] != q) { c.fail(who + ":part", "node %d moved from part %d to %d", np2[k], part_of[np2[k]], q); return; }
  // plain expansion keeps the group order
  {
    std::vector<int> lp3 = lp, pp3 = pp, np3 = np; c.stage("ungroup_plain");
    HDAGG::ungroupingScheduleAndApplyOrdering(d.n, nl, lp3, pp3, np3, g.p, g.s, nullptr, nullptr, false, false);
    std::vector<int> want; for (int x : np) want.insert(want.end(), g.s.begin() + g.p[x], g.s.begin() + g.p[x + 1]);
    if (want != np3) c.fail("ungroup_plain:order", "expansion does not list the groups' nodes in order");
    bool thrown = false; c.stage("ungroup_reject");
    try { std::vector<int> a = lp, b = pp, e = np; HDAGG::ungroupingScheduleAndApplyOrdering(d.n, nl, a, b, e, g.p, g.s, nullptr, nullptr, false, true); } catch (std::logic_error &) { thrown = true; }
    if (!thrown) c.fail("ungroup_post:no_dag", "post ordering without a graph was not rejected");
  }
  // supernodes found inside the parts: an average over a partition of the nodes
  {
    int nl3 = nl; std::vector<int> lp3 = lp, pp3 = pp, np3 = np; c.stage("aggressiveSupernodeGrouping");
    double av = HDAGG::aggressiveSupernodeGrouping(d.n, g.p.data(), g.s.data(), d.p.data(), d.i.data(), nl3, lp3, pp3, np3); c.out(Ctx::bits(av));
    double k = d.n / av; if (!(av >= 1) || !(av <= d.n) || std::fabs(k - std::round(k)) > 1e-6) c.fail("aggressiveSupernodeGrouping:average", "an average of %.17g over %d nodes", av, d.n);
    if (nl3 != nl || lp3 != lp || pp3 != pp || np3 != np) c.fail("aggressiveSupernodeGrouping:schedule_changed", "the schedule was changed");
  }
  // collapse the schedule to a graph over its parts
  {
    Grp f; std::vector<int> fp, fi; stale(r, f.p, d.n); stale(r, f.s, d.n); stale(r, fp, d.n); stale(r, fi, d.n);
    c.stage("getFinalScheduleDAG");
    HDAGG::getFinalScheduleDAG(d.n, nl, lp2.data(), pp2.data(), np2.data(), d.p.data(), d.i.data(), f.ng, f.p, f.s, fp, fi);
    if (f.s != np2) c.fail("getFinalScheduleDAG:order", "part nodes are not in schedule order");
    if (check_groups(c, "getFinalScheduleDAG", d.n, f.ng, f.p, f.s, f.inv)) {
      check_group_dag(c, "getFinalScheduleDAG", d, f.ng, f.inv, fp, fi, true);
      for (int u = 0; u < d.n; ++u) for (int k = d.p[u]; k < d.p[u + 1]; ++k) { int a = f.inv[u], b = f.inv[d.i[k]]; if (a > b) { c.fail("getFinalScheduleDAG:forward", "part edge %d->%d goes backwards", a, b); return; } if ((part_of[u] == part_of[d.i[k]]) != (a == b)) { c.fail("getFinalScheduleDAG:part", "nodes %d and %d disagree on sharing a part", u, d.i[k]); return; } }
    }
  }
  // two dimensional tiling, row oriented: every nonzero once, in its part, dependences kept
  {
    std::vector<std::vector<int>> row(d.n); for (int u = 0; u < d.n; ++u) for (int k = d.p[u]; k < d.p[u + 1]; ++k) row[d.i[k]].push_back(u);
    std::vector<int> rp(1, 0), ri; for (int u = 0; u < d.n; ++u) { ri.insert(ri.end(), row[u].begin(), row[u].end()); rp.push_back((int)ri.size()); }
    std::vector<int> tp; std::vector<HDAGG::twoDIteration> it; stale(r, tp, d.n); if (r.chance(0.3)) it.resize(r.range(1, 9));
    c.stage("twoDReordering");
    HDAGG::twoDReordering(d.n, (int)ri.size(), rp.data(), ri.data(), nl, lp2, pp2, np2, 4, tp, it);
    c.outv(tp); for (auto &e : it) { c.out(e.i); c.out(e.j); c.out(e.k); }
    int P = lp2[nl]; std::vector<int> seen(ri.size(), 0), done(d.n, 0);
    if ((int)tp.size() != P + 1 || tp[0] != 0 || tp[P] != (int)ri.size() || it.size() != ri.size()) c.fail("twoDReordering:shape", "%zu tile pointers for %d parts, %zu of %zu nonzeros", tp.size(), P, it.size(), ri.size());
    else {
      std::vector<std::vector<int>> pend(d.n); bool ok = true;
      for (int q = 0; q < P && ok; ++q) {
        if (tp[q + 1] < tp[q]) { c.fail("twoDReordering:shape", "tile pointer decreases"); break; }
        for (int k = tp[q]; k < tp[q + 1] && ok; ++k) {
          auto &e = it[k];
          if (e.k < 0 || e.k >= (int)ri.size() || e.j != ri[e.k] || e.i < 0 || e.i >= d.n || e.k < rp[e.i] || e.k >= rp[e.i + 1]) { c.fail("twoDReordering:entry", "iteration (%d,%d,%d) does not name a stored nonzero", e.i, e.k, e.j); ok = false; break; }
          if (seen[e.k]++) { c.fail("twoDReordering:duplicate", "nonzero %d visited twice", e.k); ok = false; }
          if (part_of[e.i] != q) { c.fail("twoDReordering:part", "row %d visited in part %d, scheduled in %d", e.i, q, part_of[e.i]); ok = false; }
          if (e.i == e.j) done[e.i] = 1;                    // divide by the diagonal: all updates must be in
          else if (!done[e.j] || done[e.i]) { c.fail("twoDReordering:dependence", "update (%d,%d) runs %s", e.i, e.j, done[e.i] ? "after its row finished" : "before its source is final"); ok = false; }
        }
      }
      c.add("obs.tiled_nonzeros", (long)it.size());
    }
  }
  // groups refined into supernodes nested in them
  {
    // consecutive groups: chains of consecutive nodes
    std::vector<int> b(1, 0); for (int v = 1; v < d.n; ++v) if (!r.chance(0.5)) b.push_back(v); b.push_back(d.n);
    // only consecutive-node groups may be converted: use the node partition itself as groups, each split into supernodes
    std::vector<int> gptr = b, gset(d.n), sp(1, 0); for (int v = 0; v < d.n; ++v) gset[v] = v;
    int ng2 = (int)b.size() - 1;
    for (int q = 0; q < ng2; ++q) { for (int v = b[q] + 1; v < b[q + 1]; ++v) if (r.chance(0.4)) sp.push_back(v); sp.push_back(b[q + 1]); }
    int ns = (int)sp.size() - 1;
    // a schedule over these groups: random levels/parts
    std::vector<int> order(ng2); for (int q = 0; q < ng2; ++q) order[q] = q; r.shuffle(order);
    std::vector<int> pp4(1, 0), lp4(1, 0); int at = 0; while (at < ng2) { at += r.range(1, 3); if (at > ng2) at = ng2; pp4.push_back(at); } int P = (int)pp4.size() - 1; at = 0; while (at < P) { at += r.range(1, 4); if (at > P) at = P; lp4.push_back(at); }
    int nl4 = (int)lp4.size() - 1; std::vector<int> lp5 = lp4, pp5 = pp4, np5 = order;
    c.stage("convertCNScheduleToSuperNode");
    HDAGG::convertCNScheduleToSuperNode(d.n, ns, gptr.data(), gset.data(), sp.data(), nl4, lp5, pp5, np5);
    std::vector<int> wp(1, 0), wn, n2s(d.n); for (int q = 0; q < ns; ++q) for (int v = sp[q]; v < sp[q + 1]; ++v) n2s[v] = q;
    for (int q = 0; q < P; ++q) { for (int k = pp4[q]; k < pp4[q + 1]; ++k) for (int q2 = n2s[b[order[k]]]; q2 <= n2s[b[order[k] + 1] - 1]; ++q2) wn.push_back(q2); wp.push_back((int)wn.size()); }
    if (lp5 != lp4 || pp5 != wp || np5 != wn) c.fail("convertCNScheduleToSuperNode:map", "parts %s nodes %s want parts %s nodes %s", vec2s(pp5).c_str(), vec2s(np5).c_str(), vec2s(wp).c_str(), vec2s(wn).c_str());
  }
}
VH_PROP(C11, pipeline_case);
}  // namespace
