// Requested parallelism and load balance of packed schedules (C13).
#include "vh.h"
#include <climits>
#include <cmath>
#include "aggregation/hdagg.h"
#include "aggregation/lbc.h"
#include "aggregation/lbc_utils.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/sparse_utilities.h"
using namespace vh;

namespace {
Sched take(int nlev, int *lp, int *pp, int *np, int n) {
  Sched s; s.nlev = nlev;
  if (nlev < 0 || nlev > n || !lp || !pp || !np) { s.nlev = -1; return s; }
  s.lptr.assign(lp, lp + nlev + 1);
  int P = lp[nlev];
  if (P < 0 || P > n) return s;
  s.pptr.assign(pp, pp + P + 1); s.nset.assign(np, np + n);
  return s;
}
// loads produced by longest-processing-time-first into `bins` bins
std::vector<double> lpt(std::vector<double> w, int bins) {
  std::sort(w.rbegin(), w.rend());
  std::multiset<double> b; for (int i = 0; i < bins; ++i) b.insert(0);
  for (double x : w) { double m = *b.begin(); b.erase(b.begin()); b.insert(m + x); }
  return std::vector<double>(b.begin(), b.end());
}
// Every level of a packed schedule: components stay whole and are spread heaviest first over the bins.
void check_packing(Ctx &c, const std::string &who, const Dag &d, const Sched &s, const std::vector<double> &cost, bool exact) {
  std::vector<int> lev(d.n, -1), part(d.n, -1), uf(d.n);
  for (int v = 0; v < d.n; ++v) uf[v] = v;
  for (int l = 0; l < s.nlev; ++l)
    for (int q = s.lptr[l]; q < s.lptr[l + 1]; ++q)
      for (int t = s.pptr[q]; t < s.pptr[q + 1]; ++t) { lev[s.nset[t]] = l; part[s.nset[t]] = q; }
  std::function<int(int)> fd = [&](int x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; };
  for (int u = 0; u < d.n; ++u) for (int k = d.p[u]; k < d.p[u + 1]; ++k) { int v = d.i[k]; if (v != u && lev[u] == lev[v]) uf[fd(u)] = fd(v); }
  for (int l = 0; l < s.nlev; ++l) {
    int P = s.lptr[l + 1] - s.lptr[l], nonempty = 0;
    if (P <= 0) continue;
    std::map<int, double> comp; std::vector<double> load; double total = 0, mx = 0, heavy = 0;
    for (int q = s.lptr[l]; q < s.lptr[l + 1]; ++q) {
      double w = 0;
      for (int t = s.pptr[q]; t < s.pptr[q + 1]; ++t) { w += cost[s.nset[t]]; comp[fd(s.nset[t])] += cost[s.nset[t]]; }
      load.push_back(w); total += w; mx = std::max(mx, w); nonempty += s.pptr[q + 1] > s.pptr[q];
    }
    std::vector<double> cw; for (auto &x : comp) { cw.push_back(x.second); heavy = std::max(heavy, x.second); }
    if ((int)cw.size() > P) c.add("obs.levels_packed");
    if (P > 1) c.add("obs.levels_checked");
    if (mx > total / P + heavy + 1e-9 * (1 + total)) c.fail(who + ":imbalance", "%s: level %d has a part of cost %g; average over %d parts %g, heaviest component %g", who.c_str(), l, mx, P, total / P, heavy);
    if (exact) {
      std::vector<double> want = lpt(cw, P), got = load; std::sort(got.begin(), got.end());
      if (want != got) c.fail(who + ":packing", "%s: level %d part costs %s, heaviest-first into the lightest part gives %s (components %s)", who.c_str(), l, vec2s(got).c_str(), vec2s(want).c_str(), vec2s(cw).c_str());
    }
  }
}
// A packed HDagg/GLC level that joins several wavefronts shares its work evenly: with k = min(cores, nodes of its first
// wavefront) workers, the parts' shares diverge from 1/k by less than the scheduler's tolerance of 0.003 bits.
void check_windows(Ctx &c, const std::string &who, const Dag &d, const Sched &s, const std::vector<double> &cost, int cores) {
  std::vector<int> wave = longest_path_levels(d);
  for (int l = 0; l < s.nlev; ++l) {
    std::map<int, int> width; double total = 0, kl = 0; std::vector<double> load;
    for (int q = s.lptr[l]; q < s.lptr[l + 1]; ++q) {
      double w = 0; for (int t = s.pptr[q]; t < s.pptr[q + 1]; ++t) { w += cost[s.nset[t]]; ++width[wave[s.nset[t]]]; }
      load.push_back(w); total += w;
    }
    if (width.size() < 2) continue;
    int k = std::min(cores, width.begin()->second);
    for (double w : load) if (w > 0) kl += w / total * std::log2(w / total * k);
    c.add(k > 1 ? "obs.windows_shared" : "obs.windows_serial");
    if (!(kl < 0.003 + 1e-6)) c.fail(who + ":balance", "%s: level %d joins %d wavefronts, but its parts cost %s for %d workers (divergence %g bits)", who.c_str(), l, (int)width.size(), vec2s(load).c_str(), k, kl);
  }
}
void pack_unit(Ctx &c) {
  Rng &r = c.rng;
  bool wide = r.chance(0.01); int items = wide ? r.range(300, 4000) : r.chance(0.04) ? r.range(31, 400) : r.range(1, 30), bins = wide ? r.range(71, 1500) : r.chance(0.04) ? r.range(9, 70) : r.range(1, 8), kind = r.range(0, 3), next = 0;
  std::vector<std::vector<int>> in(items); std::vector<double> w(items);
  for (int k = 0; k < items; ++k) {
    int sz = r.range(0, 4); for (int t = 0; t < sz; ++t) in[k].push_back(next++);
    w[k] = kind == 0 ? 1 : kind == 1 ? r.range(0, 10) : kind == 2 ? r.range(1, 1000) : 1e9 * r.range(1, 9);
  }
  std::vector<std::vector<int>> orig = in, out(bins);
  DArr ic(w), oc(std::vector<double>(bins, 0.0));
  c.note("pack items=%d bins=%d costs=%s", items, bins, vec2s(w).c_str());
  std::string who = "worst_fit"; c.stage(who);
  int nb = sym_lib::worst_fit_bin_pack(in, ic, out, oc, r.range(0, 100), bins);
  if (nb < 0 || nb > bins || (int)out.size() < nb) { c.fail(who + ":bins", "returned %d bins of %d", nb, bins); return; }
  for (int b = 0; b < nb; ++b) { c.outv(out[b]); c.out(Ctx::bits(oc[b])); }
  if (in != orig) c.fail(who + ":input_changed", "the item lists were modified");
  if (ic.vec() != w) c.fail(who + ":input_changed", "the item costs were modified");
  // each item is one contiguous, unchanged run inside exactly one bin
  std::map<int, int> owner; for (int k = 0; k < items; ++k) for (int v : in[k]) owner[v] = k;
  std::vector<int> cnt(items, 0); std::vector<double> load(bins, 0.0); std::vector<int> empties;
  for (int b = 0; b < nb; ++b)
    for (size_t t = 0; t < out[b].size();) {
      auto it = owner.find(out[b][t]);
      if (it == owner.end()) { c.fail(who + ":invented", "bin %d holds %d which is in no item", b, out[b][t]); return; }
      int k = it->second;
      for (size_t q = 0; q < in[k].size(); ++q, ++t)
        if (t >= out[b].size() || out[b][t] != in[k][q]) { c.fail(who + ":split", "item %d is not kept together in bin %d", k, b); return; }
      ++cnt[k]; load[b] += w[k];
    }
  bool zero_only = true;
  for (int k = 0; k < items; ++k) {
    if (!in[k].empty() && cnt[k] != 1) { c.fail(who + ":conservation", "item %d placed %d times", k, cnt[k]); return; }
    if (in[k].empty() && w[k] != 0) zero_only = false;
  }
  if (zero_only) for (int b = 0; b < nb; ++b) if (oc[b] != load[b]) c.fail(who + ":cost", "bin %d reports cost %g, holds %g", b, oc[b], load[b]);
  double tot = 0, wt = 0; for (int b = 0; b < nb; ++b) tot += oc[b]; for (double x : w) wt += x;
  if (tot != wt) c.fail(who + ":cost", "bin costs sum to %g, item costs to %g", tot, wt);
  std::vector<double> want = lpt(w, bins), got(oc.d, oc.d + nb); std::sort(got.begin(), got.end());
  if (nb == bins && want != got) c.fail(who + ":greedy", "bin costs %s, heaviest-first into the lightest bin gives %s (items %s)", vec2s(got).c_str(), vec2s(want).c_str(), vec2s(w).c_str());
  c.add("obs.unit_packings");
  // threshold merging of consecutive items
  std::vector<int> iw(items); bool heavy = r.chance(0.3); for (auto &x : iw) x = heavy ? r.range(1, 1000000) : r.range(1, 12);
  int thr = heavy ? r.range(1, 4000000) : r.range(1, 30);
  std::vector<std::vector<int>> mo(items); IArr mi(iw), mc(std::vector<int>(items, -1));
  who = "merge_inner_part"; c.stage(who);
  int np = sym_lib::merge_inner_part(in, mi, mo, mc, thr);
  if (np < 1 || np > items) { c.fail(who + ":parts", "%d parts from %d items", np, items); return; }
  std::vector<int> flat, all; for (auto &x : in) all.insert(all.end(), x.begin(), x.end());
  int k = 0;
  for (int b = 0; b < np; ++b) {
    int s = 0; std::vector<int> wantl;
    while (k < items && s < thr) { s += iw[k]; wantl.insert(wantl.end(), in[k].begin(), in[k].end()); ++k; }
    if (mo[b] != wantl || mc[b] != s) { c.fail(who + ":merge", "part %d: cost %d (expected %d), items %s", b, mc[b], s, vec2s(mo[b]).c_str()); break; }
    flat.insert(flat.end(), mo[b].begin(), mo[b].end());
  }
  if (flat != all) c.fail(who + ":conservation", "merged parts do not hold all items in order");
}
void large_windows(Ctx &c) {   // a code path of its own in the parallel variant
  Rng &r = c.rng; int parts = r.range(1, 9), dist = r.range(1, 3), div = r.range(1, 3), nl = -7, pn = -7, *lp = nullptr, *pp = nullptr, *np = nullptr;
  Dag d = gen_layers(r, dist, div); std::vector<double> cost(d.n); for (auto &x : cost) x = r.range(1, 50);
  mix_dag(c, d); c.mix(parts); c.mix(dist); c.mix(div); c.note("layers n=%d parts=%d dist=%d div=%d", d.n, parts, dist, div); c.nontrivial = true;
  IArr p(d.p), i(d.i); DArr w(cost); std::string who = "lbc_large"; c.stage(who);
  sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(d.n, p, i, nl, lp, pn, pp, np, parts, dist, div, w, r.range(1, 4), true);
  Sched s = take(nl, lp, pp, np, d.n);
  if (check_schedule(c, who, d, s, parts > 1 ? parts : 6)) check_packing(c, who, d, s, cost, true);
  delete[] lp; delete[] pp; delete[] np; c.add("obs.large_windows");
}
void pack_case(Ctx &c) {
  Rng &r = c.rng;
  if (!giant_next() && c.idx % 10000 == 700) { large_windows(c); return; }
  pack_unit(c);
  Dag d = gen_dag(r, c.thorough ? 500 : 250);
  int parts = r.chance(0.2) ? 1 : r.chance(0.8) ? r.range(2, 8) : r.chance(0.9) ? r.range(9, 20) : r.chance(0.85) ? r.range(21, 150) : r.range(151, 2500);
  int dist = r.chance(0.15) ? -1 : r.chance(0.8) ? r.range(1, 4) : r.range(5, 30), div = r.range(dist < 0 ? 2 : 1, 6);
  std::vector<double> cost(d.n); int ck = r.range(0, 4); bool exact = ck != 3;
  for (int j = 0; j < d.n; ++j) cost[j] = ck == 0 ? 1 : ck == 1 ? d.p[j + 1] - d.p[j] : ck == 2 ? r.range(0, 50) : ck == 3 ? r.unit() * 100 : (r.chance(0.15) ? (d.n > 9000 ? 2e4 : 2e5) : r.range(1, 5) * 1e3);
  mix_dag(c, d); c.mix(parts); c.mix(dist); c.mix(div);
  c.note("%s parts=%d dist=%d div=%d cost=%s", dag2s(d).c_str(), parts, dist, div, vec2s(cost).c_str());
  c.nontrivial = d.n > 2;
  for (int which = 0; which < 5; ++which) {
    IArr p(d.p), i(d.i); DArr w(cost); int nl = -7, pn = -7, *lp = nullptr, *pp = nullptr, *np = nullptr; std::string who;
    switch (which) {
    case 0: who = "lbc_dag"; c.stage(who); sym_lib::get_coarse_levelSet_DAG_CSC(d.n, p, i, nl, lp, pn, pp, np, parts, dist, div, w, true); break;
    case 1: who = "lbc_dag03"; c.stage(who); sym_lib::get_coarse_Level_set_DAG_CSC03(d.n, p, i, nl, lp, pn, pp, np, parts, dist, div, w); break;
    case 2: who = "lbc_dag03_par"; c.stage(who); sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(d.n, p, i, nl, lp, pn, pp, np, parts, dist, div, w, 4, true); break;
    case 3: {
      if (div < 2) continue;
      who = "lbc_tree"; std::vector<int> par = ref_etree(d); IArr t(par); c.stage(who);
      sym_lib::get_coarse_levelSet_tree(d.n, t, nl, lp, pn, pp, np, parts, dist, div, w);
      std::vector<std::pair<int, int>> e; for (int j = 0; j < d.n; ++j) if (par[j] >= 0) e.push_back({j, par[j]});
      Dag td = dag_from_edges(d.n, e, "etree");
      Sched s = take(nl, lp, pp, np, d.n);
      if (check_schedule(c, who, td, s, parts)) check_packing(c, who, td, s, cost, exact);
      delete[] lp; delete[] pp; delete[] np;
      continue; }
    case 4: {
      who = "lbc_blocked"; std::vector<int> b2c(d.n + 1), c2b(d.n); for (int j = 0; j <= d.n; ++j) b2c[j] = j; for (int j = 0; j < d.n; ++j) c2b[j] = j;
      std::vector<size_t> P(d.p.begin(), d.p.end()), I(d.p.begin(), d.p.end()); IArr B(b2c), C(c2b); int *pls = nullptr;
      c.stage(who);
      sym_lib::getCoarseLevelSet_DAG_BCSC02(d.n, P.data(), I.data(), i, B, C, nl, lp, pls, pn, pp, np, parts, dist, div, w);
      break; }
    }
    Sched s = take(nl, lp, pp, np, d.n);
    if (check_schedule(c, who, d, s, parts > 1 ? parts : (which == 4 ? -1 : 6))) check_packing(c, who, d, s, cost, exact);
    delete[] lp; delete[] pp; delete[] np;
  }
  // HDagg / GLC never create more parts than cores, and merge wavefronts only into balanced ones
  for (int which = 0; which < 2; ++which) {
    std::vector<int> p = d.p, i = d.i, lp, pp, np; int nl = -7; int cores = parts; std::string who = which ? "glc_bin" : "hdagg_bin";
    c.stage(who);
    std::vector<int> wm = (which ? HDAGG::GLC_V2 : HDAGG::HDAGG)(d.n, (int)d.nnz(), p, i, cost, cores, nl, lp, pp, np, false, false, true);
    c.outv(wm); c.outv(lp); c.outv(pp); c.outv(np);
    for (int l = 0; l < nl && l + 1 < (int)lp.size(); ++l)
      if (lp[l + 1] - lp[l] > cores) c.fail(who + ":parts", "%s: level %d has %d parts for %d cores", who.c_str(), l, lp[l + 1] - lp[l], cores);
    c.add("obs.hdagg_levels", nl);
    Sched s; s.nlev = nl; s.lptr = lp; s.pptr = pp; s.nset = np;
    if (check_schedule(c, who, d, s, cores)) { check_packing(c, who, d, s, cost, false); check_windows(c, who, d, s, cost, cores); }
  }
}
VH_PROP(C13, pack_case);
}  // namespace
