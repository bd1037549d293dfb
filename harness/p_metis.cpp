// Orderings and partitions: METIS interface (C20) and the bundled AMD (C26).
#include "vh.h"
#include <memory>
#include "aggregation/metis_interface.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/FusionDemo.h"
#include "aggregation/amd.h"
extern "C" {
#include "aggregation/SuiteSparse_config_s.h"
}
#include <cstdarg>
using namespace vh;
typedef sym_lib::CSC CSC;
typedef sym_lib::CSR CSR;

// ---- allocation monitor: every malloc/free of the C sources goes through here (linker --wrap)
namespace vh { thread_local long mw_live = 0, mw_fail_at = -1, mw_calls = 0; thread_local bool mw_on = false; }
extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) {
  if (!mw_on) return __real_malloc(n);
  if (mw_fail_at >= 0 && mw_calls++ == mw_fail_at) return nullptr;
  void *p = __real_malloc(n); if (p) ++mw_live; return p;
}
void __wrap_free(void *p) { if (mw_on && p) --mw_live; __real_free(p); }
void *__wrap_realloc(void *p, size_t n) {
  if (!mw_on) return __real_realloc(p, n);
  if (mw_fail_at >= 0 && mw_calls++ == mw_fail_at) return nullptr;
  if (!p) ++mw_live; return __real_realloc(p, n);
}
}
long mw_fail_at_set(long k) { long o = mw_fail_at; mw_calls = 0; mw_fail_at = k; mw_on = k >= 0; return o; }

namespace {
std::string report;  // what the AMD reports print
int to_report(const char *f, ...) { va_list a; va_start(a, f); char b[2000]; int k = vsnprintf(b, sizeof b, f, a); va_end(a); report += b; return k; }
// the number printed behind a label, or "" if the label is not there
std::string behind(const std::string &label) { size_t at = report.find(label); if (at == std::string::npos) return ""; std::string s = report.substr(at + label.size()); s = s.substr(0, s.find('\n')); size_t b = s.find_first_not_of(" :"); return b == std::string::npos ? "" : s.substr(b); }
bool shows(const std::string &t, double want, double tol) { char *e; double x = strtod(t.c_str(), &e); return e != t.c_str() && std::fabs(x - want) <= tol * std::max(1.0, std::fabs(want)); }
void amd_reports(Ctx &c) {
  Rng &r = c.rng; auto old = SuiteSparse_config1.printf_func; SuiteSparse_config1.printf_func = to_report;
  for (int q = 0; q < 3; ++q) {
    double ctl[AMD_CONTROL] = {r.pick(std::vector<double>{10, 0, 0.5, 1, 2.25, -1, 1e6}), (double)r.range(0, 1)}; bool none = q == 2; double alpha = none ? 10 : ctl[AMD_DENSE]; bool agg = none || ctl[AMD_AGGRESSIVE] != 0;
    c.stage("amd_control"); report.clear(); amd_control(none ? nullptr : ctl); c.add("obs.reports");
    if (!shows(behind("dense row parameter"), alpha, 1e-5) || behind("aggressive absorption") != (agg ? "yes" : "no") || (report.find("no rows treated as dense") != std::string::npos) != (alpha < 0)) c.fail("amd_control:wrong", "dense %g, aggressive %d: %s", alpha, agg, report.c_str());
    double inf[AMD_INFO]; for (auto &x : inf) x = r.chance(0.2) ? -1 : r.chance(0.3) ? 0 : (double)r.range(1, 2000000000); inf[AMD_STATUS] = r.pick(std::vector<double>{AMD_OK, AMD_OUT_OF_MEMORY, AMD_INVALID, AMD_OK_BUT_JUMBLED}); inf[AMD_SYMMETRY] = r.chance(0.2) ? -1 : r.unit();
    c.stage("amd_info"); report.clear(); amd_info(nullptr); if (report.find("status") != std::string::npos) c.fail("amd_info:null", "a report of nothing"); report.clear(); amd_info(inf); std::string st = behind("status:");
    if (st != (inf[AMD_STATUS] == AMD_OK ? "OK" : inf[AMD_STATUS] == AMD_OUT_OF_MEMORY ? "out of memory" : inf[AMD_STATUS] == AMD_INVALID ? "invalid matrix" : "OK, but jumbled")) c.fail("amd_info:printed_status", "status %g is printed as %s", inf[AMD_STATUS], st.c_str());
    auto line = [&](const char *label, double v, double tol = 0) { std::string t = behind(label); if (v < 0 ? !t.empty() : !shows(t, v, tol)) c.fail("amd_info:printed", "%s is %.17g, printed as '%s'", label, v, t.c_str()); };
    double n = inf[AMD_N], l = inf[AMD_LNZ], dv = inf[AMD_NDIV], ldl = inf[AMD_NMULTSUBS_LDL], lu = inf[AMD_NMULTSUBS_LU];
    line("dimension of A:", n); line("number of nonzeros in A:", inf[AMD_NZ]); line("symmetry of A:", inf[AMD_SYMMETRY], 5.1e-5); line("nonzeros on diagonal:", inf[AMD_NZDIAG]); line("A+A' (excl. diagonal):", inf[AMD_NZ_A_PLUS_AT]); line("dense rows/columns of A+A':", inf[AMD_NDENSE]); line("memory used, in bytes:", inf[AMD_MEMORY]); line("memory compactions:", inf[AMD_NCMPA]);
    line("in L (excluding diagonal):", l); line("in L (including diagonal):", n >= 0 && l >= 0 ? n + l : -1); line("divide operations for LDL' or LU:", dv); line("operations for LDL':", ldl); line("multiply-subtract operations for LU:", lu); line("column of L (incl. diagonal):", inf[AMD_DMAX]);
    bool all = n >= 0 && dv >= 0 && ldl >= 0 && lu >= 0; auto sum = [&](double v) { return all ? v : -1; };
    line("sqrt counted as 1 flop:", sum(n + dv + 2 * ldl)); line("LDL' flop count for real A:", sum(dv + 2 * ldl)); line("LDL' flop count for complex A:", sum(9 * dv + 8 * ldl)); line("LU flop count for real A (with no pivoting):", sum(dv + 2 * lu)); line("LU flop count for complex A (with no pivoting):", sum(9 * dv + 8 * lu));
  }
  SuiteSparse_config1.printf_func = old;
}
Dag shuffled(Rng &r, const Dag &d) {
  std::vector<int> q(d.n); for (int k = 0; k < d.n; ++k) q[k] = k; r.shuffle(q);
  std::vector<std::pair<int, int>> e; for (int j = 0; j < d.n; ++j) for (int k = d.p[j] + 1; k < d.p[j + 1]; ++k) e.push_back({std::min(q[j], q[d.i[k]]), std::max(q[j], q[d.i[k]])});
  return dag_from_edges(d.n, e, d.kind + "+shuffled");
}
bool is_forest(const Dag &d) {
  std::vector<int> uf(d.n); for (int k = 0; k < d.n; ++k) uf[k] = k;
  std::function<int(int)> fd = [&](int v) { while (uf[v] != v) v = uf[v] = uf[uf[v]]; return v; };
  for (int j = 0; j < d.n; ++j) for (int k = d.p[j] + 1; k < d.p[j + 1]; ++k) { int a = fd(j), q = fd(d.i[k]); if (a == q) return false; uf[a] = q; }
  return true;
}
bool connected(const Dag &d) {
  std::vector<int> uf(d.n); for (int k = 0; k < d.n; ++k) uf[k] = k; int comp = d.n;
  std::function<int(int)> fd = [&](int v) { while (uf[v] != v) v = uf[v] = uf[uf[v]]; return v; };
  for (int j = 0; j < d.n; ++j) for (int k = d.p[j] + 1; k < d.p[j + 1]; ++k) { int a = fd(j), q = fd(d.i[k]); if (a != q) { uf[a] = q; --comp; } }
  return comp == 1;
}
// perm[k] = old row at new position k
Dag permuted(const Dag &d, const std::vector<int> &perm) {
  std::vector<int> ip(d.n); for (int k = 0; k < d.n; ++k) ip[perm[k]] = k;
  std::vector<std::pair<int, int>> e; for (int j = 0; j < d.n; ++j) for (int k = d.p[j] + 1; k < d.p[j + 1]; ++k) e.push_back({std::min(ip[j], ip[d.i[k]]), std::max(ip[j], ip[d.i[k]])});
  return dag_from_edges(d.n, e, "permuted");
}
bool is_perm(Ctx &c, const std::string &w, const std::vector<int> &p, int n) {
  c.outv(p);
  std::vector<int> seen(n, 0); bool ok = (int)p.size() == n;
  for (int k = 0; ok && k < n; ++k) if (p[k] < 0 || p[k] >= n || seen[p[k]]++) ok = false;
  if (!ok) c.fail(w + ":perm", "%s returns %s for %d rows", w.c_str(), vec2s(p).c_str(), n);
  return ok;
}
void check_fill(Ctx &c, const std::string &w, const Dag &d, const std::vector<int> &perm, long lim) {
  Dag f = cholesky_fill(permuted(d, perm));
  c.add("obs.fill_nnz", f.nnz());
  if (d.n < 20 || !is_forest(d)) return;
  c.add("obs.forests");
  if (c.verbose) fprintf(stderr, "fill %s n=%d nnz=%ld\n", w.c_str(), d.n, f.nnz());
  if (f.nnz() > lim * d.n) c.fail(w + ":fill", "%s: the reordered factor of a forest with %d nodes has %ld entries", w.c_str(), d.n, f.nnz());
}
// one matrix in one of the storage forms: -1 lower half, 1 upper half, 0 full
std::unique_ptr<CSC> store(const Dag &d, int st, bool pattern, Rng &r) {
  std::vector<std::vector<int>> col(d.n);
  for (int j = 0; j < d.n; ++j) for (int k = d.p[j]; k < d.p[j + 1]; ++k) {
    int i = d.i[k]; if (i == j) { col[j].push_back(j); continue; }
    if (st <= 0) col[j].push_back(i);
    if (st >= 0) col[i].push_back(j);
  }
  size_t nz = 0; for (auto &v : col) { std::sort(v.begin(), v.end()); nz += v.size(); }
  std::unique_ptr<CSC> A(new CSC((size_t)d.n, (size_t)d.n, nz, pattern, st));
  int at = 0; for (int j = 0; j < d.n; ++j) { for (int i : col[j]) { if (!pattern) A->x[at] = r.unit() + 0.5; A->i[at++] = i; } A->p[j + 1] = at; }
  return A;
}
struct Snap { std::vector<int> p, i; std::vector<double> x; size_t m, n, nnz; int st; bool pat;
  explicit Snap(const CSC &a) : p(a.p, a.p + a.n + 1), i(a.i, a.i + a.nnz), m(a.m), n(a.n), nnz(a.nnz), st(a.stype), pat(a.is_pattern) { if (a.x) x.assign(a.x, a.x + a.nnz); }
  bool same(const CSC &a) const { return m == a.m && n == a.n && nnz == a.nnz && st == a.stype && pat == a.is_pattern && std::equal(p.begin(), p.end(), a.p) && std::equal(i.begin(), i.end(), a.i) && (x.empty() || std::equal(x.begin(), x.end(), a.x)); } };

Dag gen_graph(Ctx &c) {
  Rng &r = c.rng; Dag d;
  if (!giant_next() && r.chance(0.2)) d = gen_dag_kind(r, r.pick(std::vector<int>{1, 3, 4, 5, 6, 7, 10, 16, 18}), r.range(60, c.thorough ? 900 : 400));
  else d = gen_dag(r, c.thorough ? 400 : 200);
  if (r.chance(0.5)) d = shuffled(r, d);
  return d;
}
void metis_case(Ctx &c) {
  Rng &r = c.rng; Dag d = gen_graph(c); int n = d.n;
  int k = r.chance(0.7) ? r.range(2, 8) : r.range(9, 20), co = r.chance(0.6) ? r.range(1, 4) : r.range(5, 30);
  bool pat = r.chance(0.3);
  mix_dag(c, d); c.mix(k); c.mix(co); c.mix(pat);
  c.note("%s parts=%d coarsen=%d pattern=%d", dag2s(d).c_str(), k, co, pat);
  c.nontrivial = d.edges() > 0;
  auto low = store(d, -1, pat, r), up = store(d, 1, pat, r), full = store(d, 0, pat, r);
  Snap sl(*low), su(*up), sf(*full);
  for (int w = 0; w < 3; ++w) {
    int *perm = nullptr; std::string who = w == 0 ? "metis_perm_lower" : w == 1 ? "metis_perm_upper" : "metis_perm_general"; c.stage(who);
    int ret = w == 0 ? sym_lib::metis_perm_symmetric(low.get(), perm) : w == 1 ? sym_lib::metis_perm_symmetric(up.get(), perm) : sym_lib::metis_perm_general(full.get(), perm);
    if (ret != 1 || !perm) { c.fail(who + ":status", "%s returned %d", who.c_str(), ret); continue; }
    std::vector<int> p(perm, perm + n); delete[] perm;
    c.add("obs.ordered_rows", n);
    if (is_perm(c, who, p, n)) check_fill(c, who, d, p, 4);
  }
  { int *perm = nullptr; c.stage("metis_perm_symmetric_general"); if (sym_lib::metis_perm_symmetric(full.get(), perm) != -1) c.fail("metis_perm_symmetric:general", "a general matrix was not rejected"); }
  auto range_ok = [&](const std::string &who, const std::vector<int> &part) {
    c.outv(part);
    for (int v = 0; v < (int)part.size(); ++v) if (part[v] < 0 || part[v] >= k) { c.fail(who + ":range", "%s puts row %d in part %d of %d", who.c_str(), v, part[v], k); return false; }
    std::set<int> s(part.begin(), part.end()); c.add("obs.parts_used", (long)s.size()); c.add("obs.partitioned_rows", (long)part.size());
    return true;
  };
  // on large connected sparse graphs the partition is also balanced and cuts few edges
  auto quality = [&](const std::string &who, const Dag &g, const std::vector<int> &part, bool coarse) {
    if (g.n < 40 * k || k < 2 || !connected(g)) return;
    std::vector<double> wt(k, 0); double tot = 0, mx = 0; long cut = 0;
    for (int v = 0; v < g.n; ++v) { double w = 1; wt[part[v]] += w; tot += w; }
    for (double x : wt) mx = std::max(mx, x);
    for (int j = 0; j < g.n; ++j) for (int q = g.p[j] + 1; q < g.p[j + 1]; ++q) cut += part[j] != part[g.i[q]];
    c.add("obs.quality_checked");
    if (c.verbose) fprintf(stderr, "quality %s kind=%s n=%d k=%d imb=%.3f cut=%ld of %ld\n", who.c_str(), g.kind.c_str(), g.n, k, mx * k / tot, cut, g.edges());
    if (g.kind == "chain" || (!coarse && g.kind == "chain+shuffled")) {
      c.add("obs.chains_partitioned");
      if (cut > 3 * k) c.fail(who + ":cut", "%s cuts %ld edges of a chain of %d nodes into %d parts", who.c_str(), cut, g.n, k);
      if (mx * k / tot > 1.6) c.fail(who + ":balance", "%s: heaviest of %d parts of a chain holds %.0f of %.0f nodes", who.c_str(), k, mx, tot);
    }
  };
  for (int w = 0; w < 3; ++w) {
    int *part = nullptr; std::string who = w == 0 ? "metis_partition_lower" : w == 1 ? "metis_partition_upper" : "metis_partition_general"; c.stage(who);
    if (w == 0) sym_lib::metis_partition_symmetric(low.get(), part, k); else if (w == 1) sym_lib::metis_partition_symmetric(up.get(), part, k); else sym_lib::metis_partition_general(full.get(), part, k);
    std::vector<int> p(part, part + n); delete[] part;
    if (range_ok(who, p)) { quality(who, d, p, false); if (w == 2 && *std::min_element(p.begin(), p.end()) != 0) c.fail(who + ":numbering", "part numbers do not start at zero"); }
  }
  for (int w = 0; w < 3; ++w) {
    int *part = nullptr; std::string who = w == 0 ? "metis_coarsened_lower" : w == 1 ? "metis_coarsened_upper" : "metis_coarsened_general"; c.stage(who);
    sym_lib::metis_partition_coarsened(w == 0 ? low.get() : w == 1 ? up.get() : full.get(), part, k, co);
    std::vector<int> p(part, part + n); delete[] part;
    if (!range_ok(who, p)) continue;
    for (int v = 0; v + 1 < n; ++v) if (v / co == (v + 1) / co && p[v] != p[v + 1]) { c.fail(who + ":group", "%s separates rows %d and %d coarsened together (%d)", who.c_str(), v, v + 1, co); break; }
    if (co <= 4) { std::vector<std::pair<int, int>> e; int cn = (n + co - 1) / co; for (int j = 0; j < n; ++j) for (int q = d.p[j]; q < d.p[j + 1]; ++q) if (d.i[q] / co != j / co) e.push_back({j / co, d.i[q] / co});
      Dag cd = dag_from_edges(cn, e, d.kind); std::vector<int> cp(cn); for (int v = 0; v < cn; ++v) cp[v] = p[v * co]; quality(who, cd, cp, true); }
  }
  // combined entry point: pattern matrices are stored as halves, valued ones in full
  {
    CSC *in = pat ? low.get() : full.get(); int *part = nullptr; c.stage("metis_partitioning");
    CSC *B = sym_lib::metis_partitioning(in, k, part);
    std::vector<int> p(part, part + n); delete[] part;
    range_ok("metis_partitioning", p);
    if (!B || (int)B->n != n || (int)B->m != n || B->nnz != full->nnz) c.fail("metis_partitioning:matrix", "returned matrix has %zu of %zu entries", B ? B->nnz : 0, full->nnz);
    else if (!pat) { Snap sb(*B); if (!(sb.p == sf.p && sb.i == sf.i && sb.x == sf.x)) c.fail("metis_partitioning:copy", "the returned matrix differs from the input"); }
    else {  // a full symmetric matrix, the input with rows renumbered: degree sequence must match
      std::vector<int> da(n), db(n); std::set<std::pair<int, int>> es; bool sym = true;
      for (int j = 0; j < n; ++j) { da[j] = full->p[j + 1] - full->p[j]; db[j] = B->p[j + 1] - B->p[j]; for (int q = B->p[j]; q < B->p[j + 1]; ++q) es.insert({j, B->i[q]}); }
      for (auto &e : es) sym = sym && es.count({e.second, e.first});
      std::sort(da.begin(), da.end()); std::sort(db.begin(), db.end());
      if (!sym || da != db || es.size() != full->nnz) c.fail("metis_partitioning:renumbered", "the returned pattern is not the input renumbered");
    }
    delete B;
  }
  // matrices derived for the fused kernels
  if (!pat) {
    CSR *l2 = nullptr, *bc = nullptr; CSC *B = nullptr; c.stage("generate_matrices_from_mtx");
    sym_lib::generate_matrices_from_mtx(low.get(), l2, B, bc);
    bool ok = l2 && B && bc && (int)l2->n == n && l2->nnz == low->nnz && (int)B->n == n && B->nnz == full->nnz && bc->nnz == full->nnz;
    if (!ok) c.fail("generate_matrices:shape", "derived matrices have %zu/%zu/%zu entries, want %zu/%zu/%zu", l2 ? l2->nnz : 0, B ? B->nnz : 0, bc ? bc->nnz : 0, low->nnz, full->nnz, full->nnz);
    else {
      std::map<std::pair<int, int>, double> eb, el, ec; std::multiset<double> va(low->x, low->x + low->nnz), vb(l2->x, l2->x + l2->nnz);
      for (int j = 0; j < n; ++j) { for (int q = B->p[j]; q < B->p[j + 1]; ++q) eb[{B->i[q], j}] = B->x[q]; for (int q = l2->p[j]; q < l2->p[j + 1]; ++q) { el[{j, l2->i[q]}] = l2->x[q]; if (l2->i[q] > j) c.fail("generate_matrices:lower", "entry (%d,%d) above the diagonal", j, l2->i[q]); } for (int q = bc->p[j]; q < bc->p[j + 1]; ++q) ec[{j, bc->i[q]}] = bc->x[q]; }
      if (va != vb) c.fail("generate_matrices:values", "the values are not a rearrangement of the input's");
      std::map<std::pair<int, int>, double> want; for (auto &e : el) { want[e.first] = e.second; want[{e.first.second, e.first.first}] = e.second; }
      if (want != eb || want != ec) c.fail("generate_matrices:full", "the full matrices are not the lower one made symmetric");
      c.add("obs.derived_entries", (long)eb.size());
    }
    delete l2; delete bc; delete B;
  }
  if (!sl.same(*low) || !su.same(*up) || !sf.same(*full)) c.fail("metis:input_changed", "an input matrix was modified");
}
VH_PROP(C20, metis_case);

// ------------------------------------------------------------------------ AMD
void amd_case(Ctx &c) {
  Rng &r = c.rng; Dag d;
  if (r.chance(0.1)) d = gen_dag_kind(r, r.pick(std::vector<int>{2, 3, 5, 6, 7, 10, 11, 12, 14, 16}), r.range(150, c.thorough ? 1500 : 600));
  else d = gen_dag(r, c.thorough ? 500 : 200);
  if (r.chance(0.5)) d = shuffled(r, d);
  int n = d.n; int form = r.range(0, 3); // 0 full, 1 lower, 2 upper, 3 random orientation per edge
  double pd = r.pick(std::vector<double>{0, 0.5, 1});
  std::vector<std::vector<int>> col(n);
  for (int j = 0; j < n; ++j) for (int k = d.p[j] + 1; k < d.p[j + 1]; ++k) {
    int i = d.i[k], o = form < 3 ? form : r.range(0, 2);
    if (o != 2) col[j].push_back(i);
    if (o != 1) col[i].push_back(j);
  }
  for (int j = 0; j < n; ++j) { if (r.chance(pd)) col[j].push_back(j); std::sort(col[j].begin(), col[j].end()); }
  int jumble = r.chance(0.35) ? r.range(1, 3) : 0;
  std::vector<int> p(1, 0), i;
  for (int j = 0; j < n; ++j) {
    auto v = col[j];
    if (jumble & 1 && !v.empty()) for (int t = r.range(0, 2); t--;) v.insert(v.begin() + r.range(0, (int)v.size()), v[r.range(0, (int)v.size() - 1)]);
    if (jumble & 2) r.shuffle(v);
    i.insert(i.end(), v.begin(), v.end()); p.push_back((int)i.size());
  }
  bool jumbled = false; for (int j = 0; j < n; ++j) for (int k = p[j] + 1; k < p[j + 1]; ++k) if (i[k] <= i[k - 1]) jumbled = true;
  int nz = (int)i.size();
  mix_dag(c, d); c.mix(form); c.mix(jumble); c.mixv(i);
  c.note("n=%d p=%s i=%s form=%d jumble=%d kind=%s", n, vec2s(p).c_str(), vec2s(i, 1500).c_str(), form, jumble, d.kind.c_str());
  c.nontrivial = d.edges() > 0;
  IArr P(p), I(i), Q(n); std::vector<double> ctl(AMD_CONTROL, -9), info(AMD_INFO, -7);
  c.stage("amd_valid");
  int st = amd_valid(n, n, P, I);
  if (st != (jumbled ? AMD_OK_BUT_JUMBLED : AMD_OK)) c.fail("amd_valid:status", "amd_valid says %d, jumbled=%d", st, jumbled);
  c.stage("amd_defaults"); amd_defaults(ctl.data());
  if (ctl[0] != 10.0 || ctl[1] != 1 || ctl[2] != 0) c.fail("amd_defaults:values", "defaults are %s", vec2s(ctl).c_str());
  bool useCtl = r.chance(0.7), useInfo = r.chance(0.8);
  if (useCtl) { ctl[AMD_DENSE] = r.pick(std::vector<double>{10, 10, 0, 0.5, 1, 2, -1, 1e6}); ctl[AMD_AGGRESSIVE] = r.chance(0.7); }
  std::vector<double> ctl0 = ctl;
  for (int k = 0; k < n; ++k) Q[k] = -77;
  c.note(" control=%s info=%d", useCtl ? vec2s(ctl).c_str() : "-", useInfo);
  c.stage("amd_order"); mw_live = 0; mw_calls = 0; mw_fail_at = -1; mw_on = true;
  int ret = amd_order(n, P, I, Q, useCtl ? ctl.data() : nullptr, useInfo ? info.data() : nullptr);
  mw_on = false;
  if (mw_live != 0) c.fail("amd_order:leak", "%ld blocks still held after ordering", mw_live);
  std::vector<int> q = Q.vec();
  c.out(ret); if (useInfo) c.outv(info);
  if (ret != (jumbled ? AMD_OK_BUT_JUMBLED : AMD_OK)) c.fail("amd_order:status", "returned %d for a %s matrix", ret, jumbled ? "jumbled" : "clean");
  if (P.vec() != p || I.vec() != i || ctl != ctl0) c.fail("amd_order:input_changed", "an input was modified");
  c.add("obs.ordered_rows", n); if (jumbled) c.add("obs.jumbled"); 
  if (is_perm(c, "amd_order", q, n)) {
    double alpha = useCtl ? ctl[AMD_DENSE] : 10.0;
    std::vector<int> deg(n, 0); for (int j = 0; j < n; ++j) for (int k = d.p[j] + 1; k < d.p[j + 1]; ++k) { deg[j]++; deg[d.i[k]]++; }
    int dense = alpha < 0 ? n - 2 : (int)std::min(2e9, alpha * std::sqrt((double)n)); dense = std::min(n, std::max(16, dense));
    int nd = 0; for (int j = 0; j < n; ++j) nd += deg[j] > dense;
    if (nd) c.add("obs.with_dense_rows");
    for (int k = n - nd; k < n; ++k) if (deg[q[k]] <= dense) { c.fail("amd_order:dense_last", "row %d (degree %d, dense above %d) is ordered among the last %d", q[k], deg[q[k]], dense, nd); break; }
    Dag f = cholesky_fill(permuted(d, q)); long lnz = f.nnz() - n;
    if (useInfo) {
      std::set<std::pair<int, int>> S; for (int j = 0; j < n; ++j) for (int k = p[j]; k < p[j + 1]; ++k) S.insert({i[k], j});
      long dg = 0, mt = 0, off = 0; for (auto &e : S) { if (e.first == e.second) ++dg; else { ++off; mt += S.count({e.second, e.first}); } }
      double sym = off ? (double)mt / off : 1;
      auto eq = [&](int at, double want, const char *nm) { if (info[at] != want) c.fail(std::string("amd_info:") + nm, "%s reported as %.17g, is %.17g", nm, info[at], want); };
      eq(AMD_STATUS, ret, "status"); eq(AMD_N, n, "n"); eq(AMD_NZ, (double)S.size(), "nz"); eq(AMD_NZDIAG, dg, "nzdiag"); eq(AMD_NZ_A_PLUS_AT, 2.0 * d.edges(), "nz_a_plus_at"); eq(AMD_NDENSE, nd, "ndense");
      if (std::fabs(info[AMD_SYMMETRY] - sym) > 1e-12) c.fail("amd_info:symmetry", "symmetry reported as %.17g, is %.17g", info[AMD_SYMMETRY], sym);
      if (c.verbose) fprintf(stderr, "lnz kind=%s n=%d info=%.0f real=%ld dmax=%.0f nd=%d\n", d.kind.c_str(), n, info[AMD_LNZ], lnz, info[AMD_DMAX], nd);
      if (info[AMD_LNZ] < lnz) c.fail("amd_info:lnz", "factor reported with at most %.0f entries below the diagonal, has %ld", info[AMD_LNZ], lnz);
      int dm = 0; for (int j = 0; j < n; ++j) dm = std::max(dm, f.p[j + 1] - f.p[j]);
      if (info[AMD_DMAX] < dm) c.fail("amd_info:dmax", "densest factor column reported as %.0f, is %d", info[AMD_DMAX], dm);
      double lu = 0, ldl = 0; for (int j = 0; j < n; ++j) { double k = f.p[j + 1] - f.p[j] - 1; lu += k * k; ldl += (k * k + k) / 2; }
      if (info[AMD_NDIV] < lnz || info[AMD_NMULTSUBS_LU] < lu || info[AMD_NMULTSUBS_LDL] < ldl) c.fail("amd_info:flops", "the factorization takes %ld divisions and %.0f or %.0f updates, at most %.0f, %.0f and %.0f are reported", lnz, lu, ldl, info[AMD_NDIV], info[AMD_NMULTSUBS_LU], info[AMD_NMULTSUBS_LDL]);
    }
    if (is_forest(d) && nd == 0) { c.add("obs.forests"); if (lnz != d.edges()) c.fail("amd_order:fill", "the ordering of a forest with %ld edges has %ld factor entries", d.edges(), lnz); }
  }
  // rejection
  c.stage("amd_reject");
  { double in2[AMD_INFO]; int Z[1] = {0};
    auto bad = [&](const char *nm, int rc) { c.add("obs.rejections"); if (rc != AMD_INVALID) c.fail(std::string("amd_reject:") + nm, "%s accepted with status %d", nm, rc); if (in2[AMD_STATUS] != AMD_INVALID) c.fail(std::string("amd_reject:info_") + nm, "info status %.0f", in2[AMD_STATUS]); };
    bad("no pointers", amd_order(n, nullptr, I, Q, nullptr, in2)); bad("no indices", amd_order(n, P, nullptr, Q, nullptr, in2)); bad("no output", amd_order(n, P, I, nullptr, nullptr, in2)); bad("negative size", amd_order(-1, P, I, Q, nullptr, in2));
    if (nz > 0) { int at = r.range(0, nz - 1); IArr B(i); B[at] = r.chance(0.5) ? -1 - r.range(0, 5) : n + r.range(0, 5); bad("index out of range", amd_order(n, P, B, Q, nullptr, in2)); }
    { IArr B(p); B[0] = nz > 0 ? 1 : -1; bad("pointer not zero based", amd_order(n, B, I, Q, nullptr, in2)); }
    { IArr B(p); B[n] = -1; bad("negative count", amd_order(n, B, I, Q, nullptr, in2)); }
    if (n >= 2 && nz >= 1) { int at = r.range(1, n - 1); IArr B(p); bool dec = false; if (p[at + 1] < nz) { B[at] = p[at + 1] + 1; dec = true; } else if (p[at - 1] > 0) { B[at] = p[at - 1] - 1; dec = true; } if (dec) bad("decreasing pointers", amd_order(n, B, I, Q, nullptr, in2)); }
    if (amd_order(0, Z, Z, Z, nullptr, nullptr) != AMD_OK) c.fail("amd_order:empty", "an empty matrix was not accepted");
    if (amd_valid(-1, n, P, I) != AMD_INVALID || amd_valid(n, -1, P, I) != AMD_INVALID) c.fail("amd_valid:negative", "a negative dimension was accepted");
  }
  // fault injection: every allocation fails once
  c.stage("amd_out_of_memory");
  for (int t = 0; t < 6; ++t) {
    mw_live = 0; mw_calls = 0; mw_fail_at = t; mw_on = true;
    int rc = amd_order(n, P, I, Q, nullptr, info.data());
    mw_on = false; bool hit = mw_calls > t;
    if (!hit) break;
    c.add("obs.injected_failures");
    if (rc != AMD_OUT_OF_MEMORY || info[AMD_STATUS] != AMD_OUT_OF_MEMORY) c.fail("amd_oom:status", "allocation %d failed, status %d", t, rc);
    if (mw_live != 0) c.fail("amd_oom:leak", "allocation %d failed, %ld blocks kept", t, mw_live);
  }
  mw_fail_at = -1;
  if (!c.shared && c.idx % 8 == 3) amd_reports(c);
}
VH_PROP(C26, amd_case);
}  // namespace
