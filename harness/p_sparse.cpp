// Sparse storage: conversions (C14), symmetric operations (C15), blocked form (C19), graph merging (C21).
#include "vh.h"
#include <memory>
#include "aggregation/BCSCMatrix.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/sparse_io.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/test_utils.h"
using namespace vh;
namespace sym_lib {
__attribute__((weak)) CSC *add(CSC *A, CSC *B, double alpha, double beta, bool sort);
__attribute__((weak)) CSC *permute_general(const CSC *A, const int *pinv, const int *q);
}

namespace {
typedef sym_lib::CSC CSC;
typedef sym_lib::CSR CSR;
typedef std::map<std::pair<int, int>, double> Ent;   // (col,row) -> value, explicit zeros included

CSC *to_csc(const Mat &a, bool pattern, int stype = 0) {
  CSC *A = new CSC((size_t)a.m, (size_t)a.n, a.i.size(), pattern, stype);
  if (a.n > 0) std::copy(a.p.begin(), a.p.end(), A->p);
  std::copy(a.i.begin(), a.i.end(), A->i);
  if (!pattern) std::copy(a.x.begin(), a.x.end(), A->x);
  return A;
}
Ent ents(const Mat &a, bool pattern) {
  Ent e;
  for (int j = 0; j < a.n; ++j) for (int k = a.p[j]; k < a.p[j + 1]; ++k) e[{j, a.i[k]}] = pattern ? 1 : a.x[k];
  return e;
}
Ent flip(const Ent &e) { Ent f; for (auto &q : e) f[{q.first.second, q.first.first}] = q.second; return f; }
// compressed arrays -> entries, checking structure; outer = number of compressed lines
bool read_back(Ctx &c, const std::string &w, int outer, int inner, size_t nnz, const int *p, const int *i, const double *x, bool sorted, Ent &out) {
  out.clear(); if (outer > 0 && p && p[outer] == (int)nnz) { c.outp(p, outer + 1); c.outp(i, nnz); if (x) c.outp(x, nnz); }
  if (outer > 0 && !p) { c.fail(w + ":ptr", "%s: no pointer array", w.c_str()); return false; }
  if (outer > 0 && (p[0] != 0 || p[outer] != (int)nnz)) { c.fail(w + ":ptr", "%s: pointers span [%d,%d), %zu nonzeros reported", w.c_str(), p[0], p[outer], nnz); return false; }
  for (int j = 0; j < outer; ++j) {
    if (p[j + 1] < p[j]) { c.fail(w + ":ptr", "%s: pointers decrease at %d", w.c_str(), j); return false; }
    for (int k = p[j]; k < p[j + 1]; ++k) {
      if (i[k] < 0 || i[k] >= inner) { c.fail(w + ":range", "%s: index %d in line %d of %d", w.c_str(), i[k], j, inner); return false; }
      if (sorted && k > p[j] && i[k] <= i[k - 1]) { c.fail(w + ":sorted", "%s: line %d is not ascending", w.c_str(), j); return false; }
      if (!out.insert({{j, i[k]}, x ? x[k] : 1}).second) { c.fail(w + ":duplicate", "%s: entry (%d,%d) stored twice", w.c_str(), i[k], j); return false; }
    }
  }
  return true;
}
bool same(Ctx &c, const std::string &w, const Ent &got, const Ent &want) {
  c.add("obs.entries", (long)want.size());
  if (got == want) return true;
  for (auto &q : want) {
    auto it = got.find(q.first);
    if (it == got.end()) { c.fail(w + ":lost", "%s: entry row %d col %d is missing", w.c_str(), q.first.second, q.first.first); return false; }
    if (it->second != q.second) { c.fail(w + ":value", "%s: entry row %d col %d is %.17g, want %.17g", w.c_str(), q.first.second, q.first.first, it->second, q.second); return false; }
  }
  for (auto &q : got) if (!want.count(q.first)) { c.fail(w + ":invented", "%s: entry row %d col %d does not exist", w.c_str(), q.first.second, q.first.first); return false; }
  return false;
}
void expect_csc(Ctx &c, const std::string &w, CSC *B, int m, int n, const Ent &want, bool pattern, bool sorted, int stype = 99) {
  if (!B) { c.fail(w + ":null", "%s returned nothing", w.c_str()); return; }
  if ((int)B->m != m || (int)B->n != n) { c.fail(w + ":dims", "%s: %zux%zu, want %dx%d", w.c_str(), B->m, B->n, m, n); return; }
  if (stype != 99 && B->stype != stype) c.fail(w + ":stype", "%s: storage type %d, want %d", w.c_str(), B->stype, stype);
  if (!want.empty() && B->is_pattern != pattern) { c.fail(w + ":pattern", "%s: pattern flag %d, want %d", w.c_str(), (int)B->is_pattern, (int)pattern); return; }
  Ent e;
  if (read_back(c, w, n, m, B->nnz, B->p, B->i, pattern ? nullptr : B->x, sorted, e)) same(c, w, e, want);
}
void expect_csr(Ctx &c, const std::string &w, CSR *B, int m, int n, const Ent &want, bool pattern, bool sorted, int stype = 99) {
  if (!B) { c.fail(w + ":null", "%s returned nothing", w.c_str()); return; }
  if ((int)B->m != m || (int)B->n != n) { c.fail(w + ":dims", "%s: %zux%zu, want %dx%d", w.c_str(), B->m, B->n, m, n); return; }
  if (stype != 99 && B->stype != stype) c.fail(w + ":stype", "%s: storage type %d, want %d", w.c_str(), B->stype, stype);
  if (!want.empty() && B->is_pattern != pattern) { c.fail(w + ":pattern", "%s: pattern flag %d, want %d", w.c_str(), (int)B->is_pattern, (int)pattern); return; }
  Ent e;
  if (read_back(c, w, m, n, B->nnz, B->p, B->i, pattern ? nullptr : B->x, sorted, e)) same(c, w, flip(e), want);
}
void shuffle_cols(Rng &r, Mat &a) {
  for (int j = 0; j < a.n; ++j) {
    std::vector<int> o; for (int k = a.p[j]; k < a.p[j + 1]; ++k) o.push_back(k);
    r.shuffle(o); std::vector<int> bi; std::vector<double> bx; for (int k : o) { bi.push_back(a.i[k]); bx.push_back(a.x[k]); }
    std::copy(bi.begin(), bi.end(), a.i.begin() + a.p[j]); std::copy(bx.begin(), bx.end(), a.x.begin() + a.p[j]);
  }
}
Mat rand_mat(Ctx &c, bool square, bool diag) {
  Rng &r = c.rng;
  int cap = r.chance(0.03) ? 160 : c.thorough ? 60 : 30;
  int m = r.chance(0.08) ? 1 : r.range(1, cap), n = square ? m : r.chance(0.08) ? 1 : r.range(1, cap);
  bool full = false;
  if (giant()) { m = r.range(65540, 70000); n = square ? m : r.chance(0.35) ? r.range(65540, 70000) : r.chance(0.5) ? r.range(1, 3) : r.range(1, 2000); full = n <= 3; if (!square && r.chance(0.5)) std::swap(m, n); }
  else if (!square && r.chance(0.004)) { m = r.range(1, 3); n = r.range(256, 1200); if (r.chance(0.5)) std::swap(m, n); }   // rows or columns of more than 255 entries
  static const double dens[] = {0.0, 0.02, 0.1, 0.3, 0.7, 1.0};
  double dd = full ? 1.0 : dens[r.range(0, 5)];
  Mat a = gen_mat(r, m, n, dd, diag && square);
  if (r.chance(0.3)) {            // empty some columns and rows
    Mat b; b.m = m; b.n = n; b.p.push_back(0); std::set<int> er, ec;
    for (int k = r.range(1, 3); k > 0; --k) { er.insert(r.range(0, m - 1)); ec.insert(r.range(0, n - 1)); }
    for (int j = 0; j < n; ++j) {
      for (int k = a.p[j]; k < a.p[j + 1]; ++k) if ((diag && a.i[k] == j) || (!er.count(a.i[k]) && !ec.count(j))) { b.i.push_back(a.i[k]); b.x.push_back(a.x[k]); }
      b.p.push_back((int)b.i.size());
    }
    a = b;
  }
  for (auto &v : a.x) if (r.chance(0.05)) v = 0.0;   // explicit zeros
  return a;
}
void mix_mat(Ctx &c, const Mat &a) { c.mix(a.m); c.mix(a.n); c.mixv(a.p); c.mixv(a.i); for (double v : a.x) { uint64_t b; memcpy(&b, &v, 8); c.mix(b); } }

void conv_case(Ctx &c) {
  Rng &r = c.rng;
  Mat a = rand_mat(c, r.chance(0.3), false);
  bool pat = r.chance(0.25), uns = r.chance(0.3);
  if (uns) shuffle_cols(r, a);
  int st = a.m == a.n ? r.range(-1, 1) : 0;
  mix_mat(c, a); c.mix(pat); c.note("%s pattern=%d stype=%d", mat2s(a).c_str(), (int)pat, st);
  c.nontrivial = !a.i.empty();
  c.add(a.m == a.n ? "in.square" : "in.rectangular"); if (pat) c.add("in.pattern"); if (uns) c.add("in.unsorted");
  Ent E = ents(a, pat);
  std::unique_ptr<CSC> A(to_csc(a, pat, st));
  int nnz = (int)a.i.size(), m = a.m, n = a.n;
  {
    c.stage("csc_to_csr"); CSR *B = sym_lib::csc_to_csr(A.get());
    expect_csr(c, "csc_to_csr", B, m, n, E, pat, true, st);
    if (B && c.viol.empty()) {
      c.stage("csr_to_csc"); CSC *C = sym_lib::csr_to_csc(B);
      expect_csc(c, "csr_to_csc", C, m, n, E, pat, true, st);
      delete C;
    }
    delete B;
  }
  {
    DArr x(a.x); IArr p(a.p), i(a.i); int *rp = 0, *ci = 0; double *v = 0; Ent e;
    c.stage("csc_to_csr_arrays"); sym_lib::csc_to_csr(m, n, p, i, pat ? nullptr : (double *)x, rp, ci, v);
    if (read_back(c, "csc_to_csr_arrays", m, n, nnz, rp, ci, pat ? nullptr : v, true, e)) same(c, "csc_to_csr_arrays", flip(e), E);
    if (c.viol.empty()) {
      int *cp = 0, *ri = 0; double *w = 0;
      c.stage("csr_to_csc_arrays"); sym_lib::csr_to_csc(m, n, ci, rp, v, cp, ri, w);
      if (read_back(c, "csr_to_csc_arrays", n, m, nnz, cp, ri, pat ? nullptr : w, true, e)) same(c, "csr_to_csc_arrays", e, E);
      delete[] cp; delete[] ri; delete[] w;
    }
    delete[] rp; delete[] ci; delete[] v;
    if (p.vec() != a.p || i.vec() != a.i || x.vec() != a.x) c.fail("convert:input_changed", "a conversion modified its input");
  }
  {
    c.stage("transpose_general"); CSC *T = sym_lib::transpose_general(A.get());
    expect_csc(c, "transpose_general", T, n, m, flip(E), pat, true);
    if (T && c.viol.empty()) { CSC *U = sym_lib::transpose_general(T); expect_csc(c, "transpose_twice", U, m, n, E, pat, true); delete U; }
    delete T;
  }
  {
    c.stage("copy_sparse"); CSC *C = sym_lib::copy_sparse(A.get());
    expect_csc(c, "copy_sparse", C, m, n, E, pat, !uns, st);
    if (C && c.viol.empty()) {
      if (nnz && (!std::equal(C->i, C->i + nnz, A->i))) c.fail("copy_sparse:order", "stored order changed");
      if (nnz && C->i == A->i) c.fail("copy_sparse:shared", "the copy shares its arrays with the source");
    }
    delete C;
  }
  {
    // one-based copy
    c.stage("convert_to_one_based"); CSC *O = sym_lib::convert_to_one_based(A.get());
    if ((int)O->m != m || (int)O->n != n || (int)O->nnz != nnz) c.fail("convert_to_one_based:dims", "%zux%zu/%zu", O->m, O->n, O->nnz);
    else if (!O->is_pattern != !pat) c.fail("convert_to_one_based:pattern", "kind changed");
    else {
      for (int k = 0; k <= n; ++k) if (O->p[k + 1] != a.p[k]) { c.fail("convert_to_one_based:ptr", "pointer of column %d is %d, want %d", k + 1, O->p[k + 1], a.p[k]); break; }
      for (int k = 0; k < nnz; ++k) if (O->i[k] != a.i[k] + 1 || (!pat && O->x[k] != a.x[k])) { c.fail("convert_to_one_based:value", "entry %d is (%d,%g), want (%d,%g)", k, O->i[k], pat ? 0.0 : O->x[k], a.i[k] + 1, pat ? 0.0 : a.x[k]); break; }
    }
    if (O->i) delete[] O->i;
    if (O->x) delete[] O->x;
    delete[] O->p; O->pre_alloc = true; delete O;
  }
  {
    CSC B((size_t)m, (size_t)n, (size_t)nnz, pat); c.stage("copy_from_to_csc"); sym_lib::copy_from_to(A.get(), &B);
    expect_csc(c, "copy_from_to_csc", &B, m, n, E, pat, !uns);
    CSR S((size_t)m, (size_t)n, (size_t)nnz, pat), S2((size_t)m, (size_t)n, (size_t)nnz, pat);
    std::vector<int> rp(m + 1, 0); for (int v : a.i) rp[v + 1]++; for (int k = 0; k < m; ++k) rp[k + 1] += rp[k];
    std::copy(rp.begin(), rp.end(), S.p);
    for (int j = 0; j < n; ++j) for (int k = a.p[j]; k < a.p[j + 1]; ++k) { int q = rp[a.i[k]]++; S.i[q] = j; if (!pat) S.x[q] = a.x[k]; }
    c.stage("copy_from_to_csr"); sym_lib::copy_from_to(&S, &S2);
    expect_csr(c, "copy_from_to_csr", &S2, m, n, E, pat, true);
  }
  if (!pat && (double)m * n < 3e7) {
    // dense
    CSC *G = to_csc(a, false, 0); DArr D((size_t)m * n); c.stage("sparse2dense"); sym_lib::sparse2dense(G, D);
    std::vector<double> ref = dense_of(a);
    c.outv(D.vec());
    if (D.vec() != ref) c.fail("sparse2dense:value", "dense form differs");
    std::vector<std::vector<double>> rows(m, std::vector<double>(n)); std::vector<double *> pr(m);
    Ent nz; for (int i = 0; i < m; ++i) { pr[i] = rows[i].data(); for (int j = 0; j < n; ++j) { rows[i][j] = ref[(size_t)j * m + i]; if (rows[i][j] != 0) nz[{j, i}] = rows[i][j]; } }
    c.stage("dense_to_csc"); CSC *F = sym_lib::dense_to_csc(m, n, pr.data());
    expect_csc(c, "dense_to_csc", F, m, n, nz, false, true);
    delete F; delete G;
  }
  {  // row and column permutation
    std::vector<int> q(n), pi(m); for (int k = 0; k < n; ++k) q[k] = k; for (int k = 0; k < m; ++k) pi[k] = k;
    r.shuffle(q); r.shuffle(pi); bool uq = r.chance(0.8), up = r.chance(0.8);
    std::vector<int> qi(n); for (int k = 0; k < n; ++k) qi[q[k]] = k;
    Ent W; for (auto &e : E) W[{uq ? qi[e.first.first] : e.first.first, up ? pi[e.first.second] : e.first.second}] = e.second;
    IArr Q(q), P(pi); c.stage("permute_general"); if (&sym_lib::permute_general) { CSC *C = sym_lib::permute_general(A.get(), up ? (int *)P : nullptr, uq ? (int *)Q : nullptr);
    expect_csc(c, "permute_general", C, m, n, W, pat, false);
    delete C; }
    IArr inv(n), inv2(n), arr(n), ws(n); for (int k = 0; k < n; ++k) arr[k] = 1000 + k;
    c.stage("permutations"); sym_lib::inv_perm(n, Q, inv); sym_lib::compute_inv_perm(n, Q, inv2); sym_lib::reorder_array(n, arr, Q, ws); c.outp((int *)inv, n); c.outp((int *)inv2, n); c.outp((int *)arr, n);
    for (int k = 0; k < n; ++k) if (inv[k] != qi[k] || inv2[k] != qi[k] || arr[k] != 1000 + q[k]) { c.fail("permutations:value", "entry %d", k); break; }
  }
  {
    c.stage("column_counts"); DArr cc(n); sym_lib::compute_nnz_per_col(A.get(), cc); int e = 0;
    for (int j = 0; j < n; ++j) { int w = a.p[j + 1] - a.p[j]; e += !w; if (cc[j] != w) { c.fail("column_counts:value", "column %d: %g want %d", j, cc[j], w); break; } }
    if (sym_lib::number_empty_col(A.get()) != e) c.fail("column_counts:empty", "%d empty columns reported, want %d", sym_lib::number_empty_col(A.get()), e);
  }
  if (a.m == a.n) {
    Mat b = gen_mat(r, n, n, 0.2, true); if (r.chance(0.5)) shuffle_cols(r, b);
    IArr p(b.p), i(b.i); c.stage("extract_diagonals"); int *dg = sym_lib::extract_diagonals(n, p, i); bool first = true;
    for (int j = 0; j < n; ++j) { if (dg[j] < b.p[j] || dg[j] >= b.p[j + 1] || b.i[dg[j]] != j) { c.fail("extract_diagonals:position", "column %d", j); break; } if (b.i[b.p[j]] != j) first = false; }
    delete[] dg;
    CSC *B = to_csc(b, false); if (sym_lib::verify_csc_diagonal(B) != first) c.fail("verify_csc_diagonal:answer", "said %d want %d", (int)!first, (int)first); delete B;
    double v = r.range(-9, 9); c.stage("diagonal"); CSC *Dg = sym_lib::diagonal(n, v); Ent de; for (int k = 0; k < n; ++k) de[{k, k}] = v; expect_csc(c, "diagonal", Dg, n, n, de, false, true); delete Dg;
    // forest to CSC of children
    std::vector<int> par(n, -1); for (int k = 0; k < n - 1; ++k) if (r.chance(0.85)) par[k] = r.range(k + 1, n - 1);
    IArr T(par), cp(n + 1), cn(n), nc(n); for (int k = 0; k < n; ++k) nc[k] = 0;
    c.stage("populate_children"); sym_lib::populate_children(n, T, cp, cn, nc);
    std::vector<std::vector<int>> ch(n); for (int k = 0; k < n; ++k) if (par[k] >= 0) ch[par[k]].push_back(k);
    for (int k = 0; k < n; ++k) if (nc[k] != (int)ch[k].size() || cp[k + 1] - cp[k] != nc[k] || cp[0] != 0 || !std::equal(ch[k].begin(), ch[k].end(), (int *)cn + cp[k])) { c.fail("populate_children:value", "children of %d are wrong", k); break; }
    c.stage("tree_to_csc"); CSC *TC = sym_lib::tree_to_csc(n, T);
    for (int k = 0; k < n; ++k) if (TC->p[k + 1] - TC->p[k] != (int)ch[k].size() || !std::equal(ch[k].begin(), ch[k].end(), TC->i + TC->p[k])) { c.fail("tree_to_csc:value", "children of %d are wrong", k); break; }
    delete[] TC->p; delete[] TC->i; delete TC;
  }
  {  // comparison helpers see any single difference
    if (!pat && nnz) {
      CSC *B = to_csc(a, false, st); c.stage("is_equal");
      if (!sym_lib::is_equal(A.get(), B, 0)) c.fail("is_equal:false_negative", "identical matrices reported different");
      int k = r.range(0, nnz - 1); B->x[k] += 1; if (sym_lib::is_equal(A.get(), B, 0.5)) c.fail("is_equal:value", "a changed value was not noticed"); B->x[k] -= 1;
      B->i[k] = m > 1 ? (B->i[k] + 1) % m : 1; if (sym_lib::is_equal(A.get(), B, 0.5)) c.fail("is_equal:index", "a changed index was not noticed");
      delete B;
    }
  }
  // the source is bit-identical afterwards
  if (!std::equal(a.p.begin(), a.p.end(), A->p) || !std::equal(a.i.begin(), a.i.end(), A->i) || (!pat && memcmp(a.x.data(), A->x, nnz * 8)) || A->stype != st) c.fail("convert:input_changed", "a conversion modified its input");
}
VH_PROP(C14, conv_case);

// --------------------------------------------------------------------------- C15
Mat half_of(const Ent &full, int n, bool lower) {
  Mat a; a.m = a.n = n; a.p.assign(1, 0);
  std::vector<std::vector<std::pair<int, double>>> col(n);
  for (auto &e : full) { int j = e.first.first, i = e.first.second; if (lower ? i >= j : i <= j) col[j].push_back({i, e.second}); }
  for (int j = 0; j < n; ++j) { for (auto &q : col[j]) { a.i.push_back(q.first); a.x.push_back(q.second); } a.p.push_back((int)a.i.size()); }
  return a;
}
void sym_case(Ctx &c) {
  Rng &r = c.rng;
  Mat g = rand_mat(c, true, r.chance(0.6)); int n = g.n;
  bool pat = r.chance(0.2);
  if (pat) std::fill(g.x.begin(), g.x.end(), 1.0);
  // symmetric matrix from the lower triangle of g
  Ent F; for (auto &e : ents(g, false)) if (e.first.second >= e.first.first) { F[e.first] = e.second; F[{e.first.second, e.first.first}] = e.second; }
  mix_mat(c, g); c.mix(pat); c.note("%s pattern=%d", mat2s(g).c_str(), (int)pat); c.nontrivial = F.size() > (size_t)n;
  if (pat) c.add("in.pattern");
  auto halfE = [&](const Ent &f, bool lower) { Ent e; for (auto &q : f) if (lower ? q.first.second >= q.first.first : q.first.second <= q.first.first) e.insert(q); return e; };
  for (int lw = 0; lw < 2; ++lw) {
    bool lower = lw == 0; int st = lower ? -1 : 1;
    Mat H = half_of(F, n, lower); bool uns = r.chance(0.3); if (uns) shuffle_cols(r, H);
    std::unique_ptr<CSC> A(to_csc(H, pat, st));
    std::string nm = lower ? "lower" : "upper";
    {
      c.stage("make_full_" + nm); CSC *B = sym_lib::make_full(A.get());
      expect_csc(c, "make_full_" + nm, B, n, n, F, pat, false);
      if (B && c.viol.empty()) for (int h = 0; h < 2; ++h) {
        c.stage("make_half"); CSC *Hf = sym_lib::make_half(n, B->p, B->i, pat ? nullptr : B->x, h == 0);
        expect_csc(c, h ? "make_half_upper" : "make_half_lower", Hf, n, n, halfE(F, h == 0), pat, false, h == 0 ? -1 : 1);
        delete Hf;
      }
      delete B;
    }
    {
      c.stage("transpose_symmetric_" + nm); CSC *T = sym_lib::transpose_symmetric(A.get(), nullptr);
      expect_csc(c, "transpose_symmetric_" + nm, T, n, n, halfE(F, !lower), pat, true, -st);
      if (T && c.viol.empty()) { CSC *U = sym_lib::transpose_symmetric(T, nullptr); expect_csc(c, "transpose_twice", U, n, n, halfE(F, lower), pat, true, st); delete U; }
      delete T;
    }
    std::vector<int> pm(n); for (int k = 0; k < n; ++k) pm[k] = k; if (!r.chance(0.1)) r.shuffle(pm);
    std::vector<int> inv(n); for (int k = 0; k < n; ++k) inv[pm[k]] = k;
    Ent PF; for (auto &e : F) PF[{inv[e.first.first], inv[e.first.second]}] = e.second;
    {
      IArr P(pm); c.stage("permute_symmetric_" + nm); CSC *T = sym_lib::transpose_symmetric(A.get(), P);
      expect_csc(c, "permute_symmetric_" + nm, T, n, n, halfE(PF, !lower), pat, false, -st);
      if (T && c.viol.empty()) {
        CSC *U = sym_lib::transpose_symmetric(T, nullptr); expect_csc(c, "permute_symmetric_back", U, n, n, halfE(PF, lower), pat, true, st); delete U;
      }
      delete T;
      if (P.vec() != pm) c.fail("permute_symmetric:perm_changed", "the permutation was modified");
      // not a permutation: refused
      if (n > 1) {
        int k = r.range(0, n - 1), o = P[k];
        switch (r.range(0, 2)) { case 0: P[k] = n; break; case 1: P[k] = -1; break; default: P[k] = P[(k + 1) % n]; }
        c.stage("permute_symmetric_invalid"); CSC *V = sym_lib::transpose_symmetric(A.get(), P);
        if (V) { c.fail("permute_symmetric:accepted", "entry %d of the permutation is %d (was %d), accepted", k, P[k], o); delete V; } else c.add("obs.rejected");
      }
    }
    if (!pat && n < 5000) {
      DArr D((size_t)n * n); c.stage("sparse2dense_symmetric"); sym_lib::sparse2dense(A.get(), D);
      for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) { auto it = F.find({j, i}); double w = it == F.end() ? 0 : it->second; if (D[(size_t)j * n + i] != w) { c.fail("sparse2dense_symmetric:value", "entry %d,%d is %g want %g", i, j, D[(size_t)j * n + i], w); i = n; j = n; } }
    }
    for (int h = 0; h < 2; ++h) {   // already symmetric storage
      c.stage("make_symmetric_half"); CSC *S = sym_lib::make_symmetric(A.get(), h == 0);
      expect_csc(c, std::string("make_symmetric_") + nm + (h ? "_to_upper" : "_to_lower"), S, n, n, halfE(F, h == 0), pat, false, h == 0 ? -1 : 1);
      if (S != A.get()) delete S;
    }
    if (!std::equal(H.p.begin(), H.p.end(), A->p) || !std::equal(H.i.begin(), H.i.end(), A->i) || (!pat && memcmp(H.x.data(), A->x, H.x.size() * 8)) || A->stype != st) c.fail("symmetric:input_changed", "a symmetric operation modified its input");
  }
  {  // general matrix -> (A+A^T)/2 and halves of a general matrix
    Mat q = g; bool uns = r.chance(0.3); if (uns) shuffle_cols(r, q);
    std::unique_ptr<CSC> A(to_csc(q, pat, 0)); Ent E = ents(q, pat), S;
    for (auto &e : E) { S[e.first] += pat ? 0 : 0.5 * e.second; S[{e.first.second, e.first.first}] += pat ? 0 : 0.5 * e.second; }
    if (pat) for (auto &e : S) e.second = 1;
    for (int h = 0; h < 2; ++h) {
      c.stage("make_symmetric_general"); CSC *B = sym_lib::make_symmetric(A.get(), h == 0);
      expect_csc(c, h ? "make_symmetric_upper" : "make_symmetric_lower", B, n, n, halfE(S, h == 0), pat, true, h == 0 ? -1 : 1);
      delete B;
      c.stage("make_half_general"); CSC *H = sym_lib::make_half(n, A->p, A->i, pat ? nullptr : A->x, h == 0);
      expect_csc(c, h ? "make_half_general_upper" : "make_half_general_lower", H, n, n, halfE(E, h == 0), pat, !uns, h == 0 ? -1 : 1);
      delete H;
    }
    Mat b = gen_mat(r, n, n, 0.2, false); std::unique_ptr<CSC> B(to_csc(b, pat, 0));
    double al = r.range(-4, 4), be = r.range(-4, 4); Ent W; for (auto &e : E) W[e.first] += al * e.second; for (auto &e : ents(b, pat)) W[e.first] += be * e.second;
    if (pat) for (auto &e : W) e.second = 1;
    if (&sym_lib::add) {
    c.stage("add"); CSC *C = sym_lib::add(A.get(), B.get(), al, be, true);
    expect_csc(c, "add", C, n, n, W, pat, true, 0); delete C;
    B->stype = 1; if (sym_lib::add(A.get(), B.get(), al, be, true)) c.fail("add:mixed", "matrices of different storage type were added"); }
    c.stage("make_full_general"); if (sym_lib::make_full(A.get())) c.fail("make_full:general", "a matrix in general storage was expanded");
  }
}
VH_PROP(C15, sym_case);

// --------------------------------------------------------------------------- C19
void bcsc_case(Ctx &c) {
  Rng &r = c.rng;
  bool big = giant_next(); Dag d = gen_dag(r, c.thorough ? 300 : 120);
  if (r.chance(0.5) && !big) d = cholesky_fill(d);
  Mat a = mat_from_dag(r, d); int n = a.n;
  for (auto &v : a.x) if (r.chance(0.03)) v = 0;
  std::vector<int> sup; bool given = r.chance(0.5);
  if (given) { sup.push_back(0); double q = big ? 0.05 + 0.95 * r.unit() : r.unit(); for (int j = 1; j < n; ++j) if (r.chance(q)) sup.push_back(j); sup.push_back(n); }
  mix_dag(c, d); c.mix(given); c.mixv(sup); c.note("%s supernodes=%s", mat2s(a).c_str(), given ? vec2s(sup).c_str() : "detected");
  c.nontrivial = d.edges() > 0; c.add(given ? "in.given" : "in.detected");
  std::unique_ptr<CSC> A(to_csc(a, false, -1));
  std::set<std::pair<int, int>> st; for (int j = 0; j < n; ++j) for (int k = a.p[j]; k < a.p[j + 1]; ++k) st.insert({j, a.i[k]});
  auto nested = [&](int j) {   // column j+1 has exactly the structure of column j without its diagonal
    return a.p[j + 1] - a.p[j] - 1 == a.p[j + 2] - a.p[j + 1] && std::equal(a.i.begin() + a.p[j + 1], a.i.begin() + a.p[j + 2], a.i.begin() + a.p[j] + 1);
  };
  c.stage("BCSCMatrix");
  std::unique_ptr<IArr> sp(given ? new IArr(sup) : nullptr);
  std::unique_ptr<sym_lib::BCSCMatrix> M(given ? new sym_lib::BCSCMatrix(A.get(), (int)sup.size() - 1, *sp) : new sym_lib::BCSCMatrix(A.get()));
  sym_lib::BCSC *B = M->getBCSC();
  int nb = (int)B->nodes; std::vector<int> S;
  if (nb < 1 || nb > n) { c.fail("bcsc:nodes", "%d supernodes for %d columns", nb, n); return; }
  S.assign(B->supernodes, B->supernodes + nb + 1); c.outv(S); c.out(B->nnz); c.outp(B->p, nb + 1); c.outp(B->nrows, nb); if (B->p[nb] == (int)B->nnz) { c.outp(B->i, B->nnz); c.outp(B->x, B->nnz); }
  bool ok = S[0] == 0 && S[nb] == n; for (int k = 0; k < nb; ++k) if (S[k + 1] <= S[k]) ok = false;
  if (!ok) { c.fail("bcsc:partition", "supernodes %s do not partition %d columns", vec2s(S).c_str(), n); return; }
  if (given && S != sup) { c.fail("bcsc:given", "supplied supernodes were not used"); return; }
  std::vector<int> c2s(n); for (int k = 0; k < nb; ++k) for (int j = S[k]; j < S[k + 1]; ++j) c2s[j] = k;
  if (!given) for (int j = 0; j + 1 < n; ++j) {
    bool in = c2s[j] == c2s[j + 1];
    // the comparison is against the first column of the block, nested columns chain
    if (in && !nested(j)) { c.fail("bcsc:detected", "columns %d,%d share a supernode but not their structure", j, j + 1); break; }
    if (!in && nested(j)) { c.fail("bcsc:maximal", "columns %d,%d have nested structure but are split", j, j + 1); break; }
  }
  if ((int)B->m != n || (int)B->n != n || B->p[0] != 0) { c.fail("bcsc:dims", "wrong dimensions"); return; }
  size_t tot = 0; std::set<std::pair<int, int>> blocks; long zeros = 0;
  for (int k = 0; k < nb; ++k) {
    std::set<int> rows; int w = S[k + 1] - S[k];
    for (int j = S[k]; j < S[k + 1]; ++j) for (int t = a.p[j]; t < a.p[j + 1]; ++t) { rows.insert(a.i[t]); blocks.insert({k, c2s[a.i[t]]}); }
    std::vector<int> rv(rows.begin(), rows.end());
    if (B->nrows[k] != (int)rv.size() || B->p[k + 1] - B->p[k] != w * (int)rv.size() || B->p[k] != (int)tot) { c.fail("bcsc:layout", "supernode %d: %d rows, pointers %d..%d; want %zu rows of width %d", k, B->nrows[k], B->p[k], B->p[k + 1], rv.size(), w); return; }
    for (int j = 0; j < w; ++j) {
      int col = S[k] + j; std::map<int, double> cv; for (int t = a.p[col]; t < a.p[col + 1]; ++t) cv[a.i[t]] = a.x[t];
      for (size_t t = 0; t < rv.size(); ++t, ++tot) {
        if (B->i[tot] != rv[t]) { c.fail("bcsc:rows", "supernode %d column %d: row %d stored where %d belongs", k, col, B->i[tot], rv[t]); return; }
        auto it = cv.find(rv[t]); double v = it == cv.end() ? 0.0 : it->second; zeros += it == cv.end();
        if (B->x[tot] != v) { c.fail("bcsc:value", "row %d column %d stored as %g, want %g", rv[t], col, B->x[tot], v); return; }
      }
    }
  }
  if (B->nnz != tot) c.fail("bcsc:nnz", "%zu stored entries reported, %zu present", B->nnz, tot);
  c.add("obs.blocks", nb); c.add("obs.entries", (long)tot); c.add("obs.padding_zeros", zeros); c.add("obs.wide_blocks", nb < n);
  c.stage("compressed_BCSC_to_CSC"); CSC *G = M->compressed_BCSC_to_CSC();
  Ent e, want; for (auto &q : blocks) want[q] = 1;
  if ((int)G->m != nb || (int)G->n != nb) c.fail("compressed:dims", "%zux%zu for %d blocks", G->m, G->n, nb);
  else if (read_back(c, "compressed", nb, nb, G->nnz, G->p, G->i, nullptr, true, e)) same(c, "compressed", e, want);
  delete G;
  {  // detection with a width limit, and on upper triangular matrices, through the public entry
    sym_lib::BCSCMatrix M2(A.get()); int lim = r.range(1, 4); delete[] M2.getBCSC()->supernodes; M2.getBCSC()->supernodes = nullptr;
    c.stage("supernodes_limit"); int k2 = M2.supernodes(A.get(), lim, true); int *s2 = M2.getBCSC()->supernodes;
    if (k2 < 1 || k2 > n || s2[0] != 0 || s2[k2] != n) c.fail("supernodes_limit:partition", "bad partition");
    else for (int k = 0; k < k2; ++k) {
      if (s2[k + 1] <= s2[k] || s2[k + 1] - s2[k] > lim + 1) { c.fail("supernodes_limit:width", "block %d..%d with limit %d", s2[k], s2[k + 1], lim); break; }
      for (int j = s2[k]; j + 1 < s2[k + 1]; ++j) if (!nested(j)) { c.fail("supernodes_limit:detected", "columns %d,%d share a supernode but not their structure", j, j + 1); k = k2; break; }
    }
    // mirror image: rows and columns reversed gives an upper triangular matrix
    Mat u; u.m = u.n = n; u.p.assign(1, 0);
    for (int j = n - 1; j >= 0; --j) { for (int t = a.p[j + 1] - 1; t >= a.p[j]; --t) { u.i.push_back(n - 1 - a.i[t]); u.x.push_back(a.x[t]); } u.p.push_back((int)u.i.size()); }
    std::unique_ptr<CSC> U(to_csc(u, false, 1)); delete[] s2; M2.getBCSC()->supernodes = nullptr;
    c.stage("supernodes_upper"); int k3 = M2.supernodes(U.get(), lim, false); int *s3 = M2.getBCSC()->supernodes;
    if (k3 != k2) c.fail("supernodes_upper:count", "%d supernodes, %d in the mirror image", k3, k2);
    else if (s3[0] != n - 1 || s3[k3] != -1) c.fail("supernodes_upper:partition", "bad partition");
    else for (int k = 0; k < k3; ++k) if (s3[k + 1] >= s3[k] || s3[k] - s3[k + 1] > lim + 1) { c.fail("supernodes_upper:width", "block %d..%d", s3[k], s3[k + 1]); break; }
  }
  if (!std::equal(a.p.begin(), a.p.end(), A->p) || !std::equal(a.i.begin(), a.i.end(), A->i) || memcmp(a.x.data(), A->x, a.x.size() * 8)) c.fail("bcsc:input_changed", "the matrix was modified");
}
VH_PROP(C19, bcsc_case);

// --------------------------------------------------------------------------- C21
void merge_case(Ctx &c) {
  Rng &r = c.rng;
  int ng = r.chance(0.15) ? 1 : r.range(2, giant_next() ? 3 : 5);
  Dag first = gen_dag(r, c.thorough ? 120 : 50); int n = first.n;
  std::vector<Dag> g(1, first); while ((int)g.size() < ng) { if (r.chance(0.3)) g.push_back(g[0]); else { Dag q = gen_dag_kind(r, r.range(0, N_DAG_KINDS - 1), n); if (q.n == n) g.push_back(q); else g.push_back(first); } }
  std::vector<Mat> dep(ng - 1); for (auto &q : dep) q = gen_mat(r, n, n, r.pick(std::vector<double>{0, 0.05, 0.3}), r.chance(0.4));
  for (auto &q : g) mix_dag(c, q); for (auto &q : dep) mix_mat(c, q);
  c.note("%d graphs of %d nodes; first: %s", ng, n, dag2s(first).c_str()); c.nontrivial = ng > 1; c.add("in.graphs", ng);
  std::vector<std::unique_ptr<IArr>> P, I, DP, DI; std::vector<int *> gp, gi, dp, di;
  for (auto &q : g) { P.emplace_back(new IArr(q.p)); I.emplace_back(new IArr(q.i)); gp.push_back(*P.back()); gi.push_back(*I.back()); }
  for (auto &q : dep) { DP.emplace_back(new IArr(q.p)); DI.emplace_back(new IArr(q.i)); dp.push_back(*DP.back()); di.push_back(*DI.back()); }
  Ent own, ident, expl;
  for (int k = 0; k < ng; ++k) for (int j = 0; j < n; ++j) for (int t = g[k].p[j]; t < g[k].p[j + 1]; ++t) own[{k * n + j, k * n + g[k].i[t]}] = 1;
  ident = expl = own;
  for (int k = 0; k + 1 < ng; ++k) { for (int j = 0; j < n; ++j) ident[{k * n + j, (k + 1) * n + j}] = 1; for (auto &e : ents(dep[k], true)) expl[{k * n + e.first.first, (k + 1) * n + e.first.second}] = 1; }
  Ent e; int N = n * ng;
  { int *mp = 0, *mi = 0; c.stage("merge_graph_arrays"); sym_lib::merge_graph(ng, n, gp.data(), gi.data(), mp, mi);
    if (read_back(c, "merge_graph_arrays", N, N, ident.size(), mp, mi, nullptr, true, e)) same(c, "merge_graph_arrays", e, ident); delete[] mp; delete[] mi; }
  { c.stage("merge_graph"); CSC *G = sym_lib::merge_graph(ng, n, gp.data(), gi.data()); expect_csc(c, "merge_graph", G, N, N, ident, true, true); delete G; }
  { c.stage("merge_DAGs_with_partial_order"); CSC *G = sym_lib::merge_DAGs_with_partial_order(ng, n, gp.data(), gi.data(), ng - 1, dp.data(), di.data());
    expect_csc(c, "merge_DAGs", G, N, N, expl, true, true); delete G; }
  for (int k = 0; k < ng; ++k) if (P[k]->vec() != g[k].p || I[k]->vec() != g[k].i) c.fail("merge:input_changed", "graph %d was modified", k);
  {  // coarsening
    Mat a; if (r.chance(0.5)) { a.m = a.n = n; a.p = first.p; a.i = first.i; a.x.assign(a.i.size(), 1); } else { a = gen_mat(r, n, n, r.unit() * 0.3, false); if (r.chance(0.4)) shuffle_cols(r, a); }
    int k = r.chance(0.2) ? 1 : r.range(1, n + 2), st = r.range(-1, 1); int cn = (n + k - 1) / k; IArr p(a.p), i(a.i); mix_mat(c, a); c.mix(k);
    Ent w; for (auto &q : ents(a, true)) w[{q.first.first / k, q.first.second / k}] = 1;
    c.stage("coarsen_k_times"); CSC *C = sym_lib::coarsen_k_times(n, (int)a.i.size(), p, i, st, k);
    if ((int)C->n != cn || (int)C->m != cn || C->stype != st) c.fail("coarsen:dims", "%zux%zu stype %d, want %d and %d", C->m, C->n, C->stype, cn, st);
    else if (read_back(c, "coarsen", cn, cn, C->nnz, C->p, C->i, nullptr, false, e)) same(c, "coarsen", e, w);
    if (a.i.size()) delete C;
    if (p.vec() != a.p || i.vec() != a.i) c.fail("coarsen:input_changed", "the matrix was modified");
  }
  {  // blocked graphs A -> B -> C with one supernode structure
    Dag f = n < 20000 ? cholesky_fill(first) : first, h = n < 20000 ? cholesky_fill(g.back()) : g.back(); std::vector<int> sup(1, 0); for (int j = 1; j < n; ++j) if (r.chance(0.5)) sup.push_back(j); sup.push_back(n);
    int nb = (int)sup.size() - 1; std::vector<int> c2s(n); for (int k = 0; k < nb; ++k) for (int j = sup[k]; j < sup[k + 1]; ++j) c2s[j] = k;
    Mat ma = mat_from_dag(r, r.chance(0.5) ? f : first), mc = mat_from_dag(r, h), mb = gen_mat(r, n, n, 0.1, r.chance(0.7));
    std::unique_ptr<CSC> A(to_csc(ma, false, -1)), B(to_csc(mb, false)), C(to_csc(mc, false, -1)); IArr S(sup);
    sym_lib::BCSCMatrix MA(A.get(), nb, S), MC(C.get(), nb, S); mix_mat(c, mb); c.mixv(sup);
    Ent w; for (auto &q : ents(ma, true)) w[{c2s[q.first.first], c2s[q.first.second]}] = 1;
    for (auto &q : ents(mb, true)) w[{nb + c2s[q.first.first], 2 * nb + c2s[q.first.second]}] = 1;
    for (auto &q : ents(mc, true)) w[{2 * nb + c2s[q.first.first], 2 * nb + c2s[q.first.second]}] = 1;
    for (int k = 0; k < nb; ++k) w[{k, nb + k}] = w[{nb + k, nb + k}] = 1;
    c.stage("merge_graphs"); CSC *G = sym_lib::merge_graphs(MA.getBCSC(), B.get(), MC.getBCSC());
    if ((int)G->m != 3 * nb || (int)G->n != 3 * nb) c.fail("merge_graphs:dims", "%zux%zu", G->m, G->n);
    else if (read_back(c, "merge_graphs", 3 * nb, 3 * nb, G->nnz, G->p, G->i, nullptr, false, e)) same(c, "merge_graphs", e, w);
    delete G;
  }
}
VH_PROP(C21, merge_case);

// wavefronts of a fused supernodal solve, product, solve (C06)
void fused_levels_case(Ctx &c) {
  Rng &r = c.rng;
  Dag f = cholesky_fill(gen_dag(r, c.thorough ? 150 : 60)), h = f; int n = f.n;
  // C shares the supernodes: same factor, optionally with whole off-diagonal supernode rows kept
  std::vector<int> sup(1, 0); bool merge = r.chance(0.7);
  for (int j = 1; j < n; ++j) {
    bool nest = f.p[j] - f.p[j - 1] - 1 == f.p[j + 1] - f.p[j] && std::equal(f.i.begin() + f.p[j], f.i.begin() + f.p[j + 1], f.i.begin() + f.p[j - 1] + 1);
    if (!(merge && nest && r.chance(0.8))) sup.push_back(j);
  }
  sup.push_back(n); int nb = (int)sup.size() - 1; std::vector<int> c2s(n); for (int k = 0; k < nb; ++k) for (int j = sup[k]; j < sup[k + 1]; ++j) c2s[j] = k;
  Mat ma = mat_from_dag(r, f), mc = mat_from_dag(r, h), mb = gen_mat(r, n, n, r.pick(std::vector<double>{0, 0.02, 0.2}), true);
  std::unique_ptr<CSC> A(to_csc(ma, false, -1)), B(to_csc(mb, false)), C(to_csc(mc, false, -1)); IArr S(sup);
  mix_mat(c, ma); mix_mat(c, mb); c.mixv(sup); c.note(" fused: L %s B p=%s i=%s supernodes=%s", dag2s(f).c_str(), vec2s(mb.p).c_str(), vec2s(mb.i, 300).c_str(), vec2s(sup).c_str());
  std::vector<std::set<int>> ad(2 * nb); std::vector<int> lev(2 * nb, 0);
  for (int k = 0; k < nb; ++k) {
    for (int t = f.p[sup[k]]; t < f.p[sup[k] + 1]; ++t) if (c2s[f.i[t]] != k) { ad[k].insert(c2s[f.i[t]]); ad[nb + k].insert(nb + c2s[f.i[t]]); }
    for (int j = sup[k]; j < sup[k + 1]; ++j) for (int t = mb.p[j]; t < mb.p[j + 1]; ++t) ad[k].insert(nb + c2s[mb.i[t]]);
  }
  for (int k = 0; k < 2 * nb; ++k) for (int v : ad[k]) lev[v] = std::max(lev[v], lev[k] + 1);
  int *lp = 0, *ls = 0; c.stage("bcsc_csc_bcsc_levelset");
  int nl = sym_lib::bcsc_csc_bcsc_levelset(A.get(), B.get(), C.get(), lp, ls, nb, S);
  int want = 0; for (int v : lev) want = std::max(want, v + 1);
  std::string w = "bcsc_csc_bcsc_levelset"; c.out(nl); if (nl == want) { c.outp(lp, nl + 1); c.outp(ls, 2 * nb); }
  if (nl != want) c.fail(w + ":count", "%d levels, longest path gives %d", nl, want);
  else if (lp[0] != 0 || lp[nl] != 2 * nb) c.fail(w + ":ptr", "level pointer spans %d..%d for %d nodes", lp[0], lp[nl], 2 * nb);
  else {
    std::vector<int> seen(2 * nb, 0);
    for (int l = 0; l < nl; ++l) for (int k = lp[l]; k < lp[l + 1]; ++k) {
      int v = ls[k], kn = v / n, col = v % n;
      if (v < 0 || kn > 1 || sup[c2s[col]] != col) { c.fail(w + ":range", "entry %d is not the first column of a supernode", v); continue; }
      int id = kn * nb + c2s[col];
      if (seen[id]++) c.fail(w + ":duplicate", "supernode %d listed twice", id);
      if (lev[id] != l) c.fail(w + ":level", "supernode %d in level %d, longest path %d", id, l, lev[id]);
    }
    c.add("obs.fused_levels", nl);
  }
  delete[] lp; delete[] ls;
}
VH_PROP(C06, fused_levels_case);
}  // namespace
