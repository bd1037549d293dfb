// C27: the Matrix Market C library (mmio).  C28: helper computations, records and the test driver class.
#include "vh.h"
#include <chrono>
#include <ctime>
#include <fstream>
#include <memory>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include "aggregation/def.h"
#include "aggregation/mmio.h"
#include "aggregation/utils.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/sparse_io.h"
#include "aggregation/FusionDemo.h"
#include "aggregation/csv_utils.h"
#include <complex>
extern "C" {
#include "aggregation/SuiteSparse_config_s.h"
}
extern long mw_fail_at_set(long);
using namespace vh;
namespace sym_lib {
int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J, double **val, MM_typecode *matcode) __attribute__((weak));
}
namespace {
using namespace sym_lib;
const char *FIELDS[] = {"real", "complex", "pattern", "integer"}, *SYMS[] = {"general", "symmetric", "hermitian", "skew-symmetric"}, *FORMS[] = {"coordinate", "array"};
const char FC[] = "RCPI", SC[] = "GSHK", OC[] = "CA";
bool valid(int form, int field, int sym) { return !(form == 1 && field == 2) && !(field == 0 && sym == 2) && !(field == 2 && sym >= 2); }
std::string cas(Rng &r, std::string s) { int m = r.range(0, 2); for (auto &ch : s) if (m == 1 || (m == 2 && r.chance(0.5))) ch = (char)toupper(ch); return s; }
double val(Rng &r) { switch (r.range(0, 4)) { case 0: return r.unit(); case 1: return r.range(-9, 9); case 2: return std::ldexp(r.unit() - 0.5, r.range(-200, 200)); case 3: return -r.unit() * 1e-9; default: return (r.unit() - 0.5) * 1e15; } }
bool close_to(double a, double b) { return a == b || std::fabs(a - b) <= 1e-14 * std::fabs(b); }
std::string slurp(const std::string &fn) { std::ifstream in(fn); std::stringstream s; s << in.rdbuf(); return s.str(); }
void spit(const std::string &fn, const std::string &t) { FILE *f = fopen(fn.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
struct F { FILE *f; F(const std::string &fn, const char *m) : f(fopen(fn.c_str(), m)) {} ~F() { if (f) fclose(f); } };

void mmio_case(Ctx &c) {
  Rng &r = c.rng; std::string fn = c.workdir + "/mm.mtx"; char *fname = &fn[0];
  int form = r.chance(0.8) ? 0 : 1, field = r.range(0, 3), sym = r.range(0, 3), M = r.range(1, 30), N = r.chance(0.5) ? M : r.range(1, 30), nz = r.range(0, 25);
  std::vector<int> I(nz), J(nz); std::vector<double> V(2 * nz); for (auto &x : I) x = r.range(1, M); for (auto &x : J) x = r.range(1, N); for (auto &x : V) x = val(r);
  c.mix(form * 100 + field * 10 + sym); c.mix(M); c.mix(N); c.mixv(I); c.mixv(J); c.nontrivial = nz > 1;
  std::string type = std::string("matrix ") + FORMS[form] + " " + FIELDS[field] + " " + SYMS[sym];
  c.note("%s %dx%d with %d entries", type.c_str(), M, N, nz);
  MM_typecode tc; mm_clear_typecode(&tc); tc[0] = 'M'; tc[1] = OC[form]; tc[2] = FC[field]; tc[3] = SC[sym];
  { c.stage("mm_is_valid"); bool v = mm_is_valid(tc); c.add("obs.typecodes"); if (v != valid(form, field, sym)) c.fail("mm_is_valid:wrong", "%s is reported %s", type.c_str(), v ? "valid" : "invalid");
    MM_typecode bad; memcpy(bad, tc, sizeof tc); bad[0] = ' '; if (mm_is_valid(bad)) c.fail("mm_is_valid:not_a_matrix", "a code that is not a matrix is valid");
    c.stage("mm_typecode_to_str"); char *s = mm_typecode_to_str(tc); if (!s || type != s) c.fail("mm_typecode_to_str:wrong", "%s instead of %s", s ? s : "(null)", type.c_str()); free(s);
    int k = r.range(0, 3); memcpy(bad, tc, sizeof tc); bad[k] = '?'; s = mm_typecode_to_str(bad); if (s) c.fail("mm_typecode_to_str:accepts", "a bad code in place %d has the name %s", k, s); free(s); }
  {  // banner and size lines: written, reported as written, read back
    c.stage("mm_write_banner"); int a, b, d = 0; { F o(fn, "w"); a = mm_write_banner(o.f, tc); if (r.chance(0.5)) fprintf(o.f, "%% a comment\n%%\n"); c.stage("mm_write_size"); b = form == 0 ? mm_write_mtx_crd_size(o.f, M, N, nz) : mm_write_mtx_array_size(o.f, M, N); }
    if (a || b) c.fail("mm_write:status", "written lines are reported with %d and %d", a, b);
    F in(fn, "r"); MM_typecode q; c.stage("mm_read_banner"); a = mm_read_banner(in.f, &q); int m2 = -1, n2 = -1, z2 = nz; c.stage("mm_read_size"); b = form == 0 ? mm_read_mtx_crd_size(in.f, &m2, &n2, &z2) : mm_read_mtx_array_size(in.f, &m2, &n2); (void)d;
    c.add("obs.headers"); c.out((uint64_t)(m2 * 1000 + n2));
    if (a || b || memcmp(q, tc, 4) || m2 != M || n2 != N || z2 != nz) c.fail("mm_header:round_trip", "status %d %d, %.4s %d %d %d instead of %.4s %d %d %d", a, b, q, m2, n2, z2, tc, M, N, nz); }
  if (r.chance(0.5)) {  // banners in any case and spacing, and ones to be refused
    struct B { std::string t; int want; }; std::string h = "%%MatrixMarket ";
    int k = r.range(0, 8); B b;
    std::string words[4] = {"matrix", FORMS[form], FIELDS[field], SYMS[sym]};
    if (k <= 2) { b.t = h; for (auto &w : words) b.t += cas(r, w) + (r.chance(0.5) ? " " : "  \t"); b.want = 0; }
    else if (k == 3) { b.t = "%MatrixMarket " + type; b.want = MM_NO_HEADER; }
    else if (k == 4) { b.t = h + "matrix " + words[1] + " " + words[2]; b.want = MM_PREMATURE_EOF; }
    else if (k == 5) { b.t = ""; b.want = MM_PREMATURE_EOF; }
    else { words[r.range(0, 3)] = r.pick(std::vector<std::string>{"vector", "tensor", "quaternion", "sideways", "r", "matrixx", "coordinat"}); b.t = h; for (auto &w : words) b.t += w + " "; b.want = MM_UNSUPPORTED_TYPE; }
    spit(fn, b.t.empty() ? "" : b.t + "\n"); F in(fn, "r"); MM_typecode q; c.stage("mm_read_banner_text"); int a = mm_read_banner(in.f, &q); c.add(b.want ? "obs.banners_refused" : "obs.banners_read");
    if (a != b.want) c.fail("mm_read_banner:status", "'%s' gives %d instead of %d", b.t.c_str(), a, b.want);
    else if (!a && memcmp(q, tc, 4)) c.fail("mm_read_banner:code", "'%s' gives %.4s", b.t.c_str(), q); }
  if (r.chance(0.5)) {  // size lines: comments and blank lines before, text in place of numbers
    int k = r.range(0, 4); std::string t; int want = 0; for (int q = r.range(0, 2); q > 0; --q) t += "% comment 7 7 7\n";
    std::string s = std::to_string(M) + " " + std::to_string(N) + (form == 0 ? " " + std::to_string(nz) : "") + "\n";
    if (k <= 1) t += s; else if (k == 2) t += "\n" + s; else if (k == 3) want = MM_PREMATURE_EOF; else { t += "rows columns\n"; want = MM_PREMATURE_EOF; }
    spit(fn, t); F in(fn, "r"); int m2 = -1, n2 = -1, z2 = -1; c.stage("mm_read_size_text"); int a = form == 0 ? mm_read_mtx_crd_size(in.f, &m2, &n2, &z2) : mm_read_mtx_array_size(in.f, &m2, &n2); c.add("obs.size_lines");
    if (a != want) c.fail("mm_read_size:status", "'%s' gives %d instead of %d", t.c_str(), a, want);
    else if (!a && (m2 != M || n2 != N || (form == 0 && z2 != nz))) c.fail("mm_read_size:value", "'%s' gives %d %d %d", t.c_str(), m2, n2, z2); }
  // coordinate files written and read back
  mm_set_coordinate(&tc);
  c.stage("mm_write_mtx_crd"); IArr wi(I), wj(J); DArr wv(field == 1 ? V : std::vector<double>(V.begin(), V.begin() + nz));
  int st = mm_write_mtx_crd(fname, M, N, nz, wi, wj, wv, tc);
  if (field == 3) { if (st != MM_UNSUPPORTED_TYPE) c.fail("mm_write_mtx_crd:integer", "integer matrices are reported with %d", st);
    std::string t = "%%MatrixMarket matrix coordinate integer general\n" + std::to_string(M) + " " + std::to_string(N) + " " + std::to_string(nz) + "\n"; for (int k = 0; k < nz; ++k) t += std::to_string(I[k]) + " " + std::to_string(J[k]) + " 3\n"; spit(fn, t); }
  else if (st) { c.fail("mm_write_mtx_crd:status", "%d for a written matrix", st); return; }
  if (!c.shared && c.idx % 8 == 5) {  // the name stdout: the same text, printed
    std::string want = slurp(fn); c.stage("mm_write_mtx_crd_stdout"); std::string so = "stdout", got; int s2; { Printed out; s2 = mm_write_mtx_crd(&so[0], M, N, nz, wi, wj, wv, tc); got = out.text(); } c.add("obs.printed"); if (field != 3 && (s2 != st || got != want)) c.fail("mm_write_mtx_crd:stdout", "%zu characters are printed, %zu in the file, status %d and %d", got.size(), want.size(), s2, st);
    std::string nodir = c.workdir + "/none/x.mtx"; c.stage("mm_write_mtx_crd_nodir"); if (mm_write_mtx_crd(&nodir[0], M, N, nz, wi, wj, wv, tc) != MM_COULD_NOT_WRITE_FILE) c.fail("mm_write_mtx_crd:nodir", "a file that cannot be opened is not reported"); }
  int cut = -1; std::string text = slurp(fn);
  if (nz > 0 && r.chance(0.3)) { size_t at = text.find('\n', text.find('\n') + 1) + 1; std::vector<size_t> starts; for (size_t q = at; q < text.size(); q = text.find('\n', q) + 1) starts.push_back(q); cut = r.range(0, nz - 1); text.resize(starts[cut]); if (r.chance(0.4)) text += r.pick(std::vector<std::string>{"x", "1", "1 z", "% 1 1 1\n"}); spit(fn, text); }
  auto check = [&](const char *w, int status, int m2, int n2, int z2, const int *i2, const int *j2, const double *x2, int base, bool header) {
    std::string k = w; c.add("obs.files");
    if (cut >= 0) { c.add("obs.truncated_files"); if (status == 0) c.fail(k + ":truncated", "a file with %d of %d entries is read", cut, nz); return; }
    if (status) { c.fail(k + ":status", "%d for a well-formed file", status); return; }
    if (header && (m2 != M || n2 != N || z2 != nz)) { c.fail(k + ":size", "%d %d %d instead of %d %d %d", m2, n2, z2, M, N, nz); return; }
    for (int q = 0; q < nz; ++q) { if (i2[q] + base != I[q] || j2[q] + base != J[q]) { c.fail(k + ":index", "entry %d is at %d,%d instead of %d,%d", q, i2[q], j2[q], I[q], J[q]); return; }
      if (field <= 1 && !close_to(x2[field == 1 ? 2 * q : q], V[field == 1 ? 2 * q : q])) { c.fail(k + ":value", "entry %d is %.17g instead of %.17g", q, x2[field == 1 ? 2 * q : q], V[field == 1 ? 2 * q : q]); return; }
      if (field == 1 && !close_to(x2[2 * q + 1], V[2 * q + 1])) { c.fail(k + ":imaginary", "entry %d", q); return; }
      c.add("obs.entries"); c.out((uint64_t)i2[q]); } };
  if (sym_lib::mm_read_mtx_crd) {
    c.stage("mm_read_mtx_crd"); int m2 = 0, n2 = 0, z2 = 0, *i2 = nullptr, *j2 = nullptr; double *x2 = nullptr; MM_typecode q;
    int s = sym_lib::mm_read_mtx_crd(fname, &m2, &n2, &z2, &i2, &j2, &x2, &q);
    if (field == 3) { if (s == 0) c.fail("mm_read_mtx_crd:integer", "an integer matrix is reported as read"); }
    else if (!valid(0, field, sym)) { c.add("obs.invalid_types"); if (s != MM_UNSUPPORTED_TYPE) c.fail("mm_read_mtx_crd:invalid", "%s gives %d", type.c_str(), s); }
    else { check("mm_read_mtx_crd", s, m2, n2, z2, i2, j2, x2, 0, true); if (!s && memcmp(q, tc, 4)) c.fail("mm_read_mtx_crd:code", "%.4s instead of %.4s", q, tc); }
    free(i2); free(j2); free(x2);
    std::string miss = fn + ".none"; c.stage("mm_read_mtx_crd_missing"); if (sym_lib::mm_read_mtx_crd(&miss[0], &m2, &n2, &z2, &i2, &j2, &x2, &q) != MM_COULD_NOT_READ_FILE) c.fail("mm_read_mtx_crd:missing", "a missing file is not reported"); }
  for (int one = 0; one < 2; ++one) {  // the pieces, all at once and entry by entry
    F in(fn, "r"); MM_typecode q; int m2, n2, z2; if (mm_read_banner(in.f, &q) || mm_read_mtx_crd_size(in.f, &m2, &n2, &z2)) { c.fail("mm_read:header", "the header just written is refused"); break; }
    IArr i2(nz), j2(nz); DArr x2(field == 1 ? 2 * nz : nz); int s = 0;
    if (!one) { c.stage("mm_read_mtx_crd_data"); s = mm_read_mtx_crd_data(in.f, M, N, nz, i2, j2, x2, q); }
    else { c.stage("mm_read_mtx_crd_entry"); for (int k = 0; k < nz && !s; ++k) { double re = 0, im = 0; s = mm_read_mtx_crd_entry(in.f, &i2.d[k], &j2.d[k], &re, &im, q); if (field == 1) { x2.d[2 * k] = re; x2.d[2 * k + 1] = im; } else x2.d[k] = re; } }
    const char *w = one ? "mm_read_mtx_crd_entry" : "mm_read_mtx_crd_data";
    if (field == 3) { if (s != MM_UNSUPPORTED_TYPE && nz) c.fail(std::string(w) + ":integer", "integer data gives %d", s); }
    else { check(w, s, m2, n2, z2, i2, j2, x2, 0, true); if (cut >= 0 && s && s != MM_PREMATURE_EOF) c.fail(std::string(w) + ":error", "%d for a truncated file", s); } }
  { c.stage("mm_read_unsymmetric_sparse"); int m2 = 0, n2 = 0, z2 = 0, *i2 = nullptr, *j2 = nullptr; double *x2 = nullptr; int s = mm_read_unsymmetric_sparse(fn.c_str(), &m2, &n2, &z2, &x2, &i2, &j2);
    if (field != 0) { if (s == 0) c.fail("mm_read_unsymmetric_sparse:accepts", "%s is read", type.c_str()); }
    else { check("mm_read_unsymmetric_sparse", s, m2, n2, z2, i2, j2, x2, 1, true); if (s == 0) { free(i2); free(j2); free(x2); } } }
  if (c.idx % 8 == 6) {  // no file, no header, no size: refused
    int m2 = 0, n2 = 0, z2 = 0, *i2 = nullptr, *j2 = nullptr; double *x2 = nullptr; std::string miss = fn + ".none", t; c.stage("mm_read_unsymmetric_sparse_bad"); int k = r.range(0, 2); if (k) { t = k == 1 ? "no header\n" : "%%MatrixMarket matrix coordinate real general\n% nothing\n"; spit(miss, t); }
    int s = mm_read_unsymmetric_sparse(miss.c_str(), &m2, &n2, &z2, &x2, &i2, &j2); c.add("obs.bad_files"); unlink(miss.c_str()); if (s == 0) c.fail("mm_read_unsymmetric_sparse:bad", "%s is read", k == 0 ? "a missing file" : k == 1 ? "a file without header" : "a file without size"); }
  unlink(fn.c_str());
}
VH_PROP(C27, mmio_case);

// ------------------------------------------------------------------------------------- C28
struct Probe : public FusionDemo {
  std::string ev; std::vector<double> times; size_t at = 0; bool clean = true; int len;
  Probe(int n, std::vector<double> t, double *want) : FusionDemo(n, "probe"), times(t), len(n) { correct_x_ = want; num_test_ = (int)t.size(); }
  Probe(int n, int nnz, std::vector<double> t, double *want) : FusionDemo(n, nnz, "probe"), times(t), len(n) { correct_x_ = want; num_test_ = (int)t.size(); }
  double built = 0;
  void build_set() override { ev += 'b'; auto a = std::chrono::system_clock::now(); while (std::chrono::system_clock::now() - a < std::chrono::microseconds(20)) if (std::chrono::system_clock::now() < a) break; built = std::chrono::duration<double>(std::chrono::system_clock::now() - a).count(); }
  void setting_up() override { ev += 's'; FusionDemo::setting_up(); for (int k = 0; k < len; ++k) if (x_in_[k] != 1 || x_[k] != 0) clean = false; }
  timing_measurement fused_code() override { ev += 'f'; for (int k = 0; k < len; ++k) { x_[k] += x_in_[k] * (k + 1); x_in_[k] = -7; } timing_measurement t; t.elapsed_time = times[at++]; return t; }
  void testing() override { ev += 't'; FusionDemo::testing(); }
};
std::vector<double> dvec(Rng &r, int n) { std::vector<double> v(n); for (auto &x : v) x = val(r); return v; }
void misc_case(Ctx &c) {
  Rng &r = c.rng; int n = r.range(1, 40); std::vector<double> a = dvec(r, n), b = r.chance(0.3) ? a : dvec(r, n); if (r.chance(0.5)) b[r.range(0, n - 1)] += 1;
  for (double x : a) c.mix(Ctx::bits(x)); c.note("%d values", n); c.nontrivial = n > 1; DArr A(a), B(b);
  { int lo = r.range(0, n), hi = r.range(lo, n); double w = 0, m = 0; for (int k = lo; k < hi; ++k) w = std::max(w, std::fabs(a[k] - b[k])); for (double x : a) m = std::max(m, std::fabs(x));
    c.stage("residual"); double g = residual(lo, hi, A, B); c.out(Ctx::bits(g)); if (g != w) c.fail("residual:wrong", "%.17g instead of %.17g over %d..%d", g, w, lo, hi);
    c.stage("norm"); g = norm(n, A); c.out(Ctx::bits(g)); if (g != m) c.fail("norm:wrong", "%.17g instead of %.17g", g, m);
    DArr D(b); c.stage("copy_vector_dense"); copy_vector_dense(lo, hi, A, D); std::vector<double> e = b; std::copy(a.begin() + lo, a.begin() + hi, e.begin() + lo); if (D.vec() != e) c.fail("copy_vector_dense:wrong", "over %d..%d", lo, hi);
    DArr D2(b); c.stage("copy_vector"); copy_vector(lo, hi, A.d, D2.d); if (D2.vec() != e) c.fail("copy_vector:wrong", "over %d..%d", lo, hi);
    std::vector<int> iv(n); long s = 0; for (auto &x : iv) { x = r.range(-100000, 100000); s += x; } IArr IV(iv); c.stage("sum_vector"); if (sum_vector(n, IV.d) != s) c.fail("sum_vector:wrong", "%d instead of %ld", sum_vector(n, IV.d), s);
    std::vector<double> q(n); double ds = 0; for (auto &x : q) { x = r.range(-1000, 1000) / 8.0; ds += x; } DArr Q(q); if (sum_vector(n, Q.d) != ds) c.fail("sum_vector:real", "%.17g instead of %.17g", sum_vector(n, Q.d), ds);
    if (A.vec() != a || B.vec() != b) c.fail("helpers:input_changed", "inputs were written"); c.add("obs.vectors", 6); }
  { double a0 = val(r), a1 = val(r), a2 = val(r); c.stage("tridiag"); CSC *T = tridiag(n, a0, a1, a2); c.add("obs.matrices"); std::vector<double> D((size_t)n * n, 0.0); bool ok = T && (int)T->n == n && (int)T->m == n && T->p[0] == 0 && (int)T->nnz == T->p[n] && T->p[n] == (n == 1 ? 1 : 3 * n - 2) && !T->is_pattern && T->stype == 0;
    if (!ok) c.fail("tridiag:shape", "a tridiagonal matrix of %d rows: %zu rows, %zu entries, pattern %d, type %d", n, T->m, T->nnz, (int)T->is_pattern, T->stype);
    else for (int j = 0; j < n; ++j) for (int p = T->p[j]; p < T->p[j + 1]; ++p) { int i = T->i[p]; double w = i == j ? a1 : i == j - 1 ? a0 : i == j + 1 ? a2 : NAN; if (!(T->x[p] == w) || (p > T->p[j] && T->i[p - 1] >= i)) { c.fail("tridiag:entry", "entry %d of column %d", i, j); j = n; break; } }
    if (ok) c.outp(T->i, T->nnz); delete T; }
  { int k = r.range(0, 9); std::vector<timing_measurement> t(k); std::vector<double> e; for (auto &x : t) { x.elapsed_time = r.chance(0.3) ? r.range(0, 3) : r.unit(); e.push_back(x.elapsed_time); } std::sort(e.begin(), e.end());
    c.stage("time_median"); double g = time_median(t).elapsed_time; c.out(Ctx::bits(g)); c.add("obs.medians"); double lo = k ? e[(k - 1) / 2] : -1, hi = k ? e[k / 2] : -1; if (g != lo && g != hi) c.fail("time_median:wrong", "%.17g is no median of %d times", g, k); }
  if (c.idx % 16 == 3) {  // a measured time lies between the clock readings taken just outside and just inside of it (a step of the clock in between: measure again)
    typedef std::chrono::system_clock K; c.stage("timing_measurement"); bool ok = false; double e = 0, lo = 0, hi = 0;
    for (int q = 0; q < 4 && !ok; ++q) { timing_measurement t; auto a0 = K::now(); t.start_timer(); auto a1 = K::now(); ok = true;
      for (int m = 0, ms = r.range(1, 3); m < ms && ok; ++m) { auto b0 = K::now(); while (K::now() - b0 < std::chrono::microseconds(40)) { if (K::now() < b0) break; } b0 = K::now(); e = t.measure_elapsed_time(); auto b1 = K::now(); c.add("obs.timings");
        lo = std::chrono::duration<double>(b0 - a1).count(); hi = std::chrono::duration<double>(b1 - a0).count(); ok = e >= lo && e <= hi && e == t.elapsed_time; } }
    if (!ok) c.fail("timing_measurement:wrong", "measured %.9f s, the clock says %.9f to %.9f", e, lo, hi); }
  for (int q = 0; q < 4; ++q) {  // overflow-checked sizes
    auto big = [&] { size_t v = r.next(); int s = r.range(0, 63); v >>= s; if (r.chance(0.2)) v = ~(size_t)0 - r.range(0, 3); if (r.chance(0.1)) v = (size_t)1 << r.range(0, 63); if (r.chance(0.1)) v = r.range(0, 3); return v; };
    size_t x = big(), y = big(); int ok = r.chance(0.1) ? 0 : 1, was = ok; unsigned __int128 P = (unsigned __int128)x * y, S = (unsigned __int128)x + y; bool fp = (P >> 64) == 0, fs = (S >> 64) == 0;
    c.stage("mult_size_t"); size_t g = mult_size_t(x, y, &ok); c.out(g); c.add(fp ? "obs.products" : "obs.overflows"); bool w = was && fp; if (y == 0 || x == 0) w = was;
    if ((ok != 0) != w || g != (w ? (size_t)P : 0)) c.fail("mult_size_t:wrong", "%zu * %zu gives %zu, ok %d (was %d)", x, y, g, ok, was);
    ok = was; c.stage("add_size_t"); g = add_size_t(x, y, &ok); c.out(g); w = was && fs; if ((ok != 0) != w || g != (w ? (size_t)S : 0)) c.fail("add_size_t:wrong", "%zu + %zu gives %zu, ok %d (was %d)", x, y, g, ok, was); }
  { auto word = [&](const char *set) { std::string s; for (int k = r.range(1, 6); k > 0; --k) s += set[r.next() % strlen(set)]; return s; };
    std::string base = word("abcXYZ019_-"), dir, ext; for (int k = r.range(0, 3); k > 0; --k) dir += word("abc_x") + "/"; if (r.chance(0.3)) dir = "/" + dir; if (r.chance(0.2)) dir += word("ab.") + "d/"; if (r.chance(0.7)) ext = "." + word("mtxcsv");
    if (!ext.empty() && r.chance(0.3)) base += "." + word("v.12") + "x";
    c.stage("strip_name"); std::string g = strip_name(dir + base + ext); c.add("obs.names"); if (g != base) c.fail("strip_name:wrong", "%s of %s", g.c_str(), (dir + base + ext).c_str());
    std::string sp; for (int k = r.range(0, 4); k > 0; --k) sp += " \t\n\r"[r.range(0, 3)]; std::string in = base + " " + base, s = sp + in + sp; c.stage("trim"); trim(s); if (s != in) c.fail("trim:wrong", "'%s' of '%s'", s.c_str(), (sp + in + sp).c_str()); s = sp; trim(s); if (!s.empty()) c.fail("trim:blank", "blank text is not trimmed to nothing"); }
  { std::string fn = c.workdir + "/v.txt"; std::vector<double> q(n); for (auto &x : q) x = r.range(-1000000, 1000000) / 64.0; DArr Q(q); c.stage("save_vector"); save_vector(&fn[0], Q, n); std::ifstream in(fn); double x; size_t k = 0; bool ok = true; while (in >> x) { if (k >= q.size() || std::fabs(x - q[k]) > 1e-6) ok = false; ++k; } if (!ok || k != q.size()) c.fail("save_vector:wrong", "%zu of %d values", k, n); unlink(fn.c_str()); }
  if (c.idx % 4 == 0) {  // the measuring driver: inspect once, reset before every run, median of the runs
    int k = r.range(1, 7); std::vector<double> t(k); for (auto &x : t) x = r.range(0, 20) / 4.0; std::vector<double> want(n); bool right = r.chance(0.5); for (int q = 0; q < n; ++q) want[q] = q + 1; if (!right) want[r.range(0, n - 1)] += r.pick(std::vector<double>{1, -1e-3});
    DArr W(want); c.stage("FusionDemo"); std::ostringstream log; std::streambuf *old = std::cout.rdbuf(log.rdbuf()); double g; std::string ev; bool clean; std::vector<double> sol; double an = 0, lo = 0; { std::unique_ptr<Probe> pp(r.chance(0.5) ? new Probe(n, t, W) : new Probe(n, 3 * n, t, W)); Probe &p = *pp; g = p.evaluate().elapsed_time; an = p.analysisTime().elapsed_time; lo = p.built; ev = p.ev; clean = p.clean; sol.assign(p.solution(), p.solution() + n); } std::cout.rdbuf(old);
    std::string e = "b"; for (int q = 0; q < k; ++q) e += "sf"; e += "t"; c.add("obs.evaluations"); std::sort(t.begin(), t.end());
    if (ev != e) c.fail("FusionDemo:order", "%s instead of %s", ev.c_str(), e.c_str()); if (!clean) c.fail("FusionDemo:reset", "the vectors are not reset before a run");
    if (an < lo) c.fail("FusionDemo:analysis_time", "an inspection of %.9f s is reported to take %.9f s", lo, an);
    if (g != t[k / 2] && g != t[(k - 1) / 2]) c.fail("FusionDemo:median", "%g is no median", g); for (int q = 0; q < n; ++q) if (sol[q] != q + 1) { c.fail("FusionDemo:solution", "entry %d", q); break; }
    bool said = log.str().find("reference") != std::string::npos; if (said == right) c.fail("FusionDemo:verdict", "a %s solution is reported as %s", right ? "right" : "wrong", said ? "wrong" : "right"); }
  if (c.idx % 4 == 2) {  // memory wrappers, hypotenuse, complex division, timer
    for (int q = 0; q < 3; ++q) {  // a request that does not fit into size_t is refused; the old block stays
      size_t a = r.next() >> r.range(0, 63), b = r.next() >> r.range(0, 63); if (r.chance(0.3)) { a = (size_t)1 << r.range(30, 63); b = (size_t)1 << r.range(1, 40); } unsigned __int128 P = (unsigned __int128)std::max<size_t>(a, 1) * std::max<size_t>(b, 1);
      if ((P >> 64) == 0) continue;
      c.stage("SuiteSparse_malloc1"); c.add("obs.refused_sizes"); if (SuiteSparse_malloc1(a, b)) c.fail("SuiteSparse_malloc1:overflow", "%zu items of %zu bytes are granted", a, b);
      int ok = 7; char *old = (char *)SuiteSparse_malloc1(5, 3); memset(old, 0x31, 15); c.stage("SuiteSparse_realloc1_overflow"); char *g = (char *)SuiteSparse_realloc1(a, 5, b, old, &ok);
      if (ok != 0 || g != old) c.fail("SuiteSparse_realloc1:overflow", "%zu items of %zu bytes: ok %d", a, b, ok);
      for (int k = 0; k < 15; ++k) if (old[k] != 0x31) { c.fail("SuiteSparse_realloc1:old", "the old block changed"); break; }
      if (SuiteSparse_free1(old)) c.fail("SuiteSparse_free1:null", "no null pointer is returned"); }
    size_t sz = r.range(0, 40), o = r.range(0, 60), w = r.chance(0.2) ? o : r.range(0, 120), us = std::max<size_t>(sz, 1), uo = std::max<size_t>(o, 1), uw = std::max<size_t>(w, 1); std::vector<unsigned char> v(uo * us); for (auto &x : v) x = (unsigned char)r.next();
    bool fresh = r.chance(0.2), fail = r.chance(0.3); c.stage("SuiteSparse_realloc1"); unsigned char *p = nullptr; if (!fresh) { p = (unsigned char *)SuiteSparse_malloc1(o, sz); memcpy(p, v.data(), v.size()); }
    int ok = 7; long keep = mw_fail_at_set(fail ? 0 : -1); unsigned char *g = (unsigned char *)SuiteSparse_realloc1(w, o, sz, p, &ok); mw_fail_at_set(keep); c.add("obs.reallocations"); bool same = !fresh && uo == uw;
    int want = !fail || same || (!fresh && uw < uo); if (ok != want) c.fail("SuiteSparse_realloc1:status", "%zu to %zu items of %zu bytes%s: ok %d", o, w, sz, fail ? " without memory" : "", ok);
    if (fail && !fresh && g != p) c.fail("SuiteSparse_realloc1:failed", "the old block is lost when there is no memory"); if (fresh && fail && g) c.fail("SuiteSparse_realloc1:fresh", "a block is returned without memory");
    size_t have = fail && !fresh ? v.size() : uw * us; if (g) { if (!fresh) for (size_t k = 0; k < std::min(v.size(), have); ++k) if (g[k] != v[k]) { c.fail("SuiteSparse_realloc1:content", "byte %zu of %zu changed", k, v.size()); break; } memset(g, 1, have); }
    if (SuiteSparse_free1(g)) c.fail("SuiteSparse_free1:null", "no null pointer is returned"); SuiteSparse_free1(nullptr);
    for (int q = 0; q < 4; ++q) { auto big = [&] { double x = r.chance(0.1) ? 0 : std::ldexp(r.unit() + 0.5, r.range(-450, 450)); return r.chance(0.5) ? -x : x; };
      double x = big(), y = r.chance(0.3) ? big() : x * (r.unit() * 4 - 2); c.stage("SuiteSparse_hypot1"); double h = SuiteSparse_hypot1(x, y), e = std::hypot(x, y); c.add("obs.hypotenuses"); if (!(std::fabs(h - e) <= 1e-14 * e)) c.fail("SuiteSparse_hypot1:wrong", "%.17g, %.17g gives %.17g instead of %.17g", x, y, h, e);
      auto sm = [&] { return r.chance(0.1) ? 0.0 : std::ldexp(r.unit() - 0.5, r.range(-20, 20)); }; double ar = sm(), ai = sm(), br = sm(), bi = sm(), cr = 5, ci = 5; if (br == 0 && bi == 0) br = 1;
      c.stage("SuiteSparse_divcomplex1"); int z = 0; int alias = r.range(0, 2); double *pr = &cr, *pi = &ci, tar = ar, tai = ai, tbr = br, tbi = bi; if (alias == 1) pr = &tar, pi = &tai; else if (alias == 2) pr = &tbr, pi = &tbi; z = SuiteSparse_divcomplex1(tar, tai, tbr, tbi, pr, pi); c.add("obs.divisions");
      if (z != 0) c.fail("SuiteSparse_divcomplex1:status", "division by %g + %gi returns %d", br, bi, z);
      { std::complex<long double> t = std::complex<long double>(ar, ai) / std::complex<long double>(br, bi); double m = (double)std::abs(t); if (!(std::fabs(*pr - (double)t.real()) <= 1e-12 * m && std::fabs(*pi - (double)t.imag()) <= 1e-12 * m)) c.fail("SuiteSparse_divcomplex1:wrong", "(%g + %gi) / (%g + %gi) gives %g + %gi", ar, ai, br, bi, *pr, *pi); } }
    { auto now = [] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }; double tic[2]; c.stage("SuiteSparse_tic1"); double t0 = now(); SuiteSparse_tic1(tic); double t1 = now(); while (now() < t1 + 2e-5) {} double k0[2] = {tic[0], tic[1]}, t2 = now(), e = SuiteSparse_toc1(tic), t3 = now(), e2 = SuiteSparse_toc1(tic), t4 = now(), ti = SuiteSparse_time1(), t5 = now(); c.add("obs.timings");
      bool off = tic[0] == 0 && tic[1] == 0 && e == 0 && ti == 0;   // built without a timer
      if (!off && (e < t2 - t1 - 1e-6 || e > t3 - t0 + 1e-6 || e2 < e || e2 > t4 - t0 + 1e-6 || ti < t4 - 1e-6 || ti > t5 + 1e-6 || k0[0] != tic[0] || k0[1] != tic[1])) c.fail("SuiteSparse_toc1:wrong", "%.9f s and %.9f s since the start, the clock says %.9f to %.9f", e, e2, t2 - t1, t3 - t0); } }
  if (c.idx % 8 == 1) {  // the common columns of a result row, one value for each column of the header
    CSC B((size_t)r.range(1, 500), 3, (size_t)r.range(3, 900), true), L((size_t)4, 4, (size_t)r.range(4, 900), true); int th = r.range(1, 64); auto name = [&] { std::string s; for (int k = r.range(1, 5); k > 0; --k) s += (char)('a' + r.range(0, 25)); return s; }; std::string m = name(), v = name(), st = name();
    std::ostringstream log; std::streambuf *old = std::cout.rdbuf(log.rdbuf()); c.stage("print_common"); print_common_header(); std::string head = log.str(); log.str(""); print_common(m, v, st, &B, &L, th); std::string row = log.str(); log.str(""); print_common(m, v, st, &B, nullptr, th); std::string row2 = log.str(); std::cout.rdbuf(old); c.add("obs.result_rows");
    auto cells = [](const std::string &s) { std::vector<std::string> o; std::stringstream q(s); std::string w; while (std::getline(q, w, ',')) o.push_back(w); return o; };
    std::vector<std::string> e = {m, std::to_string(B.m), std::to_string(B.nnz), std::to_string(L.nnz), v, st, "Metis", std::to_string(th)}; if (cells(row) != e) c.fail("print_common:row", "'%s'", row.c_str()); if (cells(head).size() != e.size()) c.fail("print_common:header", "'%s'", head.c_str());
    e.erase(e.begin() + 3); if (cells(row2) != e) c.fail("print_common:row", "'%s'", row2.c_str()); }
  if (c.idx % 4 == 1) {  // CSV records
    std::string base = c.workdir + "/rec", fn = base + ".csv"; unlink(fn.c_str()); std::vector<std::string> col; for (int k = r.range(1, 5); k > 0; --k) col.push_back("c" + std::to_string(k)); std::string want;
    std::ostringstream log; std::streambuf *old = std::cout.rdbuf(log.rdbuf()); auto line = [&](const std::vector<std::string> &v) { std::string s; for (size_t k = 0; k < v.size(); ++k) s += (k ? "," : "") + v[k]; return s + "\n"; };
    c.stage("CSVManager");
    for (int rounds = r.range(1, 3); rounds > 0; --rounds) { bool force = r.chance(0.4); if (force || want.empty()) want = line(col); profiling_utils::CSVManager m(base, "", col, force); if (m.getHeaderNames() != col) c.fail("CSVManager:header", "header names");
      for (int q = r.range(0, 4); q > 0; --q) { std::vector<std::string> v; std::vector<int> order; for (size_t k = 0; k < col.size(); ++k) { v.push_back(std::to_string(r.range(0, 99999))); order.push_back((int)k); } r.shuffle(order);
        bool part = r.chance(0.3); int hold = part ? order[0] : -1;
        for (int k : order) if (k != hold) { if (r.chance(0.5)) m.addElementToRecord(v[k], col[k]); else m.addElementToRecord(atoi(v[k].c_str()), col[k]); }
        if (r.chance(0.2)) m.addElementToRecord(std::string("zz"), "no such column");
        if (part) { m.addRecord(); c.add("obs.partial_records"); if (slurp(fn) .size() > want.size()) c.fail("CSVManager:partial", "an incomplete record was written"); m.addElementToRecord(v[hold], col[hold]); }
        m.addRecord(); want += line(v); c.add("obs.records"); m.addRecord(); } }
    std::cout.rdbuf(old); std::string got = slurp(fn); if (got != want) c.fail("CSVManager:content", "'%s' instead of '%s'", got.c_str(), want.c_str()); unlink(fn.c_str()); }
}
VH_PROP(C28, misc_case);
}  // namespace
