// C18: Matrix Market reading and writing against an independent description of the file.
#include "vh.h"
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
#include "aggregation/sparse_io.h"
#include "aggregation/mmio.h"
#include "aggregation/exceptions.h"
#include "aggregation/BCSCMatrix.h"
using namespace vh;
typedef sym_lib::CSC CSC;

// the reader may answer an unusable file with exit(): make that an observable outcome
namespace { struct Exited { int code; }; thread_local bool exit_guard = false; }
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int code) { if (exit_guard) throw Exited{code}; __real_exit(code); }

namespace {
struct Ent { int r, c; double v; };
struct File { int m, n; std::vector<Ent> e; int field; bool sym; };  // field 0 real 1 integer 2 pattern

double value(Rng &r, int field) {
  if (field == 2) return 1;
  if (field == 1) return r.range(-1000000, 1000000);
  switch (r.range(0, 8)) {
    case 7: return r.pick(std::vector<double>{1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, -2.2250738585072014e-308, 1e22, 9007199254740993.0, 123456789012345678.0, 0.1, -0.30000000000000004, 1e-300});
    case 8: return (r.chance(0.5) ? 1 : -1) * std::pow(10.0, r.range(-30, 30));
    case 0: return r.unit();
    case 1: return -r.unit() * 1e-9;
    case 2: return std::ldexp(r.unit() - 0.5, r.range(-300, 300));
    case 3: return r.range(-9, 9);
    case 4: return (r.unit() - 0.5) * 1e17;
    case 5: return 1.0 / 3.0 + r.unit() * 1e-15;
    default: return 0.0;
  }
}
File gen_file(Ctx &c, int field, bool sym, int maxdim) {
  Rng &r = c.rng; File f; f.field = field; f.sym = sym;
  if (maxdim > 1000) {  // few entries spread over many rows and columns
    f.m = r.range(maxdim / 2, maxdim); f.n = sym ? f.m : r.range(maxdim / 2, maxdim); std::set<std::pair<int, int>> at;
    for (int k = r.range(1, 3000); k > 0; --k) { int i = r.range(0, f.m - 1), j = r.range(0, f.n - 1); if (sym && i < j) std::swap(i, j); at.insert({i, j}); }
    at.insert({f.m - 1, f.n - 1}); for (auto &q : at) f.e.push_back({q.first, q.second, value(r, field)}); c.add("in.wide_files"); return f;
  }
  if (!sym && maxdim > 20 && r.chance(0.003)) { f.m = r.range(200, r.chance(0.1) ? 70000 : 900); f.n = r.range(1, 3); if (r.chance(0.4)) std::swap(f.m, f.n); for (int j = 0; j < f.n; ++j) for (int i = 0; i < f.m; ++i) if (r.chance(0.97)) f.e.push_back({i, j, value(r, field)}); c.add("in.tall_files"); return f; }
  f.m = r.range(1, maxdim); f.n = sym ? f.m : r.range(1, maxdim);
  double dens = r.pick(std::vector<double>{0, 0.02, 0.1, 0.3, 0.6, 1.0});
  bool holes = r.chance(0.4); std::vector<char> emptyc(f.n, 0); if (holes) for (int j = 0; j < f.n; ++j) emptyc[j] = r.chance(0.4);
  for (int j = 0; j < f.n; ++j) for (int i = sym ? j : 0; i < f.m; ++i) if (!emptyc[j] && (r.chance(dens) || (i == j && r.chance(0.7)))) f.e.push_back({i, j, value(r, field)});
  return f;
}
std::string casing(Rng &r, std::string s, int mode) {
  for (auto &ch : s) if (mode == 1) ch = toupper(ch); else if (mode == 2 && r.chance(0.5)) ch = toupper(ch);
  return s;
}
std::string num(Rng &r, double v, int field) {
  char b[64];
  if (field == 1) snprintf(b, sizeof b, r.chance(0.03) ? "%+ld" : "%ld", (long)v);
  else { static const char *fm[] = {"%.17g", "%.17e", "%.17G", "%.17E", "%+.17g", "%.20e", "%#.17g"}; snprintf(b, sizeof b, r.chance(0.6) ? fm[r.range(0, 1)] : fm[r.range(0, 6)], v); }
  return b;
}
// header, comments, size line, entries (each one a line)
struct Text { std::string banner, comments, size; std::vector<std::string> lines; std::string tail;
  std::string all() const { std::string s = banner + comments + size; for (auto &l : lines) s += l; return s + tail; } };
Text render(Rng &r, const File &f, bool fixed_banner) {
  Text t; int cm = r.range(0, 2);
  static const char *fs[] = {"real", "integer", "pattern"};
  auto sp = [&] { return std::string(r.chance(0.8) ? " " : r.chance(0.5) ? "  " : "\t"); };
  t.banner = (fixed_banner ? "%%MatrixMarket" : casing(r, "%%MatrixMarket", cm)) + sp() + casing(r, "matrix", cm) + sp() + casing(r, "coordinate", cm) + sp() + casing(r, fs[f.field], cm) + sp() + casing(r, f.sym ? "symmetric" : "general", cm) + "\n";
  for (int k = r.range(0, 3); k > 0; --k) t.comments += r.pick(std::vector<std::string>{"%\n", "% a comment 3 3 3\n", "%%Matrix market\n", "%-----------------------\n", "% 1 1 1.0\n"});
  if (r.chance(0.08)) t.comments += "% " + std::string(r.range(100, 1000), 'c') + "\n"; if (r.chance(0.08)) t.comments += r.chance(0.5) ? "\n" : "   \n";
  t.size = std::to_string(f.m) + sp() + std::to_string(f.n) + sp() + std::to_string(f.e.size()) + (r.chance(0.2) ? " \n" : "\n");
  for (auto &e : f.e) t.lines.push_back(std::string(r.chance(0.1) ? " " : "") + std::to_string(e.r + 1) + sp() + std::to_string(e.c + 1) + (f.field == 2 ? "" : sp() + num(r, e.v, f.field)) + "\n");
  if (r.chance(0.3)) { if (!t.lines.empty()) t.lines.back().pop_back(); } else if (r.chance(0.3)) t.tail = "\n";
  if (r.chance(0.05) && !t.lines.empty()) t.lines[r.range(0, (int)t.lines.size() - 1)] += "\n";
  if (r.chance(0.06)) { auto crlf = [](std::string &x) { std::string o; for (char ch : x) { if (ch == '\n') o += '\r'; o += ch; } x = o; }; crlf(t.banner); crlf(t.comments); crlf(t.size); for (auto &l : t.lines) crlf(l); crlf(t.tail); }
  return t;
}
std::string put(Ctx &c, const std::string &s) {
  std::string fn = c.workdir + "/m.mtx"; FILE *f = fopen(fn.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); return fn;
}
// outcome of a reader: matrix, or how it was refused
struct Out { std::unique_ptr<CSC> A; std::unique_ptr<sym_lib::Dense> D; std::string how = "refused"; };
Out do_read(int which, const std::string &fn, bool diag) {
  Out o; CSC *A = nullptr; sym_lib::Dense *D = nullptr; exit_guard = true;
  try {
    if (which == 0) A = sym_lib::read_mtx(fn);
    else if (which == 1) { std::ifstream in(fn); sym_lib::read_mtx_csc_real(in, A, diag); }
    else { std::string s = fn; sym_lib::load_mtx_array_real(s, D); }
    o.how = A || D ? "accepted" : "null";
  } catch (const Exited &e) { o.how = e.code ? "exit" : "exit0"; A = nullptr; D = nullptr; }
  catch (const std::exception &) { o.how = "exception"; A = nullptr; D = nullptr; }
  exit_guard = false; o.A.reset(A); o.D.reset(D);
  return o;
}
bool same_val(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
void compare(Ctx &c, const std::string &w, const CSC *A, int m, int n, std::vector<Ent> e, int stype) {
  std::sort(e.begin(), e.end(), [](const Ent &a, const Ent &b) { return a.c != b.c ? a.c < b.c : a.r < b.r; });
  if (!A) { c.fail(w + ":refused", "%s refuses a well-formed file", w.c_str()); return; }
  if ((int)A->m != m || (int)A->n != n || A->nnz != e.size()) { c.fail(w + ":size", "%s: %zux%zu nnz %zu instead of %dx%d nnz %zu", w.c_str(), A->m, A->n, A->nnz, m, n, e.size()); return; }
  if (stype > -2 && A->stype != stype) c.fail(w + ":stype", "%s: storage type %d instead of %d", w.c_str(), A->stype, stype);
  if (A->is_pattern) c.fail(w + ":pattern", "%s: the values are missing", w.c_str());
  size_t k = 0; c.add("obs.entries_read", (long)e.size());
  for (int j = 0; j < n; ++j) {
    if (A->p[j] != (int)k) { c.fail(w + ":pointer", "%s: column %d starts at %d instead of %zu", w.c_str(), j, A->p[j], k); return; }
    for (; k < e.size() && e[k].c == j; ++k) {
      if (A->i[k] != e[k].r) { c.fail(w + ":row", "%s: entry %zu of column %d has row %d instead of %d", w.c_str(), k, j, A->i[k], e[k].r); return; }
      if (!same_val(A->x[k], e[k].v)) { c.fail(w + ":value", "%s: (%d,%d) is %.17g instead of %.17g", w.c_str(), e[k].r, j, A->x[k], e[k].v); return; }
    }
  }
  if (A->p[n] != (int)k) c.fail(w + ":pointer", "%s: last pointer is %d", w.c_str(), A->p[n]);
}
void structural(Ctx &c, const std::string &w, const CSC *A) {
  if (A->n < 1 || A->p[0] != 0) { c.fail(w + ":pointer", "%s: bad pointer array accepted", w.c_str()); return; }
  for (size_t j = 0; j < A->n; ++j) {
    if (A->p[j + 1] < A->p[j] || A->p[j + 1] > (int)A->nnz) { c.fail(w + ":pointer", "%s: pointer of column %zu wrong", w.c_str(), j); return; }
    for (int k = A->p[j]; k < A->p[j + 1]; ++k) {
      if (A->i[k] < 0 || A->i[k] >= (int)A->m) { c.fail(w + ":range", "%s: accepts row %d of %zu", w.c_str(), A->i[k], A->m); return; }
      if (k > A->p[j] && A->i[k] < A->i[k - 1]) { c.fail(w + ":sorted", "%s: column %zu not sorted", w.c_str(), j); return; }
    }
  }
}
std::unique_ptr<CSC> to_csc(const File &f) {
  std::vector<Ent> e = f.e; std::sort(e.begin(), e.end(), [](const Ent &a, const Ent &b) { return a.c != b.c ? a.c < b.c : a.r < b.r; });
  std::unique_ptr<CSC> A(new CSC(f.m, f.n, e.size())); A->stype = f.sym ? -1 : 0; size_t k = 0;
  for (int j = 0; j < f.n; ++j) { A->p[j] = (int)k; for (; k < e.size() && e[k].c == j; ++k) { A->i[k] = e[k].r; A->x[k] = e[k].v; } }
  A->p[f.n] = (int)k; return A;
}
const char *RD[] = {"read_mtx", "read_mtx_csc_real", "load_mtx_array_real"};

void good_files(Ctx &c) {
  Rng &r = c.rng; int which = r.range(0, 1), field = r.range(0, which == 0 ? 1 : 2); bool sym = r.chance(0.4);
  File f = gen_file(c, field, sym, c.idx % 200 == 77 ? 150000 : r.chance(0.05) ? 150 : 25);
  int order = r.range(0, 2); if (order == 0) r.shuffle(f.e); else if (order == 1) std::sort(f.e.begin(), f.e.end(), [](const Ent &a, const Ent &b) { return a.r != b.r ? a.r < b.r : a.c < b.c; });
  bool diag = which == 1 && r.chance(0.4); c.nontrivial = f.e.size() > 1;
  std::string txt = render(r, f, which == 0).all(); for (char ch : txt) c.mix((unsigned char)ch);
  c.note("%s diag=%d file:\n%s", RD[which], diag, txt.substr(0, 800).c_str());
  std::string fn = put(c, txt); c.stage(RD[which]);
  Out o = do_read(which, fn, diag); c.add("obs.files_read");
  std::vector<Ent> e = f.e;
  if (diag) { std::vector<char> has(f.n, 0); for (auto &x : e) has[x.c] = 1; for (int j = 0; j < f.n && j < f.m; ++j) if (!has[j]) { e.push_back({j, j, 0.0}); c.add("obs.diagonals_inserted"); } }
  compare(c, diag ? "read_mtx_csc_real_diag" : RD[which], o.A.get(), f.m, f.n, e, sym ? -1 : 0);
}
void bad_files(Ctx &c) {
  Rng &r = c.rng; int which = r.range(0, 1), field = r.range(0, which == 0 ? 1 : 2); bool sym = r.chance(0.3);
  File f = gen_file(c, field, sym, 12); if (f.e.empty()) f.e.push_back({0, 0, 1});
  if (r.chance(0.6)) r.shuffle(f.e);
  Text t = render(r, f, which == 0); if (!t.lines.empty() && t.lines.back().back() != '\n') t.lines.back() += "\n";
  t.tail = ""; std::string kind; bool must = true; int k = r.range(0, (int)t.lines.size() - 1);
  auto line = [&](long a, long b) { return std::to_string(a) + " " + std::to_string(b) + (field == 2 ? "\n" : " 1\n"); };
  switch (r.range(0, 14)) {
    case 13: kind = "huge_size"; { std::string a = std::to_string(f.m), b = std::to_string(f.n), z = std::to_string(f.e.size()); long big = 4294967296L * r.range(1, 3); int q = r.range(0, 3);
      t.size = q == 0 ? std::to_string(big + f.m) + " " + b + " " + z + "\n" : q == 1 ? a + " " + std::to_string(big + f.n) + " " + z + "\n" : q == 2 ? "200000 200000 " + std::to_string(big + (long)f.e.size()) + "\n" : "99999999999999999999999 " + b + " " + z + "\n"; break; }
    case 0: kind = "entries_missing"; t.lines.resize(k); break;
    case 1: kind = "entry_cut"; t.lines.resize(k + 1); t.lines[k] = std::to_string(f.e[k].r + 1) + (r.chance(0.5) || field == 2 ? "" : " " + std::to_string(f.e[k].c + 1)); break;
    case 2: kind = "row_range"; t.lines[k] = line(r.pick(std::vector<long>{0, -1, -5, f.m + 1, f.m + 2, 1000000, 2147483647, -2147483647, 4294967296L + f.e[k].r + 1, -4294967296L + f.e[k].r + 1}), f.e[k].c + 1); break;
    case 3: kind = "col_range"; t.lines[k] = line(f.e[k].r + 1, r.pick(std::vector<long>{0, -1, -5, f.n + 1, f.n + 2, 1000000, 2147483647, -2147483647, 4294967296L + f.e[k].c + 1, -4294967296L + f.e[k].c + 1})); break;
    case 4: kind = "not_a_number"; t.lines[k] = r.pick(std::vector<std::string>{"x y z\n", "one 1 1\n", "1 two 1\n", "1 1 abc\n", "; ; ;\n"}); if (field == 2) t.lines[k] = "x y\n"; break;
    case 5: kind = "banner"; t.banner = r.pick(std::vector<std::string>{"", "\n", "%MatrixMarket matrix coordinate real general\n", "%%MatrixMarket matrix\n", "MatrixMarket matrix coordinate real general\n", "hello world this is text\n"}); if (t.banner == "") t.comments = ""; break;
    case 6: kind = "unsupported"; t.banner = r.pick(std::vector<std::string>{"%%MatrixMarket vector coordinate real general\n", "%%MatrixMarket matrix coordinate complex general\n", "%%MatrixMarket matrix coordinate real skew-symmetric\n", "%%MatrixMarket matrix coordinate complex hermitian\n", "%%MatrixMarket matrix array real general\n", "%%MatrixMarket matrix coordinate quaternion general\n", "%%MatrixMarket matrix blocks real general\n", "%%MatrixMarket matrix coordinate real sideways\n"}); break;
    case 7: kind = "no_size"; t.size = r.pick(std::vector<std::string>{"", "a b c\n", "size\n"}); if (t.size == "" || which == 0) t.lines.clear(); break;
    case 8: kind = "bad_size"; t.size = r.pick(std::vector<std::string>{"-3 3 2\n", "3 -3 2\n", "0 0 0\n", "-1 -1 0\n"}); break;
    case 9: kind = "long_token"; t.banner = "%%MatrixMarket " + std::string(r.range(65, 900), 'q') + " coordinate real general\n"; break;
    case 10: kind = "long_banner"; t.banner = std::string(r.range(100, 4000), 'z') + " matrix coordinate real " + std::string(200, 'y') + "\n"; break;
    case 11: kind = "missing_file"; break;
    case 12: { kind = "bytes"; must = false; for (auto &l : t.lines) for (auto &ch : l) if (r.chance(0.05) && ch != '\n') ch = (char)r.range(1, 127); break; }
    default: { kind = "cut_bytes"; must = false; std::string body; for (auto &l : t.lines) body += l; body.resize(r.range(0, (int)body.size())); t.lines.assign(1, body); break; }
  }
  std::string txt = t.all(); for (char ch : txt) c.mix((unsigned char)ch); c.mix(which);
  c.note("%s %s file:\n%s", RD[which], kind.c_str(), txt.substr(0, 800).c_str()); c.nontrivial = true;
  std::string fn = put(c, txt); if (kind == "missing_file") { unlink(fn.c_str()); if (which == 1) must = true; }
  c.stage(std::string(RD[which]) + "_" + kind);
  Out o = do_read(which, fn, r.chance(0.3)); c.add("obs.bad_" + kind); c.add("obs.refused_by_" + o.how);
  std::string w = RD[which];
  if (o.how == "exit0") c.fail(w + ":exit0", "%s ends the program successfully on a %s file", w.c_str(), kind.c_str());
  if (must && o.A) c.fail(w + ":accepts_" + kind, "%s accepts a %s file", w.c_str(), kind.c_str());
  if (o.A) structural(c, w + "_" + kind, o.A.get());
}
void arrays(Ctx &c) {
  Rng &r = c.rng; int m = r.range(1, 12), n = r.range(1, 12); std::vector<double> v(m * n); for (auto &x : v) x = value(r, 0);
  c.mix(m); c.mix(n); for (double x : v) c.mix((uint64_t)(x * 1e6)); c.nontrivial = true;
  if (r.chance(0.25)) {  // rows of a dense matrix printed to a descriptor
    sym_lib::Dense D(m, n, 1); for (int q = 0; q < m * n; ++q) D.a[q] = r.range(-1000000, 1000000) / 64.0; std::string fn = c.workdir + "/p.txt"; int fd = ::open(fn.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); c.stage("print_dense_fd"); sym_lib::print_dense(fd, &D); ::close(fd);
    std::ifstream in(fn); std::string line; int rows = 0; bool ok = true; while (std::getline(in, line)) { std::stringstream ss(line); double x; int k = 0; while (ss >> x) { if (rows >= m || k >= n || std::fabs(x - D.a[rows + k * m]) > 1e-6) ok = false; ++k; } if (k != n) ok = false; ++rows; } if (!ok || rows != m) c.fail("print_dense_fd:rows", "%d rows of a %dx%d matrix", rows, m, n); unlink(fn.c_str()); }
  int mode = r.range(0, 3); std::string txt; c.note("array %dx%d mode %d", m, n, mode);
  std::string head = "%%MatrixMarket matrix array real general\n", size = std::to_string(m) + " " + std::to_string(n) + "\n";
  if (mode == 0) { txt = head + (r.chance(0.5) ? "% c\n" : "") + size; for (double x : v) txt += num(r, x, 0) + "\n"; }
  else if (mode == 1) {  // what the library prints is what it reads
    std::string fn = c.workdir + "/d.mtx"; std::ofstream o(fn); c.stage("print_dense"); sym_lib::print_dense(m, n, m, v.data(), o.rdbuf(), r.chance(0.5) ? "  " : " "); o.close();
    std::ifstream in(fn); std::stringstream ss; ss << in.rdbuf(); txt = ss.str();
  } else if (mode == 2) { txt = head + size; int k = r.range(0, m * n - 1); for (int q = 0; q < k; ++q) txt += num(r, v[q], 0) + "\n"; if (r.chance(0.3)) txt += "abc\n"; }
  else { int q = r.range(0, 5); if (q == 5) txt = head + r.pick(std::vector<std::string>{"65536 65536", "50000 50000", "2147483647 2", "70000 61356", "4294967297 1", "1 4294967297"}) + "\n1\n2\n"; else if (q == 0) txt = "%%MatrixMarket matrix coordinate real general\n1 1 1\n1 1 1\n"; else if (q == 1) txt = "%%MatrixMarket matrix array complex general\n1 1\n1 1\n"; else if (q == 2) txt = "%%MatrixMarket matrix array real symmetric\n2 2\n1\n2\n3\n"; else if (q == 3) txt = head; else txt = head + "-2 -3\n"; }
  std::string fn = put(c, txt); c.stage("load_mtx_array_real"); Out o = do_read(2, fn, false); c.add("obs.arrays");
  if (mode >= 2) { c.add("obs.bad_arrays"); if (o.D) c.fail("load_mtx_array_real:accepts", "accepts %s", txt.substr(0, 200).c_str()); return; }
  std::string w = mode == 0 ? "load_mtx_array_real" : "print_dense";
  if (!o.D) { c.fail(w + ":refused", "a well-formed array file is refused"); return; }
  if ((int)o.D->row != m || (int)o.D->col != n) { c.fail(w + ":size", "%zux%zu instead of %dx%d", o.D->row, o.D->col, m, n); return; }
  for (int q = 0; q < m * n; ++q) if (!same_val(o.D->a[q], v[q])) { c.fail(w + ":value", "entry %d is %.17g instead of %.17g", q, o.D->a[q], v[q]); break; }
  unlink(fn.c_str()); std::string miss = fn; bool thrown = false;
  try { sym_lib::Dense *D = nullptr; sym_lib::load_mtx_array_real(miss, D); } catch (const sym_lib::read_file_error &) { thrown = true; }
  if (!thrown) c.fail("load_mtx_array_real:missing", "a missing file is not reported");
}
std::vector<Ent> entries_of(const File &f) { return f.e; }
void writers(Ctx &c) {
  Rng &r = c.rng; bool sym = r.chance(0.5); File f = gen_file(c, 0, sym, c.idx % 200 == 78 ? 150000 : 20); auto A = to_csc(f);
  c.mix(f.m); c.mix(f.n); for (auto &e : f.e) { c.mix(e.r); c.mix(e.c); } c.nontrivial = f.e.size() > 1;
  int mode = r.range(0, 4); std::string fn = c.workdir + "/w.mtx"; unlink(fn.c_str());
  c.note("writer %d of %dx%d sym=%d with %zu entries", mode, f.m, f.n, sym, f.e.size());
  auto both = [&](const std::string &w, const std::vector<Ent> &e, int st, int m, int n) { for (int q = 0; q < 2; ++q) { c.stage(w + "+" + RD[q]); Out o = do_read(q, fn, false); compare(c, w, o.A.get(), m, n, e, st); } c.add("obs.round_trips"); };
  if (mode == 0) { c.stage("CSC_to_mtx"); sym_lib::CSC_to_mtx(fn, A.get()); both("CSC_to_mtx", f.e, sym ? -1 : 0, f.m, f.n); }
  else if (mode == 1) {
    std::ofstream o(fn); c.stage("print_csc_templated"); std::string h = sym ? "%%MatrixMarket matrix coordinate real symmetric" : "%%MatrixMarket matrix coordinate real general";
    sym_lib::print_csc_templated<double>(f.m, f.n, A->p, A->i, A->x, o.rdbuf(), r.chance(0.5) ? "  " : "", h); o.close(); both("print_csc_templated", f.e, sym ? -1 : 0, f.m, f.n);
  } else if (mode == 2 || mode == 3) {  // descriptor printers: square, twelve decimals
    File g = gen_file(c, 1, r.chance(0.5), 15); if (g.m != g.n) { g.n = g.m; g.e.clear(); for (int j = 0; j < g.n; ++j) g.e.push_back({r.range(0, g.m - 1), j, 0}); }
    for (auto &e : g.e) e.v = r.range(-4000000, 4000000) / 4096.0; auto B = to_csc(g); int fd = open(fn.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    std::string h = std::string("%%MatrixMarket matrix coordinate real ") + (g.sym ? "symmetric" : "general");
    if (mode == 2) { c.stage("print_csc"); if (r.chance(0.5)) sym_lib::print_csc(fd, h, B.get()); else sym_lib::print_csc(fd, h, g.n, B->p, B->i, B->x); close(fd); both("print_csc", g.e, g.sym ? -1 : 0, g.m, g.n); }
    else { c.stage("print_csr"); for (auto &e : g.e) std::swap(e.r, e.c); sym_lib::print_csr(fd, "%%MatrixMarket matrix coordinate real general", g.n, B->p, B->i, B->x); close(fd); both("print_csr", g.e, 0, g.m, g.n); }
  } else {
    Dag d = gen_dag(r, 20); if (d.n >= 1) { Mat M = mat_from_dag(r, r.chance(0.5) ? cholesky_fill(d) : d); std::unique_ptr<CSC> L(new CSC(M.m, M.n, M.i.size()));
      std::copy(M.p.begin(), M.p.end(), L->p); std::copy(M.i.begin(), M.i.end(), L->i); std::copy(M.x.begin(), M.x.end(), L->x);
      c.stage("BCSC_to_mtx"); sym_lib::BCSCMatrix B(L.get()); sym_lib::BCSC *b = B.getBCSC(); sym_lib::BCSC_to_mtx(fn, b);
      for (int q = 0; q < 2; ++q) { Out o = do_read(q, fn, false); std::string w = "BCSC_to_mtx"; if (!o.A) { c.fail(w + ":refused", "its file cannot be read back by %s", RD[q]); continue; }
        structural(c, w, o.A.get()); if ((int)o.A->m != M.m || (int)o.A->n != M.n) { c.fail(w + ":size", "wrong size"); continue; }
        std::vector<double> a(M.m * M.n, 0), e = dense_of(M); for (int j = 0; j < M.n; ++j) for (int k = o.A->p[j]; k < o.A->p[j + 1]; ++k) a[o.A->i[k] + (size_t)j * M.m] += o.A->x[k];
        if (a != e) c.fail(w + ":value", "the written file is not the matrix"); }
      c.add("obs.round_trips"); }
  }
}
void printers(Ctx &c) {
  if (c.shared) return;
  Rng &r = c.rng; Dag d = gen_dag(r, 30); auto lev = longest_path_levels(d); int nl = 0; for (int x : lev) nl = std::max(nl, x + 1);
  std::vector<int> lp(nl + 1, 0), set; for (int l = 0; l < nl; ++l) { for (int v = 0; v < d.n; ++v) if (lev[v] == l) set.push_back(v); lp[l + 1] = (int)set.size(); }
  mix_dag(c, d); c.nontrivial = d.n > 1; c.note("printers for %s", dag2s(d).c_str());
  std::stringstream ss; auto *old = std::cout.rdbuf(ss.rdbuf());
  c.stage("print_level_set"); sym_lib::print_level_set("", nl, lp.data(), set.data()); std::string a = ss.str(); ss.str("");
  std::vector<int> pp, lpp(nl + 1, 0); pp.push_back(0); for (int l = 0; l < nl; ++l) { int k = lp[l]; while (k < lp[l + 1]) { k = std::min(lp[l + 1], k + r.range(1, 3)); pp.push_back(k); } lpp[l + 1] = (int)pp.size() - 1; }
  c.stage("print_hlevel_set"); sym_lib::print_hlevel_set("", nl, lpp.data(), pp.data(), set.data()); std::string b = ss.str(); ss.str("");
  c.stage("print_vec"); std::vector<double> v; for (int k = 0; k < 10; ++k) v.push_back(r.range(-1000, 1000) / 8.0); int b0 = r.range(0, 9), e0 = r.range(b0, 10); sym_lib::print_vec<double>("h: ", b0, e0, v.data()); std::string pv = ss.str(); ss.str("");
  std::cout.rdbuf(old);
  auto parse = [](const std::string &s) { std::vector<double> o; std::string t; for (char ch : s) { if (isdigit(ch) || ch == '-' || ch == '.' || ch == 'e') t += ch; else { if (!t.empty()) o.push_back(atof(t.c_str())); t.clear(); } } if (!t.empty()) o.push_back(atof(t.c_str())); return o; };
  std::vector<double> ex(set.begin(), set.end());
  if (parse(a) != ex || std::count(a.begin(), a.end(), '\n') != nl) c.fail("print_level_set:text", "prints %s", a.c_str());
  if (parse(b) != ex || std::count(b.begin(), b.end(), ';') != (int)pp.size() - 1) c.fail("print_hlevel_set:text", "prints %s", b.c_str());
  if (pv.compare(0, 3, "h: ") || parse(pv.substr(3)) != std::vector<double>(v.begin() + b0, v.begin() + e0)) c.fail("print_vec:text", "prints %s", pv.c_str());
  // small typed values and indented text survive a round trip
  std::string fn = c.workdir + "/t.txt"; double x = value(r, 0), y = -7; { std::ofstream o(fn); c.stage("print_constant"); sym_lib::print_constant<double>(x, o.rdbuf(), "  "); } { std::ifstream in(fn); sym_lib::read_real_constant(in, y); }
  if (!same_val(x, y)) c.fail("print_constant:value", "%.17g comes back as %.17g", x, y);
  std::string text; for (int k = r.range(1, 5); k > 0; --k) text += r.pick(std::vector<std::string>{"a: 1", "hello world", "x,y ; z", "0.5"}) + "\n"; std::string back;
  { std::ofstream o(fn); c.stage("print_string"); sym_lib::print_string(text, o.rdbuf(), "  "); o << "end\n"; } { std::ifstream in(fn); c.stage("read_string"); sym_lib::read_string(in, back, "  "); std::string nx; std::getline(in, nx); if (nx != "end") c.fail("read_string:rest", "reads past the indented block"); }
  if (back != text) c.fail("read_string:text", "'%s' comes back as '%s'", text.c_str(), back.c_str());
  c.add("obs.printed");
}
void io_case(Ctx &c) {
  double u = c.rng.unit();
  if (u < 0.35) good_files(c); else if (u < 0.7) bad_files(c); else if (u < 0.78) arrays(c); else if (u < 0.95) writers(c); else printers(c);
}
VH_PROP(C18, io_case);
}  // namespace
