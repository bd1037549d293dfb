// Shared harness core: random inputs, monitors (oracles) and reporting.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>

namespace vh {

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int range(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }  // inclusive
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
  template <class T> void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]);
  }
};

// ------------------------------------------------------------------- context
struct Violation { std::string key, msg; };

struct Ctx {
  Rng rng;
  long idx = 0;
  bool thorough = false;
  bool verbose = false;
  bool shared = false;                 // other threads are at work: leave the process-wide streams alone
  std::string workdir;                 // scratch directory owned by this run
  std::string desc;                    // the case, written out
  std::map<std::string, long> cnt;     // what the monitors observed
  std::vector<Violation> viol;
  uint64_t hash = 1469598103934665603ull;
  bool nontrivial = false;
  std::string cur;                               // the call being observed
  std::map<std::string, uint64_t> dig;           // digest of everything each call produced
  explicit Ctx(uint64_t seed) : rng(seed) {}
  void add(const std::string &k, long v = 1) { cnt[k] += v; }
  void mix(uint64_t v) { hash = (hash ^ v) * 1099511628211ull; hash ^= hash >> 29; }
  void mixv(const std::vector<int> &v) { mix(v.size()); for (int x : v) mix((uint64_t)(uint32_t)x); }
  // record an output of the current call
  void out(uint64_t v) { uint64_t &h = dig[cur]; h = ((h ? h : 1469598103934665603ull) ^ v) * 1099511628211ull; h ^= h >> 29; }
  template <class T> void outp(const T *v, size_t n) { out(n); for (size_t k = 0; k < n; ++k) out(bits(v[k])); }
  template <class T> void outv(const std::vector<T> &v) { outp(v.data(), v.size()); }
  static uint64_t bits(double v) { uint64_t b; memcpy(&b, &v, 8); return b; }
  static uint64_t bits(int v) { return (uint32_t)v; }
  static uint64_t bits(size_t v) { return v; }
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void fail(const std::string &key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
  // announce the call about to be made so that a crash is attributed to it
  void stage(const std::string &s);
};

typedef void (*CaseFn)(Ctx &);
// what is printed through the C library or file descriptor 1 while it lives
struct Printed {
  int old = -1; FILE *t = nullptr;
  Printed() { fflush(stdout); t = tmpfile(); old = dup(1); if (t && old >= 0) dup2(fileno(t), 1); }
  std::string text() { std::string s; if (old >= 0) { fflush(stdout); dup2(old, 1); close(old); old = -1; } if (t) { fseek(t, 0, SEEK_SET); char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, t)) > 0) s.append(b, k); fclose(t); t = nullptr; } return s; }
  ~Printed() { text(); }
};
struct Prop { const char *id; CaseFn fn; };
void register_prop(const char *id, CaseFn fn);
const std::vector<Prop> &all_props();
struct Reg { Reg(const char *id, CaseFn fn) { register_prop(id, fn); } };
#define VH_PROP(ID, FN) static vh::Reg reg_##ID##_##FN(#ID, FN)

std::string vec2s(const std::vector<int> &v, size_t lim = 400);
std::string vec2s(const std::vector<double> &v, size_t lim = 200);

// exact-size heap arrays so that red zones sit right behind the data
struct IArr {
  int *d; size_t n;
  explicit IArr(size_t n_) : d(new int[n_ ? n_ : 1]), n(n_) {}
  explicit IArr(const std::vector<int> &v) : d(new int[v.size() ? v.size() : 1]), n(v.size()) { std::copy(v.begin(), v.end(), d); }
  ~IArr() { delete[] d; }
  IArr(const IArr &) = delete; IArr &operator=(const IArr &) = delete;
  operator int *() { return d; }
  std::vector<int> vec() const { return std::vector<int>(d, d + n); }
};
struct DArr {
  double *d; size_t n;
  explicit DArr(size_t n_) : d(new double[n_ ? n_ : 1]), n(n_) {}
  explicit DArr(const std::vector<double> &v) : d(new double[v.size() ? v.size() : 1]), n(v.size()) { std::copy(v.begin(), v.end(), d); }
  ~DArr() { delete[] d; }
  DArr(const DArr &) = delete; DArr &operator=(const DArr &) = delete;
  operator double *() { return d; }
  std::vector<double> vec() const { return std::vector<double>(d, d + n); }
};

// ---------------------------------------------------------------------- DAGs
// Column-compressed lower triangular pattern, diagonal first, rows ascending:
// the form every scheduler in the repository documents as its input.
struct Dag {
  int n = 0;
  std::vector<int> p, i;
  std::string kind;
  long nnz() const { return (long)i.size(); }
  long edges() const { return (long)i.size() - n; }
};
Dag dag_from_edges(int n, std::vector<std::pair<int, int>> e, const std::string &kind);
Dag gen_dag(Rng &r, int max_n);
bool giant();        // this case is to have more than 65536 rows (asking clears it)
bool giant_next();   // the same, without clearing
Dag gen_dag_kind(Rng &r, int kind, int n);
extern const int N_DAG_KINDS;
Dag cholesky_fill(const Dag &d);                 // pattern of L for the symmetric pattern of d
Dag relabel_topological(Rng &r, const Dag &d);   // random order-respecting renumbering
std::vector<int> longest_path_levels(const Dag &d);
std::vector<int> ref_etree(const Dag &d);        // elimination tree of the symmetric pattern
std::string dag2s(const Dag &d);
void mix_dag(Ctx &c, const Dag &d);
// reachability closure (n small): bit (u,v) set iff path u->v
std::vector<std::vector<uint64_t>> closure(int n, const std::vector<int> &p, const std::vector<int> &i);

// ------------------------------------------------------------ schedule monitor
struct Sched {
  int nlev = 0;
  std::vector<int> lptr, pptr, nset;
};
// Replays the schedule as an event history (level barrier, concurrent parts,
// sequential nodes) and reports anything that is not a complete, exactly-once,
// dependence-respecting execution of d.  Returns true when the schedule is fine.
bool check_schedule(Ctx &c, const std::string &who, const Dag &d, const Sched &s, int max_parts = -1);
// only structure: pointers monotone, every node exactly once
bool check_schedule_shape(Ctx &c, const std::string &who, int n, const Sched &s);

// what aggregation does to the wavefronts (lev: longest-path level per node): every level of the schedule
// holds whole, consecutive wavefronts and, if asked, every part is one connected piece of its level
Dag gen_layers(Rng &r, int dist, int div);
void check_aggregation(Ctx &c, const std::string &who, const Dag &d, const std::vector<int> &lev, const Sched &s, bool pieces);

// -------------------------------------------------------------- dense matrices
struct Mat {                       // sparse matrix as sorted triplets in CSC
  int m = 0, n = 0;
  std::vector<int> p, i;
  std::vector<double> x;
};
Mat gen_mat(Rng &r, int m, int n, double density, bool full_diag);
Mat mat_from_dag(Rng &r, const Dag &d);          // well conditioned lower triangular values
std::vector<double> dense_of(const Mat &a);      // column major m*n
std::string mat2s(const Mat &a);
}  // namespace vh
