// C24 (memory safety, heap independence) and C25 (determinism, inputs untouched): monitors over the
// calls made by the other properties' workloads.
#include "vh.h"
#include <atomic>
#include <malloc.h>
#include <sys/stat.h>
#include <thread>
using namespace vh;
namespace {
std::vector<Prop> targets(std::initializer_list<const char *> more) {
  static const char *ids[] = {"C01", "C02", "C03", "C04", "C05", "C06", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C20", "C21", "C22", "C23", "C26"};
  std::vector<Prop> t; std::vector<std::string> w(ids, ids + sizeof ids / sizeof *ids); for (auto x : more) w.push_back(x);
  for (auto &id : w) for (auto &p : all_props()) if (id == p.id) t.push_back(p);
  return t;
}
// the heap's past: blocks of many sizes written and released, some kept for the rest of the case
struct Churn {
  std::vector<void *> keep;
  void stir(Rng &r, int k) {
    std::vector<void *> tmp;
    for (int q = 0; q < k; ++q) { size_t n = r.chance(0.8) ? r.range(1, 600) : r.range(600, 40000); void *p = malloc(n); memset(p, r.range(0, 255), n); (r.chance(0.1) ? keep : tmp).push_back(p); }
    r.shuffle(tmp); for (void *p : tmp) free(p);
  }
  ~Churn() { for (void *p : keep) free(p); }
};
void perturb(int byte) {
#ifdef VH_MODE_plain
  mallopt(M_PERTURB, byte ^ 0xff);      // fresh blocks are filled with `byte`
#endif
  (void)byte;
}
struct Res { std::map<std::string, uint64_t> dig; std::map<std::string, long> calls; std::vector<Violation> viol; uint64_t hash; std::string desc; bool nt; };
Res run(Ctx &outer, const Prop &p, uint64_t seed, const std::string *dir = nullptr) {
  Ctx c(seed); c.idx = 1000001; c.thorough = outer.thorough; c.verbose = outer.verbose && !dir; c.workdir = dir ? *dir : outer.workdir; c.shared = dir != nullptr;
  p.fn(c);
  Res r; r.dig = c.dig; r.viol = c.viol; r.hash = c.hash; r.desc = c.desc; r.nt = c.nontrivial;
  for (auto &k : c.cnt) if (k.first.compare(0, 5, "call.") == 0) r.calls[k.first.substr(5)] += k.second;
  return r;
}
void account(Ctx &c, const Prop &p, const Res &a) {
  c.mix(a.hash); c.nontrivial = a.nt; c.note("[%s] ", p.id); c.desc += a.desc;
  long n = 0; for (auto &k : a.calls) n += k.second; c.add("obs.calls", n); c.add(std::string("obs.calls_") + p.id, n); c.add("obs.outputs", (long)a.dig.size());
}
void diff(Ctx &c, const char *what, const char *why, const Res &a, const Res &b) {
  for (auto &k : a.dig) { auto it = b.dig.find(k.first); c.add("obs.outputs_compared"); if (it == b.dig.end() || it->second != k.second) c.fail(k.first + ":" + what, "%s: the output of %s", k.first.c_str(), why); }
  for (auto &k : b.dig) if (!a.dig.count(k.first)) c.fail(k.first + ":" + what, "%s: only one of the two runs got this far", k.first.c_str());
}
// C24: sanitizers (or Memcheck) watch every call; with the plain allocator the outputs are also compared
// between two contents of fresh memory
void memory_case(Ctx &c) {
  static std::vector<Prop> t = targets({"C18", "C27", "C28"});
  const Prop &p = t[c.idx % t.size()]; uint64_t seed = c.rng.next();
  Res a = run(c, p, seed); account(c, p, a);
#ifdef VH_MODE_plain
  if (!getenv("VH_MEMCHECK")) {
    int f1 = 0, f2 = c.rng.pick(std::vector<int>{0xff, 0x01, 0x7f, 0x80, 0x41});
    perturb(f1); Res x = run(c, p, seed); perturb(f2); Res y = run(c, p, seed); perturb(0xff);
    c.add("obs.heap_fills", 2);
    diff(c, "heap_dependent", "depends on what fresh memory contained", x, y);
  }
#endif
}
VH_PROP(C24, memory_case);
// C25: the same call again after other work gives the same outputs; inputs are bit-identical afterwards
void repeat_case(Ctx &c) {
  static std::vector<Prop> t = targets({});
  Rng &r = c.rng; const Prop &p = t[c.idx % t.size()]; uint64_t seed = r.next(); Churn h;
  if (r.chance(0.5)) h.stir(r, 200);
  Res a = run(c, p, seed); account(c, p, a);
  int between = r.range(0, 3);
  for (int k = 0; k < between; ++k) { const Prop &q = r.chance(0.4) ? p : r.pick(t); uint64_t s = r.next(); run(c, q, s); c.add("obs.history_calls"); }
  h.stir(r, 300);
  Res b = run(c, p, seed);
  c.add("obs.repeats");
  diff(c, "differs", "a repeated call differs", a, b);
  for (auto *v : {&a.viol, &b.viol}) for (auto &x : *v) { size_t at = x.key.rfind(':'); std::string k = x.key.substr(at + 1); if (k.size() > 8 && k.compare(k.size() - 8, 8, "_changed") == 0) c.fail(x.key, "%s", x.msg.c_str()); }
}
VH_PROP(C25, repeat_case);
// C31: several threads inspect inputs of their own at the same time; each gets what it gets alone.
// The alone runs come last, so that nothing the library sets up on first use is set up already.
void together_case(Ctx &c) {
  static std::vector<Prop> t = [] { std::vector<Prop> v; for (auto &p : targets({"C18", "C27"})) if (strcmp(p.id, "C17") && strcmp(p.id, "C20")) v.push_back(p); return v; }();   // METIS draws from one process-wide generator
  struct Job { const Prop *p; uint64_t seed; Res a; };
  Rng &r = c.rng; giant(); const Prop &p = t[c.idx % t.size()]; uint64_t seed = r.next(); bool same_call = r.chance(0.75), same_input = same_call && r.chance(0.4);
  int k = r.range(2, 4); std::vector<std::vector<Job>> job(k); std::vector<std::string> dir(k); std::set<std::string> kinds;
  for (int q = 0; q < k; ++q) {
    for (int m = r.range(1, 2); m > 0; --m) { Job j; j.p = q == 0 || same_call ? &p : &r.pick(t); j.seed = q == 0 || same_input ? seed : r.next(); job[q].push_back(j); if (same_input) break; kinds.insert(j.p->id); }
    dir[q] = c.workdir + "/t" + std::to_string(q); mkdir(dir[q].c_str(), 0755);
  }
  c.stage("concurrent");
  std::atomic<int> ready(0), busy(0), most(0), met(0); std::vector<std::thread> th;
  for (int q = 0; q < k; ++q) th.emplace_back([&, q] {
    // relaxed, so that the gate itself orders nothing for the race detector
    ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < k) std::this_thread::yield();
    for (auto &j : job[q]) {
      int b = busy.fetch_add(1, std::memory_order_relaxed) + 1, m = most.load(std::memory_order_relaxed); while (b > m && !most.compare_exchange_weak(m, b, std::memory_order_relaxed)) {}
      if (b > 1) met.fetch_add(1, std::memory_order_relaxed);
      j.a = run(c, *j.p, j.seed, &dir[q]);
      busy.fetch_sub(1, std::memory_order_relaxed);
    }
  });
  for (auto &x : th) x.join();
  c.add("obs.threads", k); c.add("obs.overlapping_inspections", met); c.add(std::string("obs.at_once_") + std::to_string(most.load())); c.add(same_input ? "obs.same_input" : same_call ? "obs.same_routine" : "obs.mixed_routines");
  for (int q = 0; q < k; ++q) for (auto &j : job[q]) {
    account(c, *j.p, j.a); Res b = run(c, *j.p, j.seed, &dir[q]); c.add("obs.inspections");
    diff(c, "concurrent", "depends on what other threads are doing", j.a, b);
    std::set<std::string> alone; for (auto &x : b.viol) alone.insert(x.key);
    for (auto &x : j.a.viol) if (!alone.count(x.key)) c.fail(x.key + ":concurrent", "with other threads at work only: %s", x.msg.c_str());
  }
}
VH_PROP(C31, together_case);
}  // namespace
