// C31, second part: threads that share the matrices, graphs and trees they inspect (each routine may
// only read its inputs), with outputs of their own.
#include "vh.h"
#include "aggregation/BCSCMatrix.h"
#include "aggregation/amd.h"
#include "aggregation/def.h"
#include "aggregation/group.h"
#include "aggregation/group_utils.h"
#include "aggregation/hdagg.h"
#include "aggregation/lbc.h"
#include "aggregation/lfactor_creation.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/sparse_utilities.h"
#include <atomic>
#include <memory>
#include <thread>
using namespace vh;
using namespace sym_lib;
namespace {
// everything a call may read; made before the threads start and never touched by the harness afterwards
struct In {
  Dag d; int n; std::vector<int> rp, ri, tree, post, perm, gp, gs; std::vector<double> w; std::vector<size_t> P, I; std::vector<int> id, nchild;
  std::unique_ptr<CSC> low, up, full; std::unique_ptr<CSR> csr;
  int parts, dist, div, cores; bool bin, po;
};
std::unique_ptr<CSC> mat(Rng &r, int n, const std::vector<int> &p, const std::vector<int> &i, int st) {
  std::unique_ptr<CSC> A(new CSC(n, n, i.size())); std::copy(p.begin(), p.end(), A->p); std::copy(i.begin(), i.end(), A->i);
  for (size_t k = 0; k < i.size(); ++k) A->x[k] = r.range(1, 99) / 8.0; A->stype = st; A->nnz = i.size(); return A;
}
template <class F> auto hold(F *x) -> std::unique_ptr<F> { return std::unique_ptr<F>(x); }
void csc(Ctx &c, CSC *A, CSC *in = nullptr) { auto h = hold(A == in ? nullptr : A);   // the input itself may come back
  c.out(A->m); c.out(A->n); c.out((int)A->stype); c.outp(A->p, A->n + 1); c.outp(A->i, A->p[A->n]); if (A->x) c.outp(A->x, A->p[A->n]); }
void csr(Ctx &c, CSR *A) { auto h = hold(A); c.outp(A->p, A->m + 1); c.outp(A->i, A->p[A->m]); if (A->x) c.outp(A->x, A->p[A->m]); }
void sched(Ctx &c, int nl, int *lp, int *pp, int *np) { c.out(nl); if (nl > 0) { c.outp(lp, nl + 1); c.outp(pp, lp[nl] + 1); c.outp(np, pp[lp[nl]]); } delete[] lp; delete[] pp; delete[] np; }
void vsched(Ctx &c, int nl, const std::vector<int> &lp, const std::vector<int> &pp, const std::vector<int> &np) { c.out(nl); c.outp(lp.data(), nl + 1); c.outp(pp.data(), lp[nl] + 1); c.outp(np.data(), pp[lp[nl]]); }
int *m(const std::vector<int> &v) { return const_cast<int *>(v.data()); }
double *m(const std::vector<double> &v) { return const_cast<double *>(v.data()); }
struct Call { const char *name; void (*fn)(Ctx &, In &); };
#define CALL(NAME, ...) {#NAME, [](Ctx &c, In &in) { int n = in.n, nl = 0, pn = 0, *lp = nullptr, *pp = nullptr, *np = nullptr; int *p = m(in.d.p), *i = m(in.d.i); double *w = m(in.w); (void)n, (void)nl, (void)pn, (void)lp, (void)pp, (void)np, (void)p, (void)i, (void)w; __VA_ARGS__ }}
const Call calls[] = {
  CALL(level_set, nl = build_levelSet_CSC((size_t)n, p, i, lp, pp); c.out(nl); c.outp(lp, nl + 1); c.outp(pp, n); delete[] lp; delete[] pp;),
  CALL(level_set_queue, std::vector<int> a(n + 1, 0); std::vector<int> b(n, 0); int *x = a.data(); int *y = b.data(); nl = buildLevelSet_CSC_Queue(n, (int)in.d.nnz(), p, i, x, y); c.out(nl); c.outp(x, nl + 1); c.outp(y, n);),
  CALL(level_set_blocked, size_t *ls = nullptr; nl = build_levelSet_BCSC(n, (int)in.d.nnz(), in.P.data(), in.I.data(), i, n, in.id.data(), in.id.data(), lp, ls); c.out(nl); c.outp(lp, nl + 1); c.outp(ls, n); delete[] lp; delete[] ls;),
  CALL(level_set_tree, std::vector<int> a(n + 1, 0); std::vector<int> b(n, 0); nl = build_level_set_tree((size_t)n, in.tree.data(), a.data(), b.data()); c.out(nl); c.outp(a.data(), nl + 1); c.outv(b);),
  CALL(lbc_dag, get_coarse_levelSet_DAG_CSC(n, p, i, nl, lp, pn, pp, np, in.parts, in.dist, in.div, w, in.bin); sched(c, nl, lp, pp, np);),
  CALL(lbc_dag03, get_coarse_Level_set_DAG_CSC03(n, p, i, nl, lp, pn, pp, np, in.parts, in.dist, in.div, w); sched(c, nl, lp, pp, np);),
  CALL(lbc_dag03_par, get_coarse_Level_set_DAG_CSC03_parallel(n, p, i, nl, lp, pn, pp, np, in.parts, in.dist, in.div, w, 1, in.bin); sched(c, nl, lp, pp, np);),
  CALL(lbc_dag_tree, get_coarse_levelSet_DAG_CSC_tree(n, p, i, -1, nl, lp, pn, pp, np, in.parts, in.dist, in.div, w); sched(c, nl, lp, pp, np);),
  CALL(lbc_tree, get_coarse_levelSet_tree(n, in.tree.data(), nl, lp, pn, pp, np, in.parts, in.dist, in.div, w); sched(c, nl, lp, pp, np);),
  CALL(lbc_blocked, int *pls = nullptr; getCoarseLevelSet_DAG_BCSC02(n, in.P.data(), in.I.data(), i, in.id.data(), in.id.data(), nl, lp, pls, pn, pp, np, in.parts, in.dist, in.div, w); sched(c, nl, lp, pp, np); delete[] pls;),
  CALL(hdagg, std::vector<int> a; std::vector<int> b; std::vector<int> e; c.outv(HDAGG::HDAGG(n, (int)in.d.nnz(), in.d.p, in.d.i, in.w, in.cores, nl, a, b, e, false, in.po, in.bin)); vsched(c, nl, a, b, e);),
  CALL(glc, std::vector<int> a; std::vector<int> b; std::vector<int> e; c.outv(HDAGG::GLC_V2(n, (int)in.d.nnz(), in.d.p, in.d.i, in.w, in.cores, nl, a, b, e, false, in.po, in.bin)); vsched(c, nl, a, b, e);),
  CALL(coarsened_levels, std::vector<int> a; std::vector<int> b; std::vector<int> e; HDAGG::build_coarsened_level_parallel(n, p, i, in.cores, nl, a, b, e); vsched(c, nl, a, b, e);),
  CALL(sparsify, std::vector<int> a; std::vector<int> b; HDAGG::partialSparsification(n, (int)in.d.nnz(), p, i, a, b, in.bin); c.outv(a); c.outv(b);),
  CALL(tree_grouping, int ng = 0; std::vector<int> a; std::vector<int> b; HDAGG::treeBasedGrouping(n, in.d.p, in.d.i, ng, a, b, in.bin); c.out(ng); c.outv(b);),
  CALL(tree_grouping_bfs, int ng = 0; std::vector<int> a; std::vector<int> b; HDAGG::treeBasedGroupingBFS(n, in.d.p, in.d.i, ng, a, b, in.bin); c.out(ng); c.outv(b);),
  CALL(chain_grouping, int ng = 0; std::vector<int> a; std::vector<int> b; HDAGG::chainGrouping(n, in.d.p, in.d.i, ng, a, b); c.out(ng); c.outv(b);),
  CALL(group_dag, std::vector<int> a; std::vector<int> b; HDAGG::buildGroupDAG(n, (int)in.gp.size() - 1, in.gp.data(), in.gs.data(), p, i, a, b); c.outv(a); c.outv(b);),
  CALL(post_order, std::vector<int> a; HDAGG::computePostOrder(n, p, i, a); c.outv(a);),
  CALL(costs, std::vector<double> a; HDAGG::costComputation(n, p, i, in.rp.data(), in.ri.data(), (HDAGG::Kernel)(in.cores % 7), nullptr, nullptr, false, a); c.outv(a);),
  CALL(costs_grouped, std::vector<double> a; HDAGG::costComputation((int)in.gp.size() - 1, p, i, in.rp.data(), in.ri.data(), (HDAGG::Kernel)(in.parts % 7), in.gp.data(), in.gs.data(), true, a); c.outv(a);),
  CALL(row_pattern, if (n >= 2) { std::vector<bool> v(n, false); std::vector<int> s(n, 0); for (int k = 0; k < n; ++k) { int t = HDAGG::computeNoneZeroPatternOfRowK(n, in.rp.data(), in.ri.data(), k, in.tree.data(), s.data(), v); c.out(t); c.outp(s.data() + t, n - t); } }),
  CALL(ereach, std::vector<int> s(n, 0); std::vector<int> v(n, 0); for (int k = 0; k < n; ++k) { int t = sym_lib::ereach(n, in.up->p, in.up->i, k, in.tree.data(), s.data(), v.data()); c.out(t); if (t >= 0) c.outp(s.data() + t, n - t); }),
  CALL(etree, std::vector<int> t(n, -7); c.out(compute_etree(in.up.get(), t.data())); c.outv(t);),
  CALL(etree_general, std::vector<int> t(n, -7); c.out(compute_etree(in.full.get(), t.data())); c.outv(t);),
  CALL(tree_post_order, std::vector<int> t(n, -7); c.out(sym_lib::tree_post_order(m(in.tree), n, nullptr, t.data())); c.outv(t);),
  CALL(counts, std::vector<int> a(n, 0); std::vector<int> b(n, 0); std::vector<int> e(n, 0); std::vector<int> f(n, 0); size_t fl = 0; if (row_col_counts_symmetric(in.low.get(), m(in.tree), m(in.post), a.data(), b.data(), e.data(), f.data(), fl)) { c.outv(a); c.outv(b); }),
  CALL(children, std::vector<int> a(n + 1, 0); std::vector<int> b(n, 0); std::vector<int> e(n, 0); populate_children(n, in.tree.data(), a.data(), b.data(), e.data()); c.outv(a); c.outv(e);),
  CALL(tree_height, c.out(get_tree_height(n, in.tree.data(), m(in.nchild), nullptr)); c.out(get_tree_height_efficient(n, in.tree.data(), in.nchild.data(), nullptr)); for (int k = 0; k < n; k += 3) c.out(get_node_depth(k, n, in.tree.data()));),
  CALL(subtree_cost, double *x = compute_subtree_cost(n, in.tree.data(), w); c.outp(x, n); delete[] x;),
  CALL(coarsen, csc(c, coarsen_k_times(n, (int)in.d.nnz(), p, i, -1, 2));),
  CALL(merge, int *gp[2] = {p, p}; int *gi[2] = {i, i}; csc(c, merge_graph(2, n, gp, gi));),
  CALL(csc_to_csr, csr(c, sym_lib::csc_to_csr(in.low.get()));),
  CALL(csr_to_csc, csc(c, sym_lib::csr_to_csc(in.csr.get()));),
  CALL(transpose_general, csc(c, sym_lib::transpose_general(in.full.get()));),
  CALL(transpose_symmetric, csc(c, sym_lib::transpose_symmetric(in.low.get(), m(in.perm)));),
  CALL(transpose_symmetric_up, csc(c, sym_lib::transpose_symmetric(in.up.get(), nullptr));),
  CALL(make_half, csc(c, sym_lib::make_half(n, in.full->p, in.full->i, in.full->x, in.bin));),
  CALL(make_full, csc(c, sym_lib::make_full(in.low.get()));),
  CALL(make_symmetric, csc(c, sym_lib::make_symmetric(in.low.get(), in.bin), in.low.get());),
  CALL(copy_sparse, csc(c, sym_lib::copy_sparse(in.low.get()));),
  CALL(sparse2dense, if (n <= 150) { std::vector<double> x((size_t)n * n, 0); sym_lib::sparse2dense(in.low.get(), x.data()); c.outv(x); }),
  CALL(column_counts, std::vector<double> x(n, 0); compute_nnz_per_col(in.low.get(), x.data()); c.outv(x); c.out(number_empty_col(in.full.get())); c.out((int)verify_csc_diagonal(in.low.get())); int *q = extract_diagonals(n, p, i); c.outp(q, n); delete[] q;),
  CALL(inv_perm, std::vector<int> x(n, 0); sym_lib::inv_perm(n, m(in.perm), x.data()); c.outv(x);),
  CALL(supernodes, BCSCMatrix B(in.low.get()); BCSC *b = B.getBCSC(); c.out((int)b->nodes); c.outp(b->supernodes, b->nodes + 1); c.outp(b->p, n + 1); csc(c, B.compressed_BCSC_to_CSC());),
  CALL(group_columns, std::vector<int> a(n + 1, 0); std::vector<int> b(n, 0); std::vector<int> e(n, 0); int ng = 0; group g(n, p, i); if (in.bin) g.inspection_spicocsc_v1(a.data(), b.data(), ng, e.data()); else g.inspection_spicocsc_v2(a.data(), b.data(), ng, e.data()); c.out(ng); c.outp(a.data(), ng + 1); c.outv(b); c.outv(e);),
  CALL(group_rows, std::vector<int> a(n + 1, 0); std::vector<int> b(n, 0); std::vector<int> e(n, 0); int ng = 0; group g(n, m(in.rp), m(in.ri)); if (in.bin) g.inspection_sptrsvcsr_v1(a.data(), b.data(), ng, e.data()); else g.inspection_sptrsvcsr_v2(a.data(), b.data(), ng, e.data()); c.out(ng); c.outp(a.data(), ng + 1); c.outv(b); c.outv(e);),
  CALL(amd, std::vector<int> q(n, 0); c.out(amd_order(n, in.full->p, in.full->i, q.data(), nullptr, nullptr)); c.outv(q);),
};
const int NC = sizeof calls / sizeof *calls;
void shared_inputs(Ctx &c) {
  Rng &r = c.rng; giant(); In in; do in.d = gen_dag(r, 120); while (in.d.n > 500); if (r.chance(0.3)) in.d = cholesky_fill(in.d); int n = in.n = in.d.n;
  mix_dag(c, in.d); c.nontrivial = in.d.edges() > 0; c.note("%s", dag2s(in.d).c_str());
  const Dag &d = in.d; in.rp.assign(n + 1, 0); for (int x : d.i) in.rp[x + 1]++; for (int k = 0; k < n; ++k) in.rp[k + 1] += in.rp[k];
  in.ri.resize(d.i.size()); { std::vector<int> pos(in.rp.begin(), in.rp.end() - 1); for (int j = 0; j < n; ++j) for (int k = d.p[j]; k < d.p[j + 1]; ++k) in.ri[pos[d.i[k]]++] = j; }
  in.tree = ref_etree(d); in.nchild.assign(n, 0); for (int t : in.tree) if (t >= 0) in.nchild[t]++;
  { std::vector<std::vector<int>> ch(n); for (int v = 0; v < n; ++v) if (in.tree[v] >= 0) ch[in.tree[v]].push_back(v);   // a post order without recursion
    for (int v = 0; v < n; ++v) if (in.tree[v] < 0) { std::vector<std::pair<int, size_t>> st{{v, 0}}; while (!st.empty()) { int x = st.back().first; if (st.back().second < ch[x].size()) { int y = ch[x][st.back().second++]; st.push_back({y, 0}); } else { in.post.push_back(x); st.pop_back(); } } } }
  for (int k = 0; k < n; ++k) in.perm.push_back(k); r.shuffle(in.perm);
  in.gp.push_back(0); for (int k = 0; k < n; ++k) in.gs.push_back(k); for (int k = 0; k < n;) { k = std::min(n, k + r.range(1, 4)); in.gp.push_back(k); }
  for (int k = 0; k < n; ++k) in.w.push_back(r.range(1, 20)); in.P.assign(d.p.begin(), d.p.end()); in.I = in.P; for (int k = 0; k <= n; ++k) in.id.push_back(k);
  in.low = mat(r, n, d.p, d.i, -1); in.up = mat(r, n, in.rp, in.ri, 1);
  { std::vector<int> p(1, 0), i; for (int j = 0; j < n; ++j) { for (int k = in.rp[j]; k < in.rp[j + 1] - 1; ++k) i.push_back(in.ri[k]); for (int k = d.p[j]; k < d.p[j + 1]; ++k) i.push_back(d.i[k]); p.push_back((int)i.size()); } in.full = mat(r, n, p, i, 0); }
  in.csr.reset(new CSR(n, n, d.i.size())); std::copy(in.rp.begin(), in.rp.end(), in.csr->p); std::copy(in.ri.begin(), in.ri.end(), in.csr->i); for (size_t k = 0; k < d.i.size(); ++k) in.csr->x[k] = (double)k;
  in.parts = r.range(2, 8); in.dist = r.range(1, 6); in.div = r.range(2, 5); in.cores = r.range(1, 12); in.bin = r.chance(0.5); in.po = r.chance(0.3);
  int k = r.range(2, 4); std::vector<std::vector<int>> job(k); for (auto &j : job) for (int q = r.range(4, 10); q > 0; --q) j.push_back(r.range(0, NC - 1));
  if (r.chance(0.5)) { int q = c.idx % NC; for (auto &j : job) j[0] = q; }                // the same routine first, on the same input
  std::vector<std::unique_ptr<Ctx>> got; for (auto &j : job) for (size_t q = 0; q < j.size(); ++q) { got.emplace_back(new Ctx(1)); got.back()->shared = true; }
  c.stage("shared_inputs");
  std::atomic<int> ready(0); std::vector<std::thread> th; size_t base = 0;
  for (int t = 0; t < k; ++t) { th.emplace_back([&, t, base] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < k) std::this_thread::yield();
    for (size_t q = 0; q < job[t].size(); ++q) { Ctx &x = *got[base + q]; const Call &f = calls[job[t][q]]; x.cur = f.name; f.fn(x, in); } }); base += job[t].size(); }
  for (auto &x : th) x.join();
  base = 0;
  for (int t = 0; t < k; ++t) for (int q : job[t]) { Ctx &x = *got[base++], y(1); y.shared = true; y.cur = calls[q].name; calls[q].fn(y, in); c.add("obs.shared_calls"); c.add(std::string("obs.shared_") + calls[q].name); c.mix(x.dig[y.cur]);
    if (x.dig[y.cur] != y.dig[y.cur]) c.fail(y.cur + ":shared_input", "%s: another result while other threads read the same input", y.cur.c_str()); }
  c.add("obs.shared_threads", k);
}
VH_PROP(C31S, shared_inputs);
}  // namespace
