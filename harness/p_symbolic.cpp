// Elimination trees, post orders, counts, factor patterns (C16) and the symbolic pipeline (C17).
#include "vh.h"
#include <memory>
#include "aggregation/hdagg.h"
#include "aggregation/lfactor_creation.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/sparse_utilities.h"
using namespace vh;
typedef sym_lib::CSC CSC;
typedef sym_lib::CSR CSR;

namespace {
// rows of L below/at the diagonal as sorted lists, from the column pattern
std::vector<std::vector<int>> rows_of(const Dag &f) {
  std::vector<std::vector<int>> r(f.n);
  for (int j = 0; j < f.n; ++j) for (int k = f.p[j]; k < f.p[j + 1]; ++k) r[f.i[k]].push_back(j);
  return r;
}
// reference post order: children of a node visited by (weight, number), roots by number
std::vector<int> ref_post(const std::vector<int> &par, const std::vector<int> *w) {
  int n = (int)par.size();
  std::vector<std::vector<int>> ch(n + 1);
  for (int j = 0; j < n; ++j) ch[par[j] < 0 ? n : par[j]].push_back(j);
  if (w) for (int p = 0; p < n; ++p)
    std::stable_sort(ch[p].begin(), ch[p].end(), [&](int a, int b) { return std::min(std::max((*w)[a], 0), n - 1) < std::min(std::max((*w)[b], 0), n - 1); });
  std::vector<int> out; std::vector<std::pair<int, size_t>> st;
  for (int root : ch[n]) {
    st.push_back({root, 0});
    while (!st.empty()) {
      int v = st.back().first;
      if (st.back().second < ch[v].size()) { int q = ch[v][st.back().second++]; st.push_back({q, 0}); }
      else { out.push_back(v); st.pop_back(); }
    }
  }
  return out;
}
// is o a post order of the forest: each node once, children first, subtrees contiguous
bool is_post(Ctx &c, const std::string &w, const std::vector<int> &par, const std::vector<int> &o) {
  int n = (int)par.size(); std::vector<int> pos(n, -1), size(n, 1), first(n);
  if ((int)o.size() != n) { c.fail(w + ":size", "%s lists %zu of %d nodes", w.c_str(), o.size(), n); return false; }
  for (int k = 0; k < n; ++k) { if (o[k] < 0 || o[k] >= n || pos[o[k]] >= 0) { c.fail(w + ":perm", "%s is not a permutation: %s", w.c_str(), vec2s(o).c_str()); return false; } pos[o[k]] = k; }
  for (int k = 0; k < n; ++k) { int v = o[k]; if (par[v] >= 0) { if (pos[par[v]] < k) { c.fail(w + ":parent_first", "%s visits %d after its parent %d", w.c_str(), v, par[v]); return false; } } }
  for (int k = 0; k < n; ++k) { int v = o[k]; first[v] = k; }
  for (int k = 0; k < n; ++k) { int v = o[k]; if (par[v] >= 0) { size[par[v]] += size[v]; first[par[v]] = std::min(first[par[v]], first[v]); } }
  for (int v = 0; v < n; ++v) if (pos[v] - first[v] + 1 != size[v]) { c.fail(w + ":contiguous", "%s: subtree of %d has %d nodes spread over %d positions", w.c_str(), v, size[v], pos[v] - first[v] + 1); return false; }
  return true;
}
void shuffle_cols(Rng &r, int n, const std::vector<int> &p, std::vector<int> &i) {
  for (int j = 0; j < n; ++j) { std::vector<int> t(i.begin() + p[j], i.begin() + p[j + 1]); r.shuffle(t); std::copy(t.begin(), t.end(), i.begin() + p[j]); }
}
struct View {  // a pattern held in exact-size arrays
  IArr p, i; CSC a;
  View(int n, const std::vector<int> &P, const std::vector<int> &I, int st) : p(P), i(I), a((size_t)n, (size_t)n, I.size(), (int *)p, (int *)i, st) {}
};

void etree_case(Ctx &c) {
  Rng &r = c.rng;
  Dag d = gen_dag(r, c.thorough ? 400 : 150);
  if (d.n < 20000 && r.chance(0.4)) {  // random symmetric renumbering: non-topological shapes for the tree
    std::vector<int> q(d.n); for (int k = 0; k < d.n; ++k) q[k] = k; r.shuffle(q);
    std::vector<std::pair<int, int>> e; for (int j = 0; j < d.n; ++j) for (int k = d.p[j] + 1; k < d.p[j + 1]; ++k) e.push_back({std::min(q[j], q[d.i[k]]), std::max(q[j], q[d.i[k]])});
    d = dag_from_edges(d.n, e, d.kind + "+shuffled");
  }
  int n = d.n; bool full = r.chance(0.2), unsorted = r.chance(0.3), nodiag = r.chance(0.15);
  mix_dag(c, d); c.mix(full * 4 + unsorted * 2 + nodiag);
  c.note("%s full=%d unsorted=%d nodiag=%d", dag2s(d).c_str(), full, unsorted, nodiag);
  c.nontrivial = d.edges() > 0;
  Dag f = cholesky_fill(d); std::vector<int> par = ref_etree(d); auto lrow = rows_of(f); auto arow = rows_of(d);
  c.add("in.factor_nnz", f.nnz());
  // the same symmetric pattern as lower columns, upper columns (= lower rows), optionally both halves
  std::vector<int> lp(1, 0), li, up(1, 0), ui;
  for (int j = 0; j < n; ++j) {
    for (int k = d.p[j]; k < d.p[j + 1]; ++k) if (!(nodiag && d.i[k] == j)) li.push_back(d.i[k]);
    for (int v : arow[j]) if (!(nodiag && v == j)) ui.push_back(v);
    if (full) {
      for (int v : arow[j]) if (v != j) li.push_back(v);
      for (int k = d.p[j]; k < d.p[j + 1]; ++k) if (d.i[k] != j) ui.push_back(d.i[k]);
    }
    lp.push_back((int)li.size()); up.push_back((int)ui.size());
  }
  if (unsorted) { shuffle_cols(r, n, lp, li); shuffle_cols(r, n, up, ui); }
  View U(n, up, ui, 1), L(n, lp, li, -1);
  {
    IArr P(n); for (int k = 0; k < n; ++k) P[k] = -77; c.stage("compute_etree");
    int ok = sym_lib::compute_etree(&U.a, P); c.outv(P.vec());
    if (!ok || P.vec() != par) c.fail("compute_etree:tree", "tree %s want %s", vec2s(P.vec()).c_str(), vec2s(par).c_str());
    c.stage("compute_etree_lower");
    IArr Q(n); if (sym_lib::compute_etree(&L.a, Q)) c.fail("compute_etree:lower", "a lower half was not rejected");
    c.add("obs.tree_nodes", n);
  }
  {  // column elimination tree: etree of B'B
    int m = r.range(1, std::max(1, n + 3)); Mat B;
    if (n < 20000) B = gen_mat(r, m, n, r.chance(0.5) ? 0.05 : 0.25, false);
    else { m = n + 3; B.m = m; B.n = n; B.p.push_back(0); for (int j = 0; j < n; ++j) { for (int i = j; i < j + 4; ++i) if (r.chance(0.4)) { B.i.push_back(i); B.x.push_back(1); } B.p.push_back((int)B.i.size()); } }
    std::vector<std::pair<int, int>> e; std::vector<std::vector<int>> br(m);
    for (int j = 0; j < n; ++j) for (int k = B.p[j]; k < B.p[j + 1]; ++k) br[B.i[k]].push_back(j);
    for (auto &v : br) for (size_t a = 0; a < v.size(); ++a) for (size_t b = a + 1; b < v.size(); ++b) e.push_back({v[a], v[b]});
    std::vector<int> want = ref_etree(dag_from_edges(n, e, "ata"));
    IArr bp(B.p), bi(B.i); CSC A((size_t)m, (size_t)n, B.i.size(), (int *)bp, (int *)bi, 0); IArr P(n);
    c.note(" B=%s", mat2s(B).c_str());
    c.stage("compute_etree_general");
    int ok = sym_lib::compute_etree(&A, P); c.outv(P.vec());
    if (!ok || P.vec() != want) c.fail("compute_etree:ata", "tree of B'B %s want %s", vec2s(P.vec()).c_str(), vec2s(want).c_str());
  }
  {
    std::vector<int> P; if (r.chance(0.4)) P.assign(r.range(0, 2 * n), 5); c.stage("computeParents");
    int nn = n; HDAGG::computeParents(nn, U.p, U.i, P); c.outv(P);
    if (P != par) c.fail("computeParents:tree", "tree %s want %s", vec2s(P).c_str(), vec2s(par).c_str());
    CSR R((size_t)n, (size_t)n, ui.size(), (int *)U.p, (int *)U.i, -1);
    std::vector<int> tp, ts; int ne = -5; if (r.chance(0.4)) { tp.assign(3, 9); ts.assign(5, 9); }
    c.stage("buildETree");
    HDAGG::buildETree(&R, ne, tp, ts); c.outv(tp); c.outv(ts);
    std::vector<int> wp(1, 0), ws; for (int v = 0; v < n; ++v) { ws.push_back(v); if (par[v] >= 0) ws.push_back(par[v]); wp.push_back((int)ws.size()); }
    if (ne != (int)ws.size() || tp != wp || ts != ws) c.fail("buildETree:graph", "tree graph edges=%d p=%s i=%s want p=%s i=%s", ne, vec2s(tp).c_str(), vec2s(ts).c_str(), vec2s(wp).c_str(), vec2s(ws).c_str());
  }
  // row patterns
  {
    IArr T(par), s(n), w(n); int w0 = r.range(0, 3); for (int k = 0; k < n; ++k) w[k] = w0;
    std::vector<bool> wb(n, false); IArr s2(n);
    // rows handed to the second routine hold only the lower half
    std::vector<int> rp(1, 0), ri; for (int j = 0; j < n; ++j) { for (int v : arow[j]) ri.push_back(v); rp.push_back((int)ri.size()); }
    if (unsorted) shuffle_cols(r, n, rp, ri);
    IArr RP(rp), RI(ri);
    for (int k = 0; k < n; ++k) {
      if (n > 20000 && k % 997 != 5) continue;
      c.stage("ereach");
      int top = sym_lib::ereach(n, U.p, U.i, k, T, s, w);
      std::vector<int> want(lrow[k].begin(), lrow[k].end() - 1);
      auto verify = [&](const std::string &who, const int *st, int tp, int end) {
        if (tp < 0 || tp > end) { c.fail(who + ":top", "%s(%d) returned %d", who.c_str(), k, tp); return; }
        std::vector<int> got(st + tp, st + end), srt = got; c.outv(got); std::sort(srt.begin(), srt.end());
        if (srt != want) { c.fail(who + ":pattern", "row %d is %s want %s", k, vec2s(got).c_str(), vec2s(want).c_str()); return; }
        std::map<int, int> pos; for (size_t a = 0; a < got.size(); ++a) pos[got[a]] = (int)a;
        for (int v : got) if (par[v] >= 0 && pos.count(par[v]) && pos[par[v]] < pos[v]) { c.fail(who + ":order", "row %d lists %d after its ancestor %d", k, v, par[v]); return; }
        c.add("obs.row_entries", (long)got.size());
      };
      verify("ereach", s, top, n);
      for (int q = 0; q < n; ++q) if (w[q] != w0) { c.fail("ereach:workspace", "row %d leaves mark %d at node %d", k, w[q], q); break; }
      if (n >= 2) {
        for (int q = 0; q < n; ++q) s2[q] = 0x7ffffff0;   // workspace content is unspecified
        c.stage("computeNoneZeroPatternOfRowK");
        int t2 = HDAGG::computeNoneZeroPatternOfRowK(n, RP, RI, k, T, s2, wb);
        if (t2 < 0 || t2 >= n || s2[n - 1] != k) c.fail("rowK:last", "row %d: top %d last entry %d", k, t2, s2[n - 1]);
        else verify("rowK", s2, t2, n - 1);
        for (int q = 0; q < n; ++q) if (wb[q]) { c.fail("rowK:workspace", "row %d leaves node %d marked", k, q); break; }
      }
    }
    if (T.vec() != par) c.fail("ereach:input_changed", "tree modified");
    c.stage("ereach_null");
    if (sym_lib::ereach(n, nullptr, U.i, 0, T, s, w) != -1) c.fail("ereach:null", "missing input not reported");
  }
  // post orders: of the elimination tree and of an arbitrary forest
  std::vector<int> post;
  for (int t = 0; t < 2; ++t) {
    std::vector<int> fp = par;
    if (t) { double q = r.unit(); std::vector<int> lab(n); for (int k = 0; k < n; ++k) lab[k] = k; r.shuffle(lab);
      for (int k = 0; k < n; ++k) fp[lab[k]] = (k + 1 < n && r.chance(q)) ? lab[r.range(k + 1, n - 1)] : -1; }
    for (int wv = 0; wv < 2; ++wv) {
      std::vector<int> wt(n); for (int &x : wt) x = r.chance(0.1) ? r.range(-5, 3 * n) : r.range(0, std::max(1, n / 3));
      IArr T(fp), W(wt), P(n); c.stage(wv ? "tree_post_order_weighted" : "tree_post_order");
      int k = sym_lib::tree_post_order(T, n, wv ? (int *)W : nullptr, P);
      std::vector<int> got = P.vec(); c.outv(got);
      if (k != n) c.fail("tree_post_order:count", "returned %d for %d nodes", k, n);
      else if (is_post(c, "tree_post_order", fp, got)) {
        std::vector<int> want = ref_post(fp, wv ? &wt : nullptr);
        if (got != want) c.fail("tree_post_order:siblings", "order %s want %s (tree %s weights %s)", vec2s(got).c_str(), vec2s(want).c_str(), vec2s(fp).c_str(), wv ? vec2s(wt).c_str() : "-");
      }
      if (T.vec() != fp || W.vec() != wt) c.fail("tree_post_order:input_changed", "tree or weights modified");
      if (!t && !wv) post = got;
      if (!t && wv && r.chance(0.5)) post = got;
      c.add("obs.postordered_nodes", n);
    }
  }
  // counts
  {
    std::vector<int> rc(n), cc(n), lev(n, 0), first(n, n); double fl = 0;
    for (int k = 0; k < n; ++k) { rc[k] = (int)lrow[k].size(); cc[k] = f.p[k + 1] - f.p[k]; fl += (double)cc[k] * cc[k]; }
    for (int k = n - 1; k >= 0; --k) if (par[k] >= 0) lev[k] = lev[par[k]] + 1;
    for (int k = 0; k < n; ++k) for (int a = post[k]; a >= 0; a = par[a]) first[a] = std::min(first[a], k);
    bool norow = r.chance(0.3); IArr T(par), P(post), RC(n), CC(n), F(n), V(n); size_t flops = 1; c.stage("row_col_counts_symmetric");
    bool ok = sym_lib::row_col_counts_symmetric(&L.a, T, P, norow ? nullptr : (int *)RC, CC, F, V, flops);
    c.outv(CC.vec()); c.outv(F.vec()); c.outv(V.vec()); c.out(flops); if (!norow) c.outv(RC.vec());
    if (!ok) c.fail("counts:status", "counts of a lower half failed");
    if (CC.vec() != cc) c.fail("counts:col", "column counts %s want %s", vec2s(CC.vec()).c_str(), vec2s(cc).c_str());
    if (!norow && RC.vec() != rc) c.fail("counts:row", "row counts %s want %s", vec2s(RC.vec()).c_str(), vec2s(rc).c_str());
    if (F.vec() != first) c.fail("counts:first", "first descendants %s want %s", vec2s(F.vec()).c_str(), vec2s(first).c_str());
    if (V.vec() != lev) c.fail("counts:level", "levels %s want %s", vec2s(V.vec()).c_str(), vec2s(lev).c_str());
    if ((double)flops != fl) c.fail("counts:flops", "operation count %zu want %.0f", flops, fl);
    c.stage("row_col_counts_upper");
    size_t fl2; if (sym_lib::row_col_counts_symmetric(&U.a, T, P, nullptr, CC, F, V, fl2)) c.fail("counts:upper", "an upper half was not rejected");
    // pattern
    IArr C2(cc); DArr acc(n); c.stage("build_L_pattern_from_col_counts");
    CSC *M = sym_lib::build_L_pattern_from_col_counts(n, &U.a, C2, T, acc);
    bool good = (int)M->n == n && (int)M->m == n && M->nnz == f.i.size() && std::equal(f.p.begin(), f.p.end(), M->p) && std::equal(f.i.begin(), f.i.end(), M->i);
    c.outp(M->p, n + 1); c.outp(M->i, M->nnz);
    if (!good) c.fail("L_pattern:pattern", "factor pattern n=%zu nnz=%zu differs from the factor", M->n, M->nnz);
    delete M;
    c.add("obs.counts_checked", 2 * n);
  }
  if (U.p.vec() != up || U.i.vec() != ui || L.p.vec() != lp || L.i.vec() != li) c.fail("symbolic:input_changed", "a matrix was modified");
}
VH_PROP(C16, etree_case);

void pipeline_case(Ctx &c) {
  Rng &r = c.rng;
  Dag d = gen_dag(r, c.thorough ? 500 : 220);
  if (r.chance(0.15)) { int n = r.range(100, c.thorough ? 1200 : 500); d = gen_dag_kind(r, r.pick(std::vector<int>{3, 4, 5, 6, 7, 10, 14, 16, 18}), n); }
  if (r.chance(0.6)) {
    std::vector<int> q(d.n); for (int k = 0; k < d.n; ++k) q[k] = k; r.shuffle(q);
    std::vector<std::pair<int, int>> e; for (int j = 0; j < d.n; ++j) for (int k = d.p[j] + 1; k < d.p[j + 1]; ++k) e.push_back({std::min(q[j], q[d.i[k]]), std::max(q[j], q[d.i[k]])});
    d = dag_from_edges(d.n, e, d.kind + "+shuffled");
  }
  int n = d.n; bool pattern = r.chance(0.3);
  mix_dag(c, d); c.note("%s pattern=%d", dag2s(d).c_str(), pattern); c.nontrivial = d.edges() > 0;
  CSC *A = new CSC((size_t)n, (size_t)n, d.i.size(), pattern, -1);
  std::copy(d.p.begin(), d.p.end(), A->p); std::copy(d.i.begin(), d.i.end(), A->i);
  std::vector<double> x(d.i.size()); for (double &v : x) v = r.unit() + 0.5;
  if (!pattern) std::copy(x.begin(), x.end(), A->x);
  c.stage("build_symbolic_simplicial_lfactor");
  sym_lib::LFactorSymbolicInfo *s = sym_lib::build_symbolic_simplicial_lfactor(A);
  if (!s) { c.fail("symbolic:null", "no result"); delete A; return; }
  std::vector<int> perm(s->perm, s->perm + n), ip(s->iperm, s->iperm + n), po(s->post, s->post + n), ipo(s->ipost, s->ipost + n), par(s->parent, s->parent + n), cc(s->col_counts, s->col_counts + n);
  c.outv(perm); c.outv(ip); c.outv(po); c.outv(ipo); c.outv(par); c.outv(cc); if (s->L && (int)s->L->n == n) { c.outp(s->L->p, n + 1); c.outp(s->L->i, s->L->nnz); }
  auto isperm = [&](const char *w, const std::vector<int> &p, const std::vector<int> &q) {
    std::vector<int> seen(n, 0);
    for (int k = 0; k < n; ++k) { if (p[k] < 0 || p[k] >= n || seen[p[k]]++) { c.fail(std::string("symbolic:") + w, "%s is not a permutation: %s", w, vec2s(p).c_str()); return false; } }
    for (int k = 0; k < n; ++k) if (q[p[k]] != k) { c.fail(std::string("symbolic:inverse_") + w, "inverse of %s is wrong at %d", w, k); return false; }
    return true;
  };
  if (isperm("perm", perm, ip) && isperm("post", po, ipo)) {
    std::vector<std::pair<int, int>> e; for (int j = 0; j < n; ++j) for (int k = d.p[j] + 1; k < d.p[j + 1]; ++k) e.push_back({std::min(ip[j], ip[d.i[k]]), std::max(ip[j], ip[d.i[k]])});
    Dag b = dag_from_edges(n, e, "permuted"), f = cholesky_fill(b); std::vector<int> tree = ref_etree(b);
    if (par != tree) c.fail("symbolic:tree", "tree %s want %s", vec2s(par).c_str(), vec2s(tree).c_str());
    std::vector<int> id(n); for (int k = 0; k < n; ++k) id[k] = k;
    is_post(c, "symbolic:postordered", tree, id);
    double fl = 0; bool cok = true; for (int k = 0; k < n; ++k) { int q = f.p[k + 1] - f.p[k]; fl += (double)q * q; if (cc[k] != q) cok = false; }
    if (!cok) c.fail("symbolic:counts", "column counts %s differ from the factor's", vec2s(cc).c_str());
    if ((double)s->flops != fl) c.fail("symbolic:flops", "operation count %zu want %.0f", s->flops, fl);
    CSC *M = s->L;
    if (!M || (int)M->n != n || (int)M->m != n || M->nnz != f.i.size() || !std::equal(f.p.begin(), f.p.end(), M->p) || !std::equal(f.i.begin(), f.i.end(), M->i))
      c.fail("symbolic:factor", "factor pattern (nnz %zu) differs from the factor of the permuted matrix (nnz %ld)", M ? M->nnz : 0, f.nnz());
    c.add("obs.factor_nnz", f.nnz()); c.add("obs.tree_nodes", n); c.add("obs.moved_rows", n - (long)std::count_if(id.begin(), id.end(), [&](int k) { return perm[k] == k; }));
    // nested dissection of a forest leaves next to no fill
    std::vector<int> uf = id; std::function<int(int)> fd = [&](int v) { while (uf[v] != v) v = uf[v] = uf[uf[v]]; return v; }; bool forest = true;
    for (int j = 0; j < n; ++j) for (int k = d.p[j] + 1; k < d.p[j + 1]; ++k) { int a = fd(j), q = fd(d.i[k]); if (a == q) forest = false; uf[a] = q; }
    if (forest && n >= 20) {
      c.add("obs.forests");
      if (c.verbose) fprintf(stderr, "forest n=%d edges=%ld fill nnz=%ld\n", n, d.edges(), f.nnz());
      if (f.nnz() > 4L * n) c.fail("symbolic:fill", "the permuted factor of a forest with %d nodes has %ld entries", n, f.nnz());
    }
  }
  if (!std::equal(d.p.begin(), d.p.end(), A->p) || !std::equal(d.i.begin(), d.i.end(), A->i) || (!pattern && !std::equal(x.begin(), x.end(), A->x)) || A->stype != -1 || (int)A->n != n || A->nnz != d.i.size())
    c.fail("symbolic:input_changed", "the input matrix was modified");
  delete s; delete A;
  c.stage("symbolic_null");
  if (sym_lib::build_symbolic_simplicial_lfactor(nullptr)) c.fail("symbolic:null_input", "no matrix, but a result");
}
VH_PROP(C17, pipeline_case);
}  // namespace
