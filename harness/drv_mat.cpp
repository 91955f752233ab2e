// sparse-matrix utilities: conversions, halves, permutations, merges, trees, factor patterns, blocked format, partitions, text IO
#include "drv.h"
#include <fcntl.h>
#include <unistd.h>
#include <cmath>
#include <fstream>
#include <memory>
#include <aggregation/def.h>
#include <aggregation/sparse_utilities.h>
#include <aggregation/sparse_inspector.h>
#include <aggregation/sparse_io.h>
#include <aggregation/lfactor_creation.h>
#include <aggregation/metis_interface.h>
#include <aggregation/BCSCMatrix.h>
#include <aggregation/utils.h>
#include <aggregation/exceptions.h>
#include <aggregation/test_utils.h>
using namespace sym_lib;
// inputs are half-integers; results are recorded times four
static long four(double x) { if (!(x == x) || x >= 5e8 || x <= -5e8) return 2000000000L; double y = 4 * x; long r = lround(y); return y != (double)r ? 1999999999L : r; }
// a compressed matrix as a list of (minor index list), plus four times the values
static void emit_mat(Out &o, const char *k, size_t major, const int *p, const int *i, const double *x, bool haspos = true) {
  std::string K = k; VI P = take(p, (long)major + 1); bool wf = P.size() == major + 1 && P[0] == 0; VVI I, X; size_t ri = room(i), rx = room(x);
  for (size_t j = 0; wf && j < major; j++) {
    if (P[j + 1] < P[j] || (size_t)P[j + 1] > ri || (x && (size_t)P[j + 1] > rx)) { if (P[j + 1] != P[j]) { wf = false; break; } }
    VI a, b; for (int q = P[j]; q < P[j + 1]; q++) { a.push_back(i[q]); if (x) b.push_back((int)four(x[q])); } I.push_back(a); X.push_back(b);
  }
  o.boolean((K + "wf").c_str(), wf); o.vvec((K + "i").c_str(), wf ? I : VVI()); if (x) o.vvec((K + "x").c_str(), wf ? X : VVI()); o.boolean((K + "num").c_str(), x != 0); (void)haspos;
}
struct In {  // an input matrix over exactly sized buffers (major = columns for CSC, rows for CSR)
  int m, n; Buf<int> p, i; HBuf x; bool num; VI p0, i0, x0;
  In(const Case &c, const char *s = "") : m(c.i((std::string("m") + s).c_str())), n(c.i((std::string("n") + s).c_str())), p(c.v((std::string("p") + s).c_str())), i(c.v((std::string("i") + s).c_str())),
    x(c.v((std::string("x") + s).c_str())), num(c.has((std::string("x") + s).c_str())), p0(p.vi()), i0(i.vi()), x0(x.v2()) {}
  bool same() const { return p.vi() == p0 && i.vi() == i0 && x.v2() == x0; }
  CSC *csc(int st) { CSC *A = num ? new CSC(m, n, i.n, p.p, i.p, x.p) : new CSC(m, n, i.n, p.p, i.p, st); A->stype = st; return A; }
};
static void emit_csc(Out &o, CSC *A) { o.boolean("null", A == 0); if (!A) return; o.num("om", A->m); o.num("on", A->n); o.num("onnz", A->nnz); o.num("ostype", A->stype); o.boolean("opat", A->is_pattern); emit_mat(o, "o", A->n, A->p, A->i, A->is_pattern ? 0 : A->x); }
OP(mat) {
  std::string a = c.s("a"); int st = c.i("stype");
  if (a == "tridiag") { std::unique_ptr<CSC> A(tridiag(c.i("n"), c.i("a0") * .5, c.i("a1") * .5, c.i("a2") * .5)); o.num("om", A->m); o.num("on", A->n); o.num("onnz", A->nnz); emit_mat(o, "o", A->n, A->p, A->i, A->x); return; }
  if (a == "diag") { std::unique_ptr<CSC> A(diagonal(c.i("n"), c.i("a1") * .5)); emit_csc(o, A.get()); return; }
  In M(c); std::unique_ptr<CSC> A(M.csc(st));
  if (a == "csc2csr") { CSR *B = csc_to_csr(A.get()); o.num("om", B->m); o.num("on", B->n); o.num("onnz", B->nnz); o.boolean("opat", B->is_pattern); emit_mat(o, "o", B->m, B->p, B->i, B->is_pattern ? 0 : B->x); }
  else if (a == "csc2csra") { int *rp = 0, *ci = 0; double *v = 0; csc_to_csr(M.m, M.n, M.p, M.i, M.x, rp, ci, v); emit_mat(o, "o", M.m, rp, ci, v); }
  else if (a == "csr2csca") { int *cp = 0, *ri = 0; double *v = 0; csr_to_csc(M.m, M.n, M.i, M.p, M.x, cp, ri, v); emit_mat(o, "o", M.n, cp, ri, v); }
  else if (a == "csr2csc") { CSR B(M.m, M.n, M.i.n, M.p.p, M.i.p, st); B.x = M.x.p; B.is_pattern = false; CSC *C = csr_to_csc(&B); emit_csc(o, C); }
  else if (a == "transpose") emit_csc(o, transpose_general(A.get()));
  else if (a == "halfl") emit_csc(o, make_half(M.n, M.p, M.i, M.num ? M.x.p : 0));
  else if (a == "halfu") emit_csc(o, make_half(M.n, M.p, M.i, M.num ? M.x.p : 0, false));
  else if (a == "full") emit_csc(o, make_full(A.get()));
  else if (a == "tsym") { Buf<int> q(c.v("perm")); emit_csc(o, transpose_symmetric(A.get(), c.has("perm") ? q.p : NULL)); o.boolean("psame", q.vi() == c.v("perm")); }
  else if (a == "msyml" || a == "msymu") { CSC *B = make_symmetric(A.get(), a == "msyml"); emit_csc(o, B); }
  else if (a == "copy") { CSC *B = copy_sparse(A.get()); o.boolean("fresh", B->p != A->p && (!B->i || B->i != A->i) && (!B->x || B->x != A->x)); emit_csc(o, B); }
  else if (a == "copyfrom") { CSC B(M.m, M.n, M.i.n); B.stype = A->stype; copy_from_to(A.get(), &B); emit_csc(o, &B); }
  else if (a == "copyfromr") { CSR S(M.m, M.n, M.i.n, M.p.p, M.i.p, st); S.x = M.x.p; CSR B(M.m, M.n, M.i.n); copy_from_to(&S, &B); emit_mat(o, "o", B.m, B.p, B.i, B.x); }
  else if (a == "coarsen") emit_csc(o, coarsen_k_times(M.n, M.i.n, M.p, M.i, st, c.i("k", 2)));
  else if (a == "dense") { Buf<double> D(M.m * M.n, 7.0); sparse2dense(A.get(), D); VI r; for (size_t k = 0; k < D.n; k++) r.push_back((int)four(D.p[k])); o.vec("d", r); }
  else if (a == "todense") { // dense (row major pointers) to CSC
    std::vector<std::vector<double>> D(M.m, std::vector<double>(M.n, 0.0)); for (int j = 0; j < M.n; j++) for (int q = M.p.p[j]; q < M.p.p[j + 1]; q++) D[M.i.p[q]][j] = M.x.p[q];
    std::vector<double *> R; for (auto &r : D) R.push_back(r.data()); emit_csc(o, dense_to_csc(M.m, M.n, R.data())); }
  else if (a == "onebased") { CSC *B = convert_to_one_based(A.get()); o.num("om", B->m); o.num("on", B->n); VI P = take(B->p, M.n + 2), I = take(B->i, M.i.n), X; if (M.num) for (size_t k = 0; k < M.i.n; k++) X.push_back((int)four(B->x[k])); o.vec("optr", P); o.vec("oi", I); o.vec("ox", X); }
  else if (a == "facts") { // small queries
    o.num("empty", number_empty_col(A.get())); Buf<double> cnt(M.n, -1.0); compute_nnz_per_col(A.get(), cnt); o.vec("cnt", cnt.vi());
    if (c.i("diagok")) { int *d = extract_diagonals(M.n, M.p, M.i); o.vec("dg", take(d, M.n)); o.boolean("vd", verify_csc_diagonal(A.get())); } }
  else { o.boolean("absent", true); return; }
  o.boolean("same", M.same());
}
OP(perm) {
  VI pv = c.v("perm"), ar = c.v("arr"); int n = pv.size(); Buf<int> p(pv), a(ar), q(n, -9), q2(n, -9), ws(n, 0);
  inv_perm(n, p, q); o.vec("inv", q.vi()); compute_inv_perm(n, p, q2); o.vec("inv2", q2.vi()); reorder_array(n, a, p, ws); o.vec("re", a.vi()); o.boolean("same", p.vi() == pv);
}
OP(vecs) {
  VI xv = c.v("x"), yv = c.v("y"); HBuf x(xv), y(yv), z(VI(xv.size(), -7)); int b = c.i("lb"), e = c.i("ub");
  o.num("res", four(residual(b, e, x, y))); o.num("norm", four(norm(x.n, x))); copy_vector_dense(b, e, x, z); o.vec("z", z.v2());
}
OP(merge) {
  int n = c.i("n"), k = c.i("k"); std::vector<std::unique_ptr<Buf<int>>> st; std::vector<int *> P, I, DP, DI;
  auto add = [&](const std::string &key) { st.emplace_back(new Buf<int>(c.v(key.c_str()))); return st.back()->p; };
  for (int g = 0; g < k; g++) { P.push_back(add("p" + std::to_string(g))); I.push_back(add("i" + std::to_string(g))); }
  if (c.s("a") == "arr") { int *np = 0, *ni = 0; merge_graph(k, n, P.data(), I.data(), np, ni); emit_mat(o, "o", (size_t)n * k, np, ni, 0); }
  else if (c.s("a") == "csc") { CSC *M = merge_graph(k, n, P.data(), I.data()); emit_csc(o, M); }
  else { for (int g = 0; g + 1 < k; g++) { DP.push_back(add("dp" + std::to_string(g))); DI.push_back(add("di" + std::to_string(g))); }
    CSC *M = merge_DAGs_with_partial_order(k, n, P.data(), I.data(), k - 1, DP.data(), DI.data()); emit_csc(o, M); }
  bool same = true; for (int g = 0; g < k; g++) { same = same && st[2 * g]->vi() == c.v(("p" + std::to_string(g)).c_str()) && st[2 * g + 1]->vi() == c.v(("i" + std::to_string(g)).c_str()); } o.boolean("same", same);
}
// ---- blocked format ----
static void emit_bcsc(Out &o, BCSC *B) {
  o.num("nodes", B->nodes); int nb = (int)B->nodes; VI S = take(B->supernodes, nb + 1), P = take(B->p, nb + 1), NR = take(B->nrows, nb); o.vec("sup", S); o.vec("bp", P); o.vec("nrows", NR); o.num("bnnz", B->nnz);
  VI I = take(B->i, B->nnz), X; for (size_t k = 0; k < B->nnz && k < room(B->x); k++) X.push_back((int)four(B->x[k])); o.vec("bi", I); o.vec("bx", X);
}
OP(bcscm) {
  In M(c); std::unique_ptr<CSC> A(M.csc(c.i("stype", -1))); Buf<int> sup(c.v("sup"));
  std::unique_ptr<BCSCMatrix> B(c.has("sup") ? new BCSCMatrix(A.get(), sup.n - 1, sup.p) : new BCSCMatrix(A.get()));
  emit_bcsc(o, B->getBCSC()); if (c.i("comp")) { CSC *Q = B->compressed_BCSC_to_CSC(); o.num("qn", Q->n); emit_mat(o, "q", Q->n, Q->p, Q->i, 0); }
  o.boolean("same", M.same());
}
OP(fuse3) { // block graph of L1 -> B -> L2
  In A(c, "a"), B(c, "b"), C(c, "c"); Buf<int> sup(c.v("sup")); std::unique_ptr<CSC> a(A.csc(-1)), b(B.csc(0)), d(C.csc(-1)); int nb = sup.n - 1;
  if (c.s("a") == "graph") { BCSCMatrix MA(a.get(), nb, sup.p), MC(d.get(), nb, sup.p); CSC *G = merge_graphs(MA.getBCSC(), b.get(), MC.getBCSC()); o.num("on", G->n); emit_mat(o, "o", G->n, G->p, G->i, 0); }
  else { int *lp = 0, *ls = 0; int rv = bcsc_csc_bcsc_levelset(a.get(), b.get(), d.get(), lp, ls, nb, sup.p); o.num("rv", rv); o.vec("lp", take(lp, rv + 1)); o.vec("ls", take(ls, 2 * nb)); }
  o.boolean("same", A.same() && B.same() && C.same());
}
OP(levels_bn) {
  In M(c); Buf<int> sup(c.v("sup")); int nb = sup.n - 1, k = c.i("k", 1); int *lp = 0, *ls = 0; int rv = level_set_bn(M.n, M.p, M.i, lp, ls, sup.p, nb, k, c.i("lower", 1));
  o.num("rv", rv); VI L = take(lp, rv + 1), S = take(ls, (long)nb * k); bool wf = rv >= 0 && (int)L.size() == rv + 1 && L[0] == 0; VVI lev; VI sv = c.v("sup");
  for (int l = 0; wf && l < rv; l++) { if (L[l + 1] < L[l] || L[l + 1] > (int)S.size()) { wf = false; break; } VI x; for (int q = L[l]; q < L[l + 1]; q++) { int s = S[q], b = -1; for (int t = 0; t < nb; t++) if (s >= 0 && sv[t] == s % M.n) b = t; x.push_back(b < 0 ? -1 : b + nb * (s / M.n)); } lev.push_back(x); }
  o.boolean("wf", wf); o.vvec("lev", wf ? lev : VVI()); o.boolean("same", M.same());
  if (c.i("s2n") && wf && rv > 0) { int *s2 = 0; VI SS = S; SS.resize(L[rv]); Buf<int> T(SS); sup2node_gen(M.n, SS.size(), T, nb, sup.p, s2); VI f; for (auto &x : lev) for (int y : x) f.push_back(y % nb); o.boolean("s2nok", take(s2, SS.size()) == f); }
}
OP(depth) { In M(c); std::unique_ptr<CSC> A(M.csc(-1)); Buf<int> d(M.n, -9); compute_depth(A.get(), d); o.vec("depth", d.vi()); o.boolean("same", M.same()); }
// ---- elimination trees and factors ----
OP(etree) { In M(c); std::unique_ptr<CSC> A(M.csc(c.i("stype"))); Buf<int> par(M.n, -9); int r = compute_etree(A.get(), par); o.num("rv", r); if (r) o.vec("parent", par.vi()); o.boolean("same", M.same()); }
OP(factor) { // upper half in, symbolic factor pieces out
  In U(c, "u"), L(c, "l"); int n = U.n; std::unique_ptr<CSC> u(U.csc(1)), l(L.csc(-1)); Buf<int> par(n, -9), post(n, -9), cc(n, -9), rc(n, -9), first(n, -9), lev(n, -9);
  int r = compute_etree(u.get(), par); o.num("rv", r); o.vec("parent", par.vi()); r = tree_post_order(par, n, NULL, post); o.num("pn", r); o.vec("post", post.vi());
  size_t fl = 0; bool ok = row_col_counts_symmetric(l.get(), par, post, rc, cc, first, lev, fl); o.boolean("ok", ok); o.vec("cc", cc.vi()); o.vec("rc", rc.vi()); o.vec("level", lev.vi()); o.num("fl", (long)fl);
  VVI reach; Buf<int> w(n, 0), s(n, -1); 
  for (int k = 0; k < n; k++) { int top = ereach(n, U.p, U.i, k, par, s, w); VI x; for (int q = top; q >= 0 && q < n; q++) x.push_back(s.p[q]); reach.push_back(x); }
  o.vvec("reach", reach); bool clean = true; for (size_t k = 0; k < w.n; k++) if (w.p[k] < 0) clean = false; o.boolean("clean", clean);
  Buf<double> acc(n, -9.0); CSC *F = build_L_pattern_from_col_counts(n, u.get(), cc, par, acc); o.vec("accd", acc.vi()); emit_mat(o, "f", F->n, F->p, F->i, 0); o.num("fnnz", F->nnz);
  Buf<int> post2(n, -9); r = tree_post_order(par, n, cc, post2); o.num("pn2", r); o.vec("post2", post2.vi());
  o.boolean("same", U.same() && L.same());
}
OP(lfactor) { // the whole symbolic factorisation of a symmetric matrix stored as its lower half
  In L(c); std::unique_ptr<CSC> l(L.csc(-1)); LFactorSymbolicInfo *f = build_symbolic_simplicial_lfactor(l.get()); int n = L.n;
  o.vec("perm", f->perm, n); o.vec("iperm", f->iperm, n); o.vec("post", f->post, n); o.vec("ipost", f->ipost, n); o.vec("parent", f->parent, n); o.vec("cc", f->col_counts, n); o.num("fl", (long)f->flops);
  VI a; for (int k = 0; k < n; k++) a.push_back((int)f->accessed_nnz_per_col[k]); o.vec("accd", a); emit_mat(o, "f", f->L->n, f->L->p, f->L->i, 0); o.boolean("same", L.same());
}
OP(treem) {
  VI t = c.v("t"), wv = c.v("w"); int n = t.size(); Buf<int> tr(t), w(wv); Buf<double> wd(wv);
  Buf<int> cp(n + 1, 0), cn(n, -9), nc(n, 0); populate_children(n, tr, cp, cn, nc); o.vec("cp", cp.vi()); o.vec("cn", cn.vi()); o.vec("nc", nc.vi());
  VI d, dw; for (int k = 0; k < n; k++) { d.push_back(get_node_depth(k, n, tr)); dw.push_back(get_node_depth(k, n, tr, w)); } o.vec("d", d); o.vec("dw", dw);
  o.num("hb", get_tree_height_bruteforce(n, tr)); o.num("hbw", get_tree_height_bruteforce(n, tr, w)); o.num("h", get_tree_height(n, tr, nc)); o.num("hw", get_tree_height(n, tr, nc, w)); o.num("he", get_tree_height_efficient(n, tr, nc, NULL));
  double *s = compute_subtree_cost(n, tr, wd); VI sc; for (int k = 0; k < n; k++) sc.push_back((int)s[k]); o.vec("sc", sc);
  { CSC *T = tree_to_csc(n, tr); emit_mat(o, "t", T->n, T->p, T->i, 0); }
  o.boolean("same", tr.vi() == t && w.vi() == wv);
}
OP(posplit) { // forest with removed nodes marked -2
  VI t = c.v("t"), wv = c.v("w"); int n = t.size(); Buf<int> tr(t), cp(n + 1, 0), cn(n, -9), nc(n, 0); Buf<double> w(wv), oc(n, 0.0); populate_children(n, tr, cp, cn, nc); Buf<int> n2p(n, -9);
  int os = -77; VVI pl; int r = post_order_spliting(n, tr, w, cp, cn, nc, n, c.i("np", 2), os, oc, n2p, pl); o.num("rv", r); o.num("os", os); o.vvec("parts", pl); o.vec("oc", oc.vi()); o.vec("n2p", n2p.vi());
}
// ---- text IO, in a scratch file of this process ----
struct Tmp { std::string f; Tmp() { const char *d = getenv("TMPDIR"); char b[512]; snprintf(b, sizeof b, "%s/aggioXXXXXX", d && *d ? d : "/tmp"); int h = mkstemp(b); if (h >= 0) close(h); f = b; } ~Tmp() { unlink(f.c_str()); } };
static VI unesc(const std::string &s) { VI r; for (size_t k = 0; k + 1 < s.size(); k += 2) r.push_back(strtol(s.substr(k, 2).c_str(), 0, 16)); return r; }
OP(readmtx) {
  Tmp T; { std::ofstream f(T.f); for (int ch : unesc(c.s("hex"))) f << (char)ch; } std::string a = c.s("a");
  if (a == "old") { CSC *A = read_mtx(T.f); emit_csc(o, A); return; }
  std::ifstream in(T.f); CSC *A = 0; std::string e = "";
  try { read_mtx_csc_real(in, A, c.i("ins")); } catch (const mtx_header_error &x) { e = "header"; } catch (const mtx_arith_error &x) { e = "arith"; } catch (const mtx_format_error &x) { e = "format"; } catch (const std::exception &x) { e = "other"; }
  o.str("exc", e); if (e == "") emit_csc(o, A);
}
OP(roundtrip) {
  In M(c); std::unique_ptr<CSC> A(M.csc(c.i("stype"))); Tmp T; std::string a = c.s("a");
  if (a == "old" || a == "new") CSC_to_mtx(T.f, A.get());
  else if (a == "blk") { BCSCMatrix B(A.get()); BCSC_to_mtx(T.f, B.getBCSC()); }
  else if (a == "print") { std::ofstream f(T.f); print_csc_templated(M.m, M.n, M.p.p, M.i.p, M.x.p, f.rdbuf(), "", c.i("stype") ? "%%MatrixMarket matrix coordinate real symmetric" : "%%MatrixMarket matrix coordinate real general"); }
  else { int fd = open(T.f.c_str(), O_WRONLY | O_TRUNC); print_csc(fd, c.i("stype") ? "%%MatrixMarket matrix coordinate real symmetric" : "%%MatrixMarket matrix coordinate real general", M.n, M.p, M.i, M.x); close(fd); }
  if (a == "old") { emit_csc(o, read_mtx(T.f)); }
  else { std::ifstream in(T.f); CSC *B = 0; std::string e = ""; try { read_mtx_csc_real(in, B); } catch (const std::exception &x) { e = "exception"; } o.str("exc", e); if (e == "") emit_csc(o, B); }
  o.boolean("same", M.same());
}
OP(textio) {
  Tmp T; std::string a = c.s("a"); VI xv = c.v("x");
  if (a == "array") { int m = c.i("m"), n = c.i("n"); HBuf x(xv); { std::ofstream f(T.f); print_dense(m, n, m, x.p, f.rdbuf()); }
    Dense *D = 0; load_mtx_array_real(T.f, D); o.num("om", D->row); o.num("on", D->col); VI r; for (int k = 0; k < m * n; k++) r.push_back((int)four(D->a[k])); o.vec("ox", r); delete D; }
  else if (a == "const") { { std::ofstream f(T.f); print_constant(xv[0] * .5, f.rdbuf(), "  "); } std::ifstream in(T.f); double v = -1; read_real_constant(in, v); o.vec("ox", VI{(int)four(v)}); }
  else { std::string t; for (int ch : unesc(c.s("hex"))) t += (char)ch; { std::ofstream f(T.f); print_string(t, f.rdbuf(), "  "); } std::ifstream in(T.f); std::string r; read_string(in, r, "  "); VI g; for (char ch : r) g.push_back(ch); o.vec("got", g); }
}
// ---- METIS front ends ----
OP(metis) {
  In M(c); std::unique_ptr<CSC> A(M.csc(c.i("stype"))); std::string a = c.s("a"); int *r = 0, rv = -77, k = c.i("k", 1);
  if (a == "whole") {   // reorder and split in one call; the numbering is deterministic
    CSC *B = metis_partitioning(A.get(), k, r); o.vec("out", take(r, M.n)); emit_csc(o, B);
    if (B && A->is_pattern) { int *q = 0; metis_perm_symmetric(A.get(), q); o.vec("pm", take(q, M.n)); }
    o.boolean("fresh", B != A.get()); delete B; o.boolean("same", M.same()); return; }
  if (a == "permg") rv = metis_perm_general(A.get(), r); else if (a == "perms") rv = metis_perm_symmetric(A.get(), r);
  else if (a == "partg") rv = metis_partition_general(A.get(), r, k); else if (a == "parts") rv = metis_partition_symmetric(A.get(), r, k);
  else rv = metis_partition_coarsened(A.get(), r, k, c.i("cs", 1));
  o.num("rv", rv); o.vec("out", take(r, M.n)); o.boolean("same", M.same());
}
