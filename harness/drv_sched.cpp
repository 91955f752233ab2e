#include <cmath>
// schedulers, level sets, components
#include "drv.h"
#include <aggregation/def.h>
#include <aggregation/hdagg.h>
#include <aggregation/lbc.h>
#include <aggregation/lbc_utils.h>
#include <aggregation/sparse_inspector.h>
#include <aggregation/sparse_utilities.h>
#include <aggregation/utils.h>
using namespace sym_lib;
namespace sym_lib {
int parallel_cc(int *lC, int *lR, int dfsLevel, int ubLevel, int *node2Level, int *levelPtr, int *levelSet, int *node2partition,
                double *outCost, double *nodeCost, int &curLeveledParCost, int numNodes, int *nodes, int numThreads) __attribute__((weak)); // not in a header: may be absent
}
static VI ones(int n) { return VI(n, 1); }
// costs and weights are the recorded integers divided by 2^cs, so that fractional ones are exercised too
static double cscale(const Case &c) { return std::ldexp(1.0, -(int)c.i("cs", 0)); }
struct CBuf : Buf<double> { CBuf(const Case &c, const VI &v) : Buf<double>(v) { for (size_t k = 0; k < n; k++) p[k] *= cscale(c); } };
static VI costv(const Case &c, int n) { VI r = c.v("cost"); if ((int)r.size() != n) r = ones(n); return r; }
// Emit a schedule. sp = partitions per coarsened level boundaries etc. "wf" says the shape could be read back at all.
static void emit_sched(Out &o, int n, long lv, const VI &lp, const VI &pp, const VI &np) {
  // lp: level -> first w-partition, pp: w-partition -> first slot, np: slot -> node
  o.num("nlev", lv);
  bool wf = lv >= 0 && (long)lp.size() >= lv + 1;
  VVI dummy; std::string why;
  std::ostringstream s; s << "[";
  if (wf) {
    if (lp[0] != 0) wf = false;
    for (long l = 0; wf && l < lv; l++) {
      if (lp[l + 1] < lp[l] || lp[l + 1] >= (long)pp.size()) { wf = false; break; }
      if (l) s << ","; s << "[";
      for (int k = lp[l]; wf && k < lp[l + 1]; k++) {
        if (pp[k] < 0 || pp[k + 1] < pp[k] || pp[k + 1] > (long)np.size()) { wf = false; break; }
        if (k > lp[l]) s << ","; s << "[";
        for (int j = pp[k]; j < pp[k + 1]; j++) { if (j > pp[k]) s << ","; s << np[j]; }
        s << "]";
      }
      s << "]";
    }
    if (wf && lv > 0 && pp[lp[0]] != 0) wf = false;
  }
  s << "]";
  o.boolean("wf", wf);
  o.key("sched"); o.o << (wf ? s.str() : std::string("[]"));
  (void)n;
}
static void emit_sched_ptr(Out &o, int n, long lv, const int *lp, const int *pp, const int *np) {
  VI a = take(lp, lv < 0 ? 0 : lv + 1);
  long parts = (lv >= 0 && (long)a.size() == lv + 1) ? a[lv] : -1;
  VI b = take(pp, parts + 1); VI d = take(np, n);
  emit_sched(o, n, lv, a, b, d);
}
static void unchanged(Out &o, const Buf<int> &p, const Buf<int> &i, const Case &c) { o.boolean("same", p.vi() == c.v("p") && i.vi() == c.v("i")); }
template <class F> static void lbc_like(const Case &c, Out &o, F f) {
  int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")); CBuf cost(c, costv(c, n));
  int lv = -77, pn = -77; int *lp = 0, *pp = 0, *np = 0;
  int rv = f(n, p.p, i.p, lv, lp, pn, pp, np, c.i("ip", 2), c.i("ml", 2), c.i("dr", 2), cost.p);
  (void)rv;
  emit_sched_ptr(o, n, lv, lp, pp, np); unchanged(o, p, i, c);
}
OP(lbc_csc) { lbc_like(c, o, [&](int n, int *p, int *i, int &lv, int *&lp, int &pn, int *&pp, int *&np, int ip, int ml, int dr, double *w) {
  return get_coarse_levelSet_DAG_CSC(n, p, i, lv, lp, pn, pp, np, ip, ml, dr, w, c.i("bp", 1)); }); }
OP(lbc_03) { lbc_like(c, o, [&](int n, int *p, int *i, int &lv, int *&lp, int &pn, int *&pp, int *&np, int ip, int ml, int dr, double *w) {
  return get_coarse_Level_set_DAG_CSC03(n, p, i, lv, lp, pn, pp, np, ip, ml, dr, w); }); }
OP(lbc_03p) { lbc_like(c, o, [&](int n, int *p, int *i, int &lv, int *&lp, int &pn, int *&pp, int *&np, int ip, int ml, int dr, double *w) {
  return get_coarse_Level_set_DAG_CSC03_parallel(n, p, i, lv, lp, pn, pp, np, ip, ml, dr, w, c.i("th", 1), c.i("bp", 1)); }); }
OP(lbc_dagtree) { lbc_like(c, o, [&](int n, int *p, int *i, int &lv, int *&lp, int &pn, int *&pp, int *&np, int ip, int ml, int dr, double *w) {
  Buf<int> rp(c.v("rp")), ri(c.v("ri")); if (c.i("stype", -1) > 0) { p = rp.p; i = ri.p; }
  return get_coarse_levelSet_DAG_CSC_tree(n, p, i, c.i("stype", -1), lv, lp, pn, pp, np, ip, ml, dr, w); }); }
OP(lbc_tree) {
  VI t = c.v("t"); int n = t.size(); Buf<int> tr(t); CBuf cost(c, costv(c, n));
  int lv = -77, pn = -77; int *lp = 0, *pp = 0, *np = 0;
  get_coarse_levelSet_tree(n, tr, lv, lp, pn, pp, np, c.i("ip", 2), c.i("ml", 2), c.i("dr", 2), cost);
  emit_sched_ptr(o, n, lv, lp, pp, np); o.boolean("same", tr.vi() == t);
}
OP(lbc_bcsc) {
  // column-blocked lower triangular pattern: p (nnz offsets per column, size_t), ip (row index start per block), i
  int n = c.i("n"), nb = c.i("nb"); Buf<size_t> lC(c.v("p")), Lip(c.v("lip")); Buf<int> lR(c.v("i"));
  Buf<int> b2c(c.v("b2c")), c2b(c.v("c2b")); CBuf cost(c, costv(c, nb));
  int lv = -77, pn = -77; int *lp = 0, *pp = 0, *np = 0, *pls = 0; (void)n;
  getCoarseLevelSet_DAG_BCSC02(nb, lC, Lip, lR, b2c, c2b, lv, lp, pls, pn, pp, np, c.i("ip", 2), c.i("ml", 2), c.i("dr", 2), cost);
  emit_sched_ptr(o, nb, lv, lp, pp, np); o.boolean("same", lR.vi() == c.v("i"));
}
static void hd(const Case &c, Out &o, int ver) {
  int n = c.i("n"); VI p = c.v("p"), i = c.v("i"); VI cv = costv(c, n); std::vector<double> w(cv.begin(), cv.end()); for (double &x : w) x *= cscale(c);
  int lv = -77; VI lp, pp, np; VI p2 = p, i2 = i; p2.shrink_to_fit(); i2.shrink_to_fit(); VI wm;
  if (ver == 1) wm = HDAGG::HDAGG(n, i.size(), p2, i2, w, c.i("co", 2), lv, lp, pp, np, c.i("pl", 0), c.i("po", 0), c.i("bp", 1));
  else wm = HDAGG::GLC_V2(n, i.size(), p2, i2, w, c.i("co", 2), lv, lp, pp, np, c.i("pl", 0), c.i("po", 0), c.i("bp", 1));
  emit_sched(o, n, lv, lp, pp, np); o.vec("wm", wm); o.boolean("same", p2 == p && i2 == i);
}
OP(hdagg) { hd(c, o, 1); }
OP(glc2) { hd(c, o, 2); }
OP(coarsepar) {
  int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")); int lv = -77; VI lp, pp, np;
  HDAGG::build_coarsened_level_parallel(n, p, i, c.i("co", 2), lv, lp, pp, np);
  emit_sched(o, n, lv, lp, pp, np); unchanged(o, p, i, c);
}
static void emit_levels(Out &o, int n, int rv, const VI &lp, const VI &ls) {
  o.num("rv", rv); bool wf = rv >= 0 && (long)lp.size() >= rv + 1 && (lp[0] == 0);
  std::ostringstream s; s << "[";
  for (int l = 0; wf && l < rv; l++) {
    if (lp[l + 1] < lp[l] || lp[l + 1] > (long)ls.size()) { wf = false; break; }
    if (l) s << ","; s << "["; for (int j = lp[l]; j < lp[l + 1]; j++) { if (j > lp[l]) s << ","; s << ls[j]; } s << "]";
  }
  s << "]"; o.boolean("wf", wf); o.key("lev"); o.o << (wf ? s.str() : "[]"); (void)n;
}
// all level-set builders on the same CSC DAG; a=which
OP(levels) {
  int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")); std::string a = c.s("a");
  if (a == "csc") { int *lp = 0, *ls = 0; int rv = build_levelSet_CSC(n, p.p, i.p, lp, ls);
    if (rv >= 0) emit_levels(o, n, rv, take(lp, rv + 1), take(ls, n)); else emit_levels(o, n, rv, VI(), VI()); }
  else if (a == "cscpre") { Buf<int> lp(n + 1, 0), ls(n, -1); int rv = build_levelSet_CSC((size_t)n, (const int *)p.p, (const int *)i.p, lp.p, ls.p);
    emit_levels(o, n, rv, lp.vi(), ls.vi()); }
  else if (a == "queue") { Buf<int> lp(n + 1, 0), ls(n, -1); int *q = lp.p, *r = ls.p; int rv = buildLevelSet_CSC_Queue(n, i.n, p, i, q, r);
    emit_levels(o, n, rv, lp.vi(), ls.vi()); }
  else if (a == "hd") { Buf<int> lp(n + 1, 0), ls(n, -1), n2l(n, -1); int rv = HDAGG::build_levelSet_CSC(n, p, i, lp, ls, n2l);
    emit_levels(o, n, rv, lp.vi(), ls.vi()); o.vec("n2l", n2l.vi()); }
  else if (a == "vec") { VI lp, ls; int nl = -77; sym_lib::computingLevelSet_CSC(n, p.p, i.p, lp, ls, nl); emit_levels(o, n, nl, lp, ls); }
  else if (a == "n2l") { // levels through build_levelSet_CSC, then the HDAGG inverse map
    int *lp = 0, *ls = 0; int rv = build_levelSet_CSC(n, p.p, i.p, lp, ls); if (rv >= 0) { VI LP = take(lp, rv + 1), LS = take(ls, n), n2l; HDAGG::computingNode2Level(LP, LS, rv, n, n2l);
      emit_levels(o, n, rv, LP, LS); o.vec("n2l", n2l); } else emit_levels(o, n, rv, VI(), VI()); }
  unchanged(o, p, i, c);
}
OP(levels_bcsc) {
  int n = c.i("n"), nb = c.i("nb"); Buf<size_t> lC(c.v("p")), Lip(c.v("lip")); Buf<int> lR(c.v("i")); Buf<int> b2c(c.v("b2c")), c2b(c.v("c2b"));
  int *lp = 0; size_t *ls = 0; int rv = build_levelSet_BCSC(n, lR.n, lC, Lip, lR, nb, b2c, c2b, lp, ls);
  emit_levels(o, nb, rv, take(lp, rv + 1), take(ls, nb));
}
OP(levels_multi) {
  int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")); int *lp = 0, *ls = 0;
  int rv = level_set_multi_graphs(n, p, i, lp, ls, c.i("k", 1));
  emit_levels(o, n, rv, take(lp, rv + 1), take(ls, (long)n * c.i("k", 1))); unchanged(o, p, i, c);
}
static VI nchild(const VI &t) { VI r(t.size(), 0); for (int x : t) if (x >= 0) r[x]++; return r; }
OP(tree_levels) {
  VI t = c.v("t"); int n = t.size(); Buf<int> tr(t); Buf<int> lp(n + 1, 0), ls(n, -1);
  if (c.s("a") == "eff") { Buf<int> nc(nchild(t)), n2l(n, 0); int rv = build_level_set_tree_efficient(n, tr, nc, lp, ls, n2l);
    emit_levels(o, n, rv, lp.vi(), ls.vi()); o.vec("n2l", n2l.vi()); }
  else { int rv = build_level_set_tree(n, tr, lp, ls); emit_levels(o, n, rv, lp.vi(), ls.vi()); }
  o.boolean("same", tr.vi() == t);
}
// connected components restricted to a window of levels [lb,ub)
OP(cc) {
  int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")); VI n2l = c.v("n2l"); VI nodes = c.v("nodes"); int lb = c.i("lb"), ub = c.i("ub");
  Buf<int> L(n2l), N(nodes), part(n, -1);
  if (c.s("a") == "hd") HDAGG::parallel_cc(n, p, i, lb, ub, L, nodes.size(), N, part);
  else if (!sym_lib::parallel_cc) { o.boolean("absent", true); return; }
  else { Buf<double> oc(n, 0.0); CBuf nc(c, costv(c, n)); int cc = 0; int r = sym_lib::parallel_cc(p, i, lb, ub, L, 0, 0, part, oc, nc, cc, nodes.size(), N, c.i("th", 1));
    o.num("rv", r); VI x; for (int k = 0; k < n; k++) x.push_back((int)(oc.p[k] / cscale(c))); o.vec("ocost", x); }
  o.vec("part", part.vi());
}
OP(dfs_cc) {
  // whole-graph forest through repeated dfs_CSC_CC, as the schedulers use it: undirected information is in the clashed list
  int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")), mark(n, 0), xi(2 * n, 0); VVI trees, clash;
  for (int k = 0; k < n; k++) if (!mark.p[k]) { VI cl; int top = dfs_CSC_CC(n, k, p, i, mark, n, xi, xi.p + n, cl, NULL);
    VI t; for (int q = top; q < n; q++) t.push_back(xi.p[q]); trees.push_back(t); clash.push_back(cl); for (int x : t) mark.p[x] = -1; }
  o.vvec("trees", trees); o.vvec("clash", clash);
}
OP(binpack) {
  VI sz = c.v("sz"); int nb = c.i("nb"); VVI in; int k = 0; for (int x : sz) { VI a; for (int j = 0; j < x; j++) a.push_back(k++); in.push_back(a); }
  CBuf ic(c, c.v("ic")); Buf<double> oc(std::max<int>(sz.size(), nb), 0.0); VVI out(nb);
  int r = worst_fit_bin_pack(in, ic, out, oc, c.i("th"), nb); o.num("rv", r); o.vvec("bins", out); VI x; for (int j = 0; j < nb; j++) x.push_back((int)(oc.p[j] / cscale(c))); o.vec("ocost", x);
}
OP(mergeinner) {
  VI sz = c.v("sz"); VVI in; int k = 0; for (int x : sz) { VI a; for (int j = 0; j < x; j++) a.push_back(k++); in.push_back(a); }
  Buf<int> ic(c.v("ic")), oc(sz.size(), -7); VVI out(sz.size()); int r = merge_inner_part(in, ic, out, oc, c.i("th")); o.num("rv", r); o.vvec("bins", out); o.vec("ocost", oc.vi());
}
OP(hpart) {
  VI lp = c.v("lp"); int L = (int)lp.size() - 1; Buf<int> LP(lp), p2l(L + 1, 0); VI ips; VVI sl(L + 1);
  int r; if (c.s("a") == "trng") r = height_partitioning_DAG_trng(L, LP, NULL, L, c.i("ip"), c.i("ml"), c.i("dr"), ips, sl, NULL, p2l);
  else r = height_partitioning(L, LP, NULL, L, c.i("ip"), c.i("ml"), c.i("dr"), ips, sl, NULL, p2l);
  o.num("rv", r); o.vec("p2l", p2l.vi()); o.vec("ips", ips);
}
OP(partw) {
  VI set = c.v("set"), w = c.v("w"), tw = c.v("tw"); Buf<int> S(set); CBuf W(c, w), T(c, tw); int np = c.i("np");
  int *r = partition_by_weight(set.size(), S, W, np, c.has("tw") ? T.p : NULL); o.vec("ptr", take(r, np + 1));
}
OP(partbfs) {
  int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")); CSC A(n, n, i.n, p.p, i.p, -1); VI w = c.v("w"), tw = c.v("tw"); CBuf W(c, w), T(c, tw); int np = c.i("np");
  int lv = -77; int *lp = 0, *pp = 0, *nd = 0; partition_by_bfs(n, &A, W, lv, lp, np, pp, nd, c.has("tw") ? T.p : NULL);
  emit_sched_ptr(o, n, lv, lp, pp, nd);
}
