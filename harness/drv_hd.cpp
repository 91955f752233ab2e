// HDAGG pipeline pieces: orders, groupings, sparsification, quotient graphs, ungrouping, costs, 2-D reordering
#include "drv.h"
#include <aggregation/def.h>
#include <aggregation/group.h>
#include <aggregation/group_utils.h>
#include <aggregation/hdagg.h>
#include <aggregation/sparse_utilities.h>
using namespace sym_lib;
#include "drv_group.h"
OP(postorder) {
  int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")); VI po; HDAGG::computePostOrder(n, p, i, po); o.vec("order", po);
  o.boolean("same", p.vi() == c.v("p") && i.vi() == c.v("i"));
}
static bool group_by(const std::string &a, int n, VI &p, VI &i, int &ng, VI &gp, VI &gs, bool lf) {
  if (a == "tree") return HDAGG::treeBasedGrouping(n, p, i, ng, gp, gs, lf);
  if (a == "bfs") return HDAGG::treeBasedGroupingBFS(n, p, i, ng, gp, gs, lf);
  return HDAGG::chainGrouping(n, p, i, ng, gp, gs);
}
OP(grouping) {
  int n = c.i("n"); VI p = c.v("p"), i = c.v("i"), gp, gs; int ng = -77;
  group_by(c.s("a"), n, p, i, ng, gp, gs, c.i("lf"));
  o.num("ng", ng); split(o, "groups", gp, gs, ng); o.num("np", gp.size()); o.boolean("same", p == c.v("p") && i == c.v("i"));
}
OP(groupdag) {
  int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")), gp(c.v("gp")), gs(c.v("gs")); VI dp, di; int ng = gp.n - 1;
  HDAGG::buildGroupDAG(n, ng, gp, gs, p, i, dp, di); split(o, "dag", dp, di, ng);
}
OP(sparsify) {
  int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")); VI dp, di; HDAGG::partialSparsification(n, i.n, p, i, dp, di, c.i("cl"));
  split(o, "dag", dp, di, n); o.boolean("same", p.vi() == c.v("p") && i.vi() == c.v("i"));
}
static void put_sched(Out &o, int lv, const VI &lp, const VI &pp, const VI &np) {
  bool wf = lv >= 0 && (long)lp.size() >= lv + 1; std::ostringstream s; s << "["; if (wf && lp[0] != 0) wf = false;
  for (int l = 0; wf && l < lv; l++) {
    if (lp[l + 1] < lp[l] || lp[l + 1] >= (long)pp.size()) { wf = false; break; }
    if (l) s << ","; s << "[";
    for (int k = lp[l]; wf && k < lp[l + 1]; k++) {
      if (pp[k] < 0 || pp[k + 1] < pp[k] || pp[k + 1] > (long)np.size()) { wf = false; break; }
      if (k > lp[l]) s << ","; s << "["; for (int j = pp[k]; j < pp[k + 1]; j++) { if (j > pp[k]) s << ","; s << np[j]; } s << "]";
    }
    s << "]";
  }
  s << "]"; if (wf && lv > 0 && pp[0] != 0) wf = false; o.num("nlev", lv); o.boolean("wf", wf); o.key("sched"); o.o << (wf ? s.str() : "[]");
}
// the documented HDAGG pipeline (demo): sparsify -> group -> quotient -> cost -> HDAGG -> ungroup
OP(pipeline) {
  int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")); VI sp, si, gp, gs, qp, qi; int ng = -77;
  if (c.i("sparse", 1)) HDAGG::partialSparsification(n, i.n, p, i, sp, si, c.i("cl", 1)); else { sp = p.vi(); si = i.vi(); }
  group_by(c.s("a"), n, sp, si, ng, gp, gs, c.i("lf"));
  HDAGG::buildGroupDAG(n, ng, gp.data(), gs.data(), sp.data(), si.data(), qp, qi);
  std::vector<double> cost(ng, 0.0); CSC A(n, n, i.n, true); memcpy(A.p, p.p, 4 * (n + 1)); memcpy(A.i, i.p, 4 * i.n); CSR *R = NULL;
  { CSC T(n, n, i.n); memcpy(T.p, p.p, 4 * (n + 1)); memcpy(T.i, i.p, 4 * i.n); R = csc_to_csr(&T); }
  HDAGG::costComputation(ng, p, i, R->p, R->i, HDAGG::SpTrSv_LL, gp.data(), gs.data(), true, cost);
  int lv = -77; VI lp, pp, np;
  if (c.s("h") == "glc2") HDAGG::GLC_V2(ng, qi.size(), qp, qi, cost, c.i("co", 2), lv, lp, pp, np, c.i("pl"), false, c.i("bp", 1));
  else HDAGG::HDAGG(ng, qi.size(), qp, qi, cost, c.i("co", 2), lv, lp, pp, np, c.i("pl"), false, c.i("bp", 1));
  std::string od = c.s("ord");
  HDAGG::ungroupingScheduleAndApplyOrdering(n, lv, lp, pp, np, gp, gs, od == "post" ? (const int *)p.p : NULL, od == "post" ? (const int *)i.p : NULL, od == "sort", od == "post");
  put_sched(o, lv, lp, pp, np); o.boolean("same", p.vi() == c.v("p") && i.vi() == c.v("i"));
  int n2; VI g2, s2, d2, e2; (void)n2;
  if (lv >= 0 && (int)lp.size() == lv + 1) { int k = -77; HDAGG::getFinalScheduleDAG(n, lv, lp.data(), pp.data(), np.data(), p, i, k, g2, s2, d2, e2);
    o.num("fng", k); split(o, "fgroups", g2, s2, k); split(o, "fdag", d2, e2, k); }
}
OP(ungroup) {
  int n = c.i("n"); VI lp = c.v("lp"), pp = c.v("pp"), np = c.v("np"), gp = c.v("gp"), gs = c.v("gs"); Buf<int> p(c.v("p")), i(c.v("i")); std::string od = c.s("ord"); int lv = (int)lp.size() - 1;
  HDAGG::ungroupingScheduleAndApplyOrdering(n, lv, lp, pp, np, gp, gs, p, i, od == "sort", od == "post"); put_sched(o, lv, lp, pp, np);
}
OP(finaldag) {
  int n = c.i("n"); VI lp = c.v("lp"), pp = c.v("pp"), np = c.v("np"); Buf<int> p(c.v("p")), i(c.v("i")); int ng = -77; VI g, s, d, e; int lv = (int)lp.size() - 1;
  HDAGG::getFinalScheduleDAG(n, lv, lp.data(), pp.data(), np.data(), p, i, ng, g, s, d, e);
  o.num("ng", ng); split(o, "groups", g, s, ng); split(o, "dag", d, e, ng);
}
OP(supernode) {
  int n = c.i("n"); VI lp = c.v("lp"), pp = c.v("pp"), np = c.v("np"); Buf<int> gp(c.v("gp")), gs(c.v("gs")), sp(c.v("sp")); int lv = (int)lp.size() - 1;
  HDAGG::convertCNScheduleToSuperNode(n, sp.n - 1, gp, gs, sp, lv, lp, pp, np); put_sched(o, lv, lp, pp, np);
}
OP(cost) {
  int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")), gp(c.v("gp")), gs(c.v("gs")); bool g = c.i("g"); int m = g ? (int)gp.n - 1 : n;
  VI rp = c.v("rp"), ri = c.v("ri"); Buf<int> RP(rp), RI(ri); std::vector<double> w(m, 3.0);
  HDAGG::costComputation(m, p, i, RP, RI, (HDAGG::Kernel)c.i("k"), gp, gs, g, w); VI x(w.begin(), w.end()); o.vec("w", x);
}
OP(twod) {
  int n = c.i("n"); VI lp = c.v("lp"), pp = c.v("pp"), np = c.v("np"); Buf<int> p(c.v("p")), i(c.v("i")); VI tp; std::vector<HDAGG::twoDIteration> it; int lv = (int)lp.size() - 1;
  HDAGG::twoDReordering(n, i.n, p, i, lv, lp, pp, np, 10, tp, it); VVI r; for (auto &x : it) r.push_back({x.i, x.k, x.j}); o.vec("tp", tp); o.vvec("it", r);
}
OP(etree_hd) {
  // row patterns of a lower triangular matrix
  int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")); VI par; HDAGG::computeParents(n, p, i, par); o.vec("parent", par);
  CSR A(n, n, i.n, p.p, i.p, -1); int ne = -77; VI tp, ts; 
  { A.x = NULL; HDAGG::buildETree(&A, ne, tp, ts); } o.num("ne", ne); split(o, "tree", tp, ts, n);
  VVI reach; std::vector<bool> w(n, false); Buf<int> s(n, -1);
  for (int k = 0; k < n; k++) { int top = HDAGG::computeNoneZeroPatternOfRowK(n, p, i, k, par.data(), s, w); VI r; for (int q = top; q < n && q >= 0; q++) r.push_back(s.p[q]); reach.push_back(r); }
  o.vvec("reach", reach); bool clean = true; for (bool b : w) if (b) clean = false; o.boolean("clean", clean);
}
// blocks of equal columns with a limit, for lower and upper halves
OP(bsuper) {
  int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")); CSC A(n, n, i.n); memcpy(A.p, p.p, 4 * (n + 1)); memcpy(A.i, i.p, 4 * i.n); VI one; for (int k = 0; k <= n; k++) one.push_back(k);
  BCSCMatrix B(&A, n, one.data()); int *old = B.getBCSC()->supernodes; int nb = B.supernodes(&A, c.i("lim"), c.i("up") == 0); delete[] old;
  o.num("nb", nb); o.vec("sup", B.getBCSC()->supernodes, nb + 1);
  o.boolean("same", VI(A.p, A.p + n + 1) == c.v("p") && VI(A.i, A.i + i.n) == c.v("i"));
}
#define GRP_GINSPECT ginspect
#define GRP_GDEP gdep
#include "drv_inspect.h"
