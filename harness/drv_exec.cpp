// executors (triangular solves driven by the schedules of the library), their statistics, test helpers
#include "drv.h"
#include <aggregation/def.h>
#include <aggregation/group.h>
#include <aggregation/group_utils.h>
#include <aggregation/hdagg.h>
#include <aggregation/lbc.h>
#include <aggregation/sparse_inspector.h>
#include <aggregation/test_utils.h>
#include <aggregation/utils.h>
#include <executor.h>
#include <sptrsv.h>
using namespace sym_lib;
static VI ints(const double *x, size_t n) { VI r; for (size_t k = 0; k < n; k++) { double v = x[k]; r.push_back(v == v && v > -2e9 && v < 2e9 && v == (double)(long)v ? (int)v : 2000000007); } return r; }
struct Sched { int lv = -77, pn = 0; VI lp, pp, np; };
static void inspect(const std::string &h, int n, int *p, int *i, const Case &c, Sched &s) {
  Buf<double> w(n, 1.0); for (int k = 0; k < n; k++) w.p[k] = p[k + 1] - p[k];
  if (h == "given") { s.lp = c.v("lp"); s.pp = c.v("pp"); s.np = c.v("np"); s.lv = (int)s.lp.size() - 1; return; }
  int *lp = 0, *pp = 0, *np = 0; int ip = c.i("ip", 2), ml = c.i("ml", 2), dr = c.i("dr", 2), bp = c.i("bp", 1);
  if (h == "hdagg" || h == "glc2") { VI P(p, p + n + 1), I(i, i + p[n]); std::vector<double> W(w.p, w.p + n);
    if (h == "hdagg") HDAGG::HDAGG(n, P[n], P, I, W, ip, s.lv, s.lp, s.pp, s.np, 0, c.i("po"), bp); else HDAGG::GLC_V2(n, P[n], P, I, W, ip, s.lv, s.lp, s.pp, s.np, 0, c.i("po"), bp); return; }
  if (h == "csc") get_coarse_levelSet_DAG_CSC(n, p, i, s.lv, lp, s.pn, pp, np, ip, ml, dr, w, bp);
  else if (h == "tree") get_coarse_levelSet_DAG_CSC_tree(n, p, i, -1, s.lv, lp, s.pn, pp, np, ip, ml, dr, w);
  else if (h == "par") get_coarse_Level_set_DAG_CSC03_parallel(n, p, i, s.lv, lp, s.pn, pp, np, ip, ml, dr, w, c.i("th", 2), bp);
  else get_coarse_Level_set_DAG_CSC03(n, p, i, s.lv, lp, s.pn, pp, np, ip, ml, dr, w);
  s.lp = take(lp, s.lv < 0 ? 0 : s.lv + 1); s.pp = take(pp, s.lp.empty() ? 0 : s.lp.back() + 1); s.np = take(np, n);
}
static bool sane(const Sched &s, int n) { // shape only: an executor may walk it
  if (s.lv < 0 || (int)s.lp.size() < s.lv + 1 || s.lp[0] != 0) return false;
  for (int l = 0; l < s.lv; l++) if (s.lp[l + 1] < s.lp[l] || s.lp[l + 1] >= (int)s.pp.size()) return false;
  for (int k = 0; k < s.lp[s.lv]; k++) if (s.pp[k] < 0 || s.pp[k + 1] < s.pp[k] || s.pp[k + 1] > (int)s.np.size()) return false;
  for (int k = 0; k < (s.lp[s.lv] ? s.pp[s.lp[s.lv]] : 0); k++) if (s.np[k] < 0 || s.np[k] >= n) return false;
  return true;
}
OP(exec) { // L x = b through one executor, with the schedule the library builds for L
  int n = c.i("n"); VI cp = c.v("p"), ci = c.v("i"); Buf<int> p(cp), i(ci), rp(c.v("rp")), ri(c.v("ri")); HBuf rx(c.v("rx")), x(c.v("b")); for (int k = 0; k < n; k++) x.p[k] *= .5; std::string a = c.s("a"), h = c.s("h"); Sched s;
  bool srt = c.i("sort"), ok = true;
  if (a == "serial") sptrsv_csr(n, rp, ri, rx, x);
  else if (a == "lvl" || a == "lvlseq" || a == "lvl2") { int *lp = 0, *ls = 0; int rv = build_levelSet_CSC(n, p.p, i.p, lp, ls); VI LP = take(lp, rv < 0 ? 0 : rv + 1), LS = take(ls, n); ok = rv >= 0 && (int)LP.size() == rv + 1 && (int)LS.size() == n && LP[rv] == n;
    if (!ok) {} else if (a == "lvl") sptrsv_csr_levelset(n, (const int *)rp.p, (const int *)ri.p, (const double *)rx.p, x.p, rv, (const int *)lp, (const int *)ls);
    else if (a == "lvl2") sptrsv_csr_levelset(n, (const int *)rp.p, (const int *)ri.p, (const double *)rx.p, rv, (const int *)lp, (const int *)ls, x.p);
    else sptrsv_csr_levelset_seq(n, rp, ri, rx, x, rv, lp, ls); }
  else if (a == "lbc" || a == "lbcseq") { inspect(h, n, p, i, c, s); ok = sane(s, n); if (ok && srt) for (int k = 0; k < s.lp[s.lv]; k++) std::sort(s.np.begin() + s.pp[k], s.np.begin() + s.pp[k + 1]);
    if (ok && a == "lbc") sptrsv_csr_lbc(n, rp, ri, rx, x, s.lv, s.lp.data(), s.pp.data(), s.np.data()); else if (ok) sptrsv_csr_lbc_seq(n, rp, ri, rx, x, s.lv, s.lp.data(), s.pp.data(), s.np.data()); }
  else { // groups of rows first
    Buf<int> gp(n + 1, 0), gs(n, 0), gi(n, 0); int ng = 0; group g(n, rp, ri); if (c.i("gk") == 3) { VI x = c.v("gp"), y = c.v("gs"), z = c.v("gi"); ng = (int)x.size() - 1; std::copy(x.begin(), x.end(), gp.p); std::copy(y.begin(), y.end(), gs.p); std::copy(z.begin(), z.end(), gi.p); }
    else if (c.i("gk") == 0) g.inspection_sptrsvcsr_v1(gp, gs, ng, gi); else if (c.i("gk") == 1) g.NaiveGrouping(n, gp, gs, ng, gi, c.i("gb", 1)); else g.inspection_sptrsvcsr_v2(gp, gs, ng, gi);
    VVI D(ng); fs_csr_inspector_dep(ng, gp, gs, gi, rp, ri, D); VI gv(1, 0), ge; for (int k = 0; k < ng; k++) { ge.push_back(k); VI d = D[k]; std::sort(d.begin(), d.end()); d.erase(std::unique(d.begin(), d.end()), d.end()); for (int y : d) ge.push_back(y); gv.push_back(ge.size()); }
    Buf<int> GV(gv), GE(ge);
    if (a == "glbc") { inspect(h, ng, GV, GE, c, s); ok = sane(s, ng); if (ok) sptrsv_csr_group_lbc(n, rp, ri, rx, x, s.lv, s.lp.data(), s.pp.data(), s.np.data(), gp, gs); }
    else { Buf<int> LP(n + 1, 0), LS(n, 0); int *q = LP.p, *r = LS.p; int rv = buildLevelSet_CSC_Queue(ng, ge.size(), GV, GE, q, r); ok = rv >= 0;
      if (a == "glvl") sptrsv_csr_group_levelset(rp, ri, rx, x, rv, q, r, gp, gs); else o.num("rv", fs_csr_executor_sgroup(n, rp, ri, rx, x, x, gp, gs, ng, rv, q, r)); }
  }
  o.boolean("wf", ok); o.vec("out", x.v2()); o.boolean("same", p.vi() == cp && i.vi() == ci && rp.vi() == c.v("rp") && ri.vi() == c.v("ri") && rx.v2() == c.v("rx"));
}
OP(stats) {
  int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")), rp(c.v("rp")), ri(c.v("ri")), lp(c.v("lp")), pp(c.v("pp")), np(c.v("np")), gp(c.v("gp")), gs(c.v("gs")), glp(c.v("glp")), gpp(c.v("gpp")), gnp(c.v("gnp")); std::string a = c.s("a");
  int f = -1, q = -1, r = -1, L = lp.n - 1, GL = glp.n - 1; Buf<int> l(std::max(L, GL), -7);
  if (a == "row") fs_csr_stat(n, rp, ri, f, q, r); else if (a == "ic0") ic0_csc_stat(n, p, i, f, q, r);
  else if (a == "lbc") sptrsv_csr_lbc_stat(n, rp, ri, L, lp, pp, np, l);
  else if (a == "glbc") sptrsv_csr_group_lbc_stat(n, rp, ri, GL, glp, gpp, gnp, gp, gs, l);
  else fs_csr_levelset_stat(rp, ri, gp, gs, GL, gpp, gnp, l);
  o.vec("out", VI{f, q, r}); VI v = l.vi(); v.resize(a == "lbc" ? L : GL); o.vec("l", v);
}
OP(util) {
  std::string a = c.s("a");
  if (a == "eqc") { Buf<int> x(c.v("x")); o.boolean("r", is_equal((int)x.n, (const int *)x.p, c.i("val"))); }
  else if (a == "eqv") { HBuf x(c.v("x")), y(c.v("y")); for (size_t k = 0; k < x.n; k++) { if (c.i("nx") == (int)k) x.p[k] = 0.0 / 0.0; if (c.i("ny") == (int)k) y.p[k] = 0.0 / 0.0; } o.boolean("r", is_equal(c.i("lb"), c.i("ub"), (const double *)x.p, (const double *)y.p)); }
  else if (a == "eqm") { auto mk = [&](const char *s) { std::string z(s); auto k = [&](const char *f) { return f + z; }; VI p = c.v(k("p").c_str()), i = c.v(k("i").c_str()), x = c.v(k("x").c_str()); CSC *A = new CSC(c.i(k("m").c_str()), c.i(k("n").c_str()), i.size());
      std::copy(p.begin(), p.end(), A->p); for (size_t q = 0; q < i.size(); q++) { A->i[q] = i[q]; A->x[q] = x[q] * .5; } return A; }; o.boolean("r", is_equal(mk("a"), mk("b"))); }
  else if (a == "rhs") { int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")); HBuf x(c.v("x")), b(VI(n, -9)); rhs_init(n, p, i, x, b); o.vec("out", b.v2()); }
  else if (a == "rhsb") { int n = c.i("n"); VI pv = c.v("p"), lv = c.v("lip"); std::vector<size_t> P(pv.begin(), pv.end()), Q(lv.begin(), lv.end()); Buf<int> i(c.v("i")); HBuf x(c.v("x")), b(VI(n, -9)); rhs_init_blocked(n, c.i("nb"), P.data(), i, Q.data(), x, b); o.vec("out", b.v2()); }
  else if (a == "uniq") { Buf<int> x(c.v("x")); o.boolean("r", test_unique(x.n, x)); }
  else if (a == "rvec") { VI r; generate_uniq_rand_vector(c.i("m"), c.i("n"), r, c.i("seed")); VI r2; generate_uniq_rand_vector(c.i("m"), c.i("n"), r2, c.i("seed")); o.vec("out", r); o.boolean("rep", r == r2); }
  else if (a == "rmat") { int n = c.i("n"); CSC *A = random_square_sparse(n, c.i("den") / 100.0, c.i("mx"), c.i("seed")); o.num("om", A->m); o.num("on", A->n); o.num("onnz", A->nnz); VI P = take(A->p, n + 1); o.vec("ocp", P); o.vec("oi", take(A->i, P.empty() ? 0 : P.back())); bool in = true; for (int k = 0; k < (P.empty() ? 0 : P.back()); k++) in = in && A->x[k] >= 0 && A->x[k] <= c.i("mx"); o.boolean("in", in); }
  else if (a == "med") { std::vector<timing_measurement> t; for (int x : c.v("x")) { timing_measurement m; m.elapsed_time = x; t.push_back(m); } o.num("r", (long)time_median(t).elapsed_time); }
  else if (a == "sum") { Buf<int> x(c.v("x")); o.num("r", sum_vector((int)x.n, x.p)); }
  else if (a == "mul") { int ok = c.i("ok"); size_t r = mult_size_t(((size_t)c.i("x")) << c.i("sh"), c.i("y"), &ok); o.num("ok", ok); o.num("r", (long)(r >> c.i("sh"))); }
  else if (a == "add") { int ok = c.i("ok"); size_t r = add_size_t(((size_t)c.i("x")) << c.i("sh"), ((size_t)c.i("y")) << c.i("sh"), &ok); o.num("ok", ok); o.num("r", (long)(r >> c.i("sh"))); }
  else if (a == "name") o.str("r", strip_name(c.s("s")));
}
