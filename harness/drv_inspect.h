#define OPX(name) OP(name)
// operations of class group and the dependence builders; compiled for src/group.cpp and for the copies in src/Group
// sym_lib::group inspectors
OPX(GRP_GINSPECT) {
  int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")), gp(n + 1, -5), gs(n, -5), gi(n, -5); int ng = -77; std::string a = c.s("a");
  group g(n, p, i);
  if (a == "ic1") g.inspection_spicocsc_v1(gp, gs, ng, gi); else if (a == "ic2") g.inspection_spicocsc_v2(gp, gs, ng, gi);
  else if (a == "tr1") g.inspection_sptrsvcsr_v1(gp, gs, ng, gi); else if (a == "tr2") g.inspection_sptrsvcsr_v2(gp, gs, ng, gi);
  else g.NaiveGrouping(n, gp, gs, ng, gi, c.i("b", 1));
  o.num("ng", ng); split(o, "groups", gp.vi(), gs.vi(), ng); o.vec("ginv", gi.vi());
}
OPX(GRP_GDEP) {
  // dependence DAG builders used with the group inspectors
  int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")), gp(c.v("gp")), gs(c.v("gs")), gi(c.v("gi")); int ng = gp.n - 1; std::string a = c.s("a"); VVI D(a == "row" ? n : ng);
  if (a == "row") fs_csr_inspector_dep(n, p, i, D);
  else if (a == "grow") fs_csr_inspector_dep(ng, gp, gs, gi, p, i, D);
  else if (a == "ic0") fs_ic0csc_inspector_group(ng, gp, gs, gi, p, i, D);
  else { VVI D0(n); fs_csr_inspector_dep(n, p, i, D0); D = Group_DAG(D0, gp, gs, gi, ng); }
  o.vvec("dag", D);
}
