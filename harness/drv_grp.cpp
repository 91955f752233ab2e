// The classes of src/Group: run groupings, and its copies of the group inspectors.  Compiled with sym_lib renamed.
#include "drv.h"
#ifdef NO_GROUP_SRC
OP(greedy) { o.boolean("absent", true); }
OP(colgroup) { o.boolean("absent", true); }
OP(ginspect2) { o.boolean("absent", true); }
OP(gdep2) { o.boolean("absent", true); }
#else
#include <cmath>
#include <aggregation/def.h>
#include <aggregation/group.h>
#include <aggregation/group_utils.h>
using namespace sym_lib;
#include "drv_group.h"
OP(greedy) {
  int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")); GreedyGrouping g(n, p, i, c.i("sp"), c.i("th") / 2.0, false); g.startGrouping();
  int ng = g.getGroupSize(), nz = g.getGroupNNZ(); Buf<int> r(ng + 1, -5), dp(ng + 1, -5), di(nz, -5);
  g.getGroupedRangeArray(r, ng + 1); g.getGroupedCSCFormat(dp, di, ng + 1, nz); o.num("ng", ng); o.num("gnz", nz); o.vec("range", r.vi()); split(o, "dag", dp.vi(), di.vi(), ng);
  VI k; for (int x = 0; x < ng; x++) k.push_back((int)g.getGroupCost(x)); o.vec("cost", k); o.boolean("inf", g.getGroupCost(-1) == INFINITY && g.getGroupCost(ng) == INFINITY);
  g.mergeSmallGroups(); int mg = g.getGroupSize(); o.num("mg", mg); Buf<int> m(mg + 1, -5); g.getGroupedRangeArray(m, mg + 1); o.vec("mrange", m.vi());
  VI mk; for (int x = 0; x < mg; x++) mk.push_back((int)g.getGroupCost(x)); o.vec("mcost", mk);
  o.boolean("same", p.vi() == c.v("p") && i.vi() == c.v("i"));
}
OP(colgroup) {
  int n = c.i("n"); Buf<int> p(c.v("p")), i(c.v("i")); CollectionGrouping g(n, p, i); VVI seen;
  for (int k = 0; k < 2; k++) {                                      // a second start changes nothing
    if (c.s("a") == "cn") g.startCNGrouping(); else g.startSingleChildGrouping();
    int ng = g.getGroupedDAGNumNodes(), nz = g.getGroupedDAGNumEdges(); VI gs(n, -5), gp(ng + 1, -5), dp(ng + 1, -5), di(nz, -5); g.getGroups(gs, gp); g.getGroupedDAG(dp, di);
    VVI now = {{ng, nz}, gs, gp, dp, di};
    if (k) { o.boolean("again", now == seen); break; }
    seen = now; o.num("ng", ng); o.num("gnz", nz); split(o, "groups", gp, gs, ng); split(o, "dag", dp, di, ng);
  }
  o.boolean("same", p.vi() == c.v("p") && i.vi() == c.v("i"));
}
#define GRP_GINSPECT ginspect2
#define GRP_GDEP gdep2
#include "drv_inspect.h"
#endif
