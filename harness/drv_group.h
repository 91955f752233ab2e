#pragma once
#include "drv.h"
static void split(Out &o, const char *k, const VI &p, const VI &s, long n) {
  // ptr/set pair -> list of lists; "<k>wf" tells whether ptr was readable
  bool wf = n >= 0 && (long)p.size() >= n + 1 && (p.empty() || p[0] == 0); VVI r;
  for (long g = 0; wf && g < n; g++) { if (p[g + 1] < p[g] || p[g + 1] > (long)s.size()) { wf = false; break; } r.push_back(VI(s.begin() + p[g], s.begin() + p[g + 1])); }
  o.boolean((std::string(k) + "wf").c_str(), wf); o.vvec(k, wf ? r : VVI());
}
