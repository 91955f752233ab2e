// Conformance driver framework: one line per case, "<id> <op> k=v k=v ...".
// Every op calls one public entry point of sympiler/aggregation and records what a caller can observe.
#pragma once
#include <malloc.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>
typedef std::vector<int> VI;
typedef std::vector<VI> VVI;
struct Case {
  std::string id, op;
  std::map<std::string, std::string> kv;
  bool has(const char *k) const { return kv.count(k) > 0; }
  std::string s(const char *k) const { auto it = kv.find(k); return it == kv.end() ? "" : it->second; }
  int i(const char *k, int d = 0) const { auto it = kv.find(k); return it == kv.end() ? d : atoi(it->second.c_str()); }
  VI v(const char *k) const {
    VI r; auto it = kv.find(k); if (it == kv.end()) return r;
    const char *c = it->second.c_str();
    while (*c) { r.push_back((int)strtol(c, (char **)&c, 10)); if (*c == ',') c++; else break; }
    return r;
  }
};
struct Out {
  std::ostringstream o; bool first = true;
  void key(const char *k) { if (!first) o << ","; first = false; o << "\"" << k << "\":"; }
  void num(const char *k, long v) { key(k); if (v > 2000000000L) v = 2000000000L; if (v < -2000000000L) v = -2000000000L; o << v; }
  void boolean(const char *k, bool v) { key(k); o << (v ? "true" : "false"); }
  void str(const char *k, const std::string &v) { key(k); o << "\"" << v << "\""; }
  template <class T> void vec(const char *k, const T *p, size_t n) {
    key(k); o << "["; for (size_t j = 0; j < n; j++) { if (j) o << ","; long v = (long)p[j];
      if (v > 2000000000L) v = 2000000000L; if (v < -2000000000L) v = -2000000000L; o << v; } o << "]"; }
  void vec(const char *k, const VI &v) { vec(k, v.data(), v.size()); }
  void vvec(const char *k, const VVI &v) {
    key(k); o << "["; for (size_t a = 0; a < v.size(); a++) { if (a) o << ","; o << "["; 
      for (size_t j = 0; j < v[a].size(); j++) { if (j) o << ","; o << v[a][j]; } o << "]"; } o << "]"; }
};
typedef std::function<void(const Case &, Out &)> OpFn;
std::map<std::string, OpFn> &ops();
struct Reg { Reg(const char *n, OpFn f) { ops()[n] = f; } };
#define OP(name) static void op_##name(const Case &c, Out &o); static Reg reg_##name(#name, op_##name); static void op_##name(const Case &c, Out &o)
// Exactly sized heap copies, so that a read or write past the end is visible to AddressSanitizer.
template <class T> struct Buf {
  T *p; size_t n;
  Buf(size_t n_, T fill) : p(new T[n_ ? n_ : 1]), n(n_) { for (size_t i = 0; i < n; i++) p[i] = fill; }
  Buf(const VI &v) : p(new T[v.size() ? v.size() : 1]), n(v.size()) { for (size_t i = 0; i < n; i++) p[i] = (T)v[i]; }
  ~Buf() { delete[] p; }
  operator T *() { return p; }
  VI vi() const { VI r; for (size_t i = 0; i < n; i++) r.push_back((int)p[i]); return r; }
  Buf(const Buf &) = delete;
};
// Real inputs are written as integers standing for twice their value, so that fractional values are exercised too.
static inline int dbl(double v) { v *= 2; return v == v && v > -2e9 && v < 2e9 && v == (double)(long)v ? (int)v : 2000000007; }
struct HBuf : Buf<double> {
  HBuf(const VI &v) : Buf<double>(v) { for (size_t k = 0; k < n; k++) p[k] *= .5; }
  VI v2() const { VI r; for (size_t k = 0; k < n; k++) r.push_back(dbl(p[k])); return r; }
};
// how many T's may safely be read at p (bounded by the allocation)
template <class T> size_t room(const T *p) { return p ? malloc_usable_size((void *)p) / sizeof(T) : 0; }
template <class T> VI take(const T *p, long n) {
  VI r; if (!p || n < 0) return r; size_t m = room(p); if ((size_t)n > m) n = m;
  for (long i = 0; i < n; i++) { long v = (long)p[i]; if (v > 2000000000L) v = 2000000000L; if (v < -2000000000L) v = -2000000000L; r.push_back((int)v); } return r;
}
