// record files, demo protocol, AMD ordering, Matrix Market primitives
#include "drv.h"
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <aggregation/csv_utils.h>
static std::string jesc(const std::string &s) {
  std::string r; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32 || (unsigned char)c > 126) { r += '?'; } else r += c; } return r;
}
static void strs(Out &o, const char *k, const std::vector<std::string> &v) { o.key(k); o.o << "["; for (size_t j = 0; j < v.size(); j++) o.o << (j ? "," : "") << '"' << jesc(v[j]) << '"'; o.o << "]"; }
static std::string slurp(const std::string &f) { std::ifstream s(f, std::ios::binary); if (!s) return "(absent)"; std::stringstream b; b << s.rdbuf(); return b.str(); }
OP(csv) {
  using profiling_utils::CSVManager; VI ev = c.v("ev"); std::unique_ptr<CSVManager> m[2]; std::vector<std::string> seen, heads;
  char d[] = "./csvXXXXXX"; if (!mkdtemp(d)) { o.str("st", "no scratch"); return; }
  char cwd[4096]; if (!getcwd(cwd, sizeof cwd) || chdir(d)) { o.str("st", "no scratch"); return; }
  for (size_t k = 0; k + 4 < ev.size(); k += 5) {
    int g = ev[k + 1] & 1, a = ev[k + 2], b = ev[k + 3], v = ev[k + 4];
    if (ev[k] == 0) { std::vector<std::string> cols; for (int q = 0; q < b; q++) cols.push_back("c" + std::to_string(a + q)); m[g].reset(new CSVManager("f" + std::to_string(a), "", cols, v)); }
    else if (ev[k] == 1) { std::string col = "c" + std::to_string((heads.size() >= 2 && m[g] ? atoi(m[g]->getHeaderNames()[0].c_str() + 1) : 0) + a);
      if (b == 0) m[g]->addElementToRecord(v, col, c.i("pr")); else if (b == 1) m[g]->addElementToRecord(std::string("s") + std::to_string(v), col, c.i("pr"));
      else if (b == 2) m[g]->addElementToRecord(v + .5, col, c.i("pr")); else { std::string s = "k" + std::to_string(v); m[g]->addElementToRecord(s.c_str(), col, c.i("pr")); } }
    else if (ev[k] == 2) m[g]->addRecord();
    else if (ev[k] == 3) m[g].reset();
    else { std::ofstream f("f" + std::to_string(g) + ".csv", std::ios::trunc); f << "old\n"; }
    for (int q = 0; q < 2; q++) { seen.push_back(slurp("f" + std::to_string(q) + ".csv")); std::string h; if (m[q]) for (auto &x : m[q]->getHeaderNames()) h += x + ";"; heads.push_back(h); }
  }
  m[0].reset(); m[1].reset(); unlink("f0.csv"); unlink("f1.csv"); if (chdir(cwd)) {} rmdir(d);
  strs(o, "files", seen); strs(o, "heads", heads);
}

// ---- measurement protocol; the clock is the driver's: 1 tick = 1 second of a clock that only moves when told to
#include <aggregation/def.h>
#include <aggregation/FusionDemo.h>
#include <atomic>
#include <chrono>
#include <cmath>
#include <time.h>
static std::atomic<long> fake_now(-1);
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept {
  if (fake_now >= 0) return time_point(duration_cast<duration>(seconds((long)fake_now)));
  timespec t; clock_gettime(CLOCK_REALTIME, &t); return time_point(duration(chrono::seconds(t.tv_sec) + chrono::nanoseconds(t.tv_nsec))); } } } }
struct Capture { std::ostringstream s; std::streambuf *old; Capture() : old(std::cout.rdbuf(s.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); } };
struct LogDemo : sym_lib::FusionDemo {
  VI ev, times, want; int ran = 0, delta, at; bool nan, clean_at_reset = true; Capture *cap = 0; int bt;
  std::vector<double> last; double *ref;
  LogDemo(int n, const VI &t, const VI &w, int d, int a, bool q, bool hasref, int b) : sym_lib::FusionDemo(n, "demo"), times(t), want(w), delta(d), at(a), nan(q), bt(b), ref(0) { init(n, hasref); }
  LogDemo(int n, int nnz, const VI &t, const VI &w, int d, int a, bool q, bool hasref, int b) : sym_lib::FusionDemo(n, nnz, "demo"), times(t), want(w), delta(d), at(a), nan(q), bt(b), ref(0) { init(n, hasref); }
  void init(int n, bool hasref) { ref = new double[n ? n : 1]; for (int k = 0; k < n; k++) ref[k] = want[k]; if (hasref) correct_x_ = ref; }
  ~LogDemo() { delete[] ref; }
  void put(int a, int b) { ev.push_back(a); ev.push_back(b); }
  bool clean() { for (int k = 0; k < n_; k++) if (x_in_[k] != 1.0 || x_[k] != 0.0) return false; return true; }
  void build_set() override { put(1, 0); fake_now += bt; }
  void setting_up() override { sym_lib::FusionDemo::setting_up(); put(2, clean()); }
  sym_lib::timing_measurement fused_code() override {
    put(3, clean()); sym_lib::timing_measurement t; t.start_timer(); fake_now += 3; t.measure_elapsed_time(); t.elapsed_time = times[ran++ % times.size()];
    for (int k = 0; k < n_; k++) { x_[k] = want[k] + (k == at ? delta * 1e-7 : 0.0); x_in_[k] = -7; }
    if (nan && at < n_) x_[at] = NAN; last.assign(x_, x_ + n_); return t; }
  void testing() override { std::string b = cap->s.str(); sym_lib::FusionDemo::testing(); std::string a = cap->s.str().substr(b.size()); put(4, a.empty() ? 0 : a == "demo code != reference solution.\n" ? 1 : 9); }
};
OP(demo) {
  VI t = c.v("times"), w = c.v("w"), ops = c.v("runs"); int n = w.size(); fake_now = 100;
  { std::unique_ptr<LogDemo> d(c.i("ctor") ? new LogDemo(n, 7, t, w, c.i("delta"), c.i("at"), c.i("nan"), c.i("ref"), c.i("bt")) : new LogDemo(n, t, w, c.i("delta"), c.i("at"), c.i("nan"), c.i("ref"), c.i("bt")));
    Capture cap; d->cap = &cap;
    for (int r : ops) { if (r >= 0) { d->set_num_test(r); d->put(7, r); } double m = d->evaluate().elapsed_time; d->put(5, (int)lround(m)); d->put(6, (int)lround(d->analysisTime().elapsed_time)); }
    bool lost = d->Name() != "demo"; double *s = d->solution(); for (int k = 0; k < n && !d->last.empty(); k++) if (!(s[k] == d->last[k] || (std::isnan(s[k]) && std::isnan(d->last[k])))) lost = true;
    o.vec("ev", d->ev); o.num("left", lost); }
  fake_now = -1;
}
OP(clock) {
  VI ck = c.v("ck"), el, ta; fake_now = 0; sym_lib::timing_measurement t; double init = t.elapsed_time; long base = 0;
  for (size_t k = 0; k + 1 < ck.size(); k += 2) { if (ck[k] == 0) fake_now += ck[k + 1]; else if (ck[k] == 1) t.start_timer(); else { double r = t.measure_elapsed_time(); el.push_back(r == t.elapsed_time ? (int)lround(r) : -9); } }
  for (auto &x : t.t_array) ta.push_back((int)(std::chrono::duration_cast<std::chrono::seconds>(x.time_since_epoch()).count() - base));
  o.vec("el", el); o.vec("ta", ta); o.num("in", (long)init); fake_now = -1;
}
OP(common) {
  int n = c.i("n"), zb = c.i("zb"), zl = c.i("zl"); sym_lib::CSC B(n, n, zb); std::unique_ptr<sym_lib::CSC> L(zl >= 0 ? new sym_lib::CSC(n, n, zl) : 0); Capture cap;
  if (c.i("hdr")) sym_lib::print_common_header(); else sym_lib::print_common(c.s("s1"), c.s("s2"), c.s("s3"), &B, L.get(), c.i("nth"));
  o.str("out", cap.s.str());
}

// ---- AMD: ordering of a square pattern, validity test, transposition, postordering of an assembly tree
#include <aggregation/amd.h>
extern "C" { void amd_preprocess(int n, const int Ap[], const int Ai[], int Rp[], int Ri[], int W[], int Flag[]);
             void amd_postorder(int nn, int Parent[], int Npiv[], int Fsize[], int Order[], int Child[], int Sibling[], int Stack[]); }
OP(amd) {
  int n = c.i("n"), cut = c.i("nul"); VI pv = c.v("p"), iv = c.v("i"); Buf<int> Ap(pv), Ai(iv), P(n > 0 ? n : 0, -7); double ctl[AMD_CONTROL], was[AMD_CONTROL], info[AMD_INFO];
  amd_defaults(ctl); int dflt = ctl[AMD_DENSE] == 10 && ctl[AMD_AGGRESSIVE] != 0;
  if (c.has("al")) ctl[AMD_DENSE] = c.i("al") * .5; if (c.has("ag")) ctl[AMD_AGGRESSIVE] = c.i("ag"); memcpy(was, ctl, sizeof ctl); for (double &x : info) x = -5;
  int stat = amd_order(n, cut == 1 ? nullptr : (int *)Ap, cut == 2 ? nullptr : (int *)Ai, cut == 3 ? nullptr : (int *)P, c.i("nc") ? nullptr : ctl, c.i("ni") ? nullptr : info);
  o.num("stat", stat); o.boolean("dflt", dflt); o.boolean("same", !memcmp(was, ctl, sizeof ctl) && Ap.vi() == pv && Ai.vi() == iv);
  o.vec("P", P.vi()); VI f; for (double x : info) f.push_back(x == x && x > -2e9 && x < 2e9 && x == (long)x ? (int)x : 2000000007);
  double off = info[AMD_NZ] - info[AMD_NZDIAG], m = info[AMD_SYMMETRY] * off; f[AMD_SYMMETRY] = off == 0 ? (int)info[AMD_SYMMETRY] : std::fabs(m - std::round(m)) < 1e-6 ? (int)std::round(m) : -1;
  o.vec("info", f);
  if (cut == 0 && n >= 0) o.num("valid", amd_valid(n, n, Ap, Ai)); else o.num("valid", -9);
}
OP(amdvalid) { int r = c.i("nr"), n = c.i("n"); Buf<int> Ap(c.v("p")), Ai(c.v("i")); int k = c.i("nul"); o.num("stat", amd_valid(r, n, k == 1 ? nullptr : (int *)Ap, k == 2 ? nullptr : (int *)Ai)); }
OP(amdpre) {
  int n = c.i("n"); VI pv = c.v("p"), iv = c.v("i"); Buf<int> Ap(pv), Ai(iv), Rp(n + 1, -7), Ri(iv.size(), -7), W(n, 0), F(n, 0);
  amd_preprocess(n, Ap, Ai, Rp, Ri, W, F); o.boolean("same", Ap.vi() == pv && Ai.vi() == iv); o.vec("rp", Rp.vi()); int m = Rp[n]; o.vec("ri", take((int *)Ri, m < 0 ? 0 : m));
}
OP(amdpost) {
  VI pa = c.v("pa"), nv = c.v("nv"), fs = c.v("fs"); int n = pa.size(); Buf<int> Pa(pa), Nv(nv), Fs(fs), Or(n, -7), Ch(n, 0), Si(n, 0), St(n, 0);
  amd_postorder(n, Pa, Nv, Fs, Or, Ch, Si, St); o.boolean("same", Pa.vi() == pa && Nv.vi() == nv && Fs.vi() == fs); o.vec("ord", Or.vi());
}

// ---- Matrix Market primitives
#include <aggregation/mmio.h>
#include <dirent.h>
namespace sym_lib { int mm_read_mtx_crd(char *, int *, int *, int *, int **, int **, double **, MM_typecode *); }
static int nfds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
static VI quarters(const double *v, size_t n) { VI r; for (size_t k = 0; v && k < n; k++) { double q = v[k] * 4; r.push_back(q == q && q > -2e9 && q < 2e9 && q == (double)(long)q ? (int)q : 2000000007); } return r; }
static std::string num4(int q) { char b[64]; snprintf(b, sizeof b, "%.2f", q / 4.0); return b; }
static const char *const MW[4][4] = {{"matrix", "vector", "", ""}, {"coordinate", "array", "elemental", ""}, {"real", "complex", "pattern", "integer"}, {"general", "symmetric", "hermitian", "skew-symmetric"}};
// bn: banner word kinds (0 right, 1 capitals, 2 wrong, 3 very long, 4 missing from here on); ty: which words
static std::string mmtext(const Case &c) {
  VI bn = c.v("bn"), ty = c.v("ty"), sz = c.v("sz"), e = c.v("e"); std::string t, w;
  for (int k = 0; k < 5 && bn[k] != 4; k++) {
    w = k == 0 ? "%%MatrixMarket" : MW[k - 1][k == 1 ? 0 : ty[k - 2]];
    if (bn[k] == 1) for (char &x : w) x = toupper(x); if (bn[k] == 2) w = k == 0 ? "%MatrixMarket" : "other"; if (bn[k] == 3) w = std::string(c.i("len", 100), 'x');
    t += (k ? (c.i("ws") ? "  " : " ") : "") + w;
  }
  if (c.i("cut0")) return t.substr(0, 0);
  t += "\n"; for (int k = 0; k < c.i("com"); k++) t += "% comment 1 2 3\n"; for (int k = 0; k < c.i("bl"); k++) t += "\n";
  if (c.i("junk")) t += "size\nsize\n";
  std::vector<std::string> nums; size_t nsz = sz.size(); for (int x : sz) nums.push_back(std::to_string(x));
  for (size_t k = 0; k + 3 < e.size(); k += 4) { nums.push_back(std::to_string(e[k])); nums.push_back(std::to_string(e[k + 1])); if (ty[1] == 3) nums.push_back(std::to_string(e[k + 2] / 4)); else if (ty[1] != 2) nums.push_back(num4(e[k + 2])); if (ty[1] == 1) nums.push_back(num4(e[k + 3])); }
  size_t per = ty[1] == 2 ? 2 : ty[1] == 1 ? 4 : 3, keep = c.has("keep") ? c.i("keep") : nums.size();
  for (size_t k = 0; k < nums.size() && k < keep; k++) t += nums[k] + (k + 1 == nsz || (k >= nsz && (k - nsz + 1) % per == 0) ? "\n" : " ");
  return t;
}
OP(mmread) {
  using namespace sym_lib; char f[] = "./mmXXXXXX"; int fd = mkstemp(f); std::string t = mmtext(c); if (fd < 0 || write(fd, t.data(), t.size()) != (ssize_t)t.size()) { o.str("st", "no scratch"); return; } close(fd);
  int a = c.i("a"), M = -7, N = -7, nz = -7, ret = -9, *I = nullptr, *J = nullptr; double *V = nullptr; MM_typecode tc; memset(tc, '?', 4); VI vi, vj, vv; int before = nfds();
  if (c.i("none")) unlink(f);
  if (a == 0) ret = mm_read_mtx_crd(f, &M, &N, &nz, &I, &J, &V, &tc);
  else if (a == 1) ret = mm_read_unsymmetric_sparse(f, &M, &N, &nz, &V, &I, &J);
  else { FILE *s = fopen(f, "r"); ret = mm_read_banner(s, &tc); if (ret == 0) ret = a == 3 ? mm_read_mtx_array_size(s, &M, &N) : mm_read_mtx_crd_size(s, &M, &N, &nz);
    if (ret == 0 && a == 2) { for (int k = 0; k < nz && ret == 0; k++) { int i = 0, j = 0; double re = -5, im = -5; ret = mm_read_mtx_crd_entry(s, &i, &j, &re, &im, tc); if (!ret) { vi.push_back(i); vj.push_back(j); double d[2] = {re, im}; VI q = quarters(d, 2); vv.push_back(q[0]); vv.push_back(q[1]); } } }
    if (ret == 0 && a == 4) { Buf<int> bi(nz, -7), bj(nz, -7); Buf<double> bv(2 * nz, -5.0); ret = mm_read_mtx_crd_data(s, M, N, nz, bi, bj, bv, tc); vi = bi.vi(); vj = bj.vi(); vv = quarters(bv, 2 * nz); }
    fclose(s); }
  o.num("ret", ret); o.num("fds", nfds() - before); o.str("tc", jesc(std::string(tc, 4)));
  o.num("M", M); o.num("N", N); o.num("nz", nz);
  if (a < 2 && ret == 0) { vi = take(I, nz); vj = take(J, nz); if (V) { size_t m = room(V), want = nz * (a == 0 && mm_is_complex(tc) ? 2 : 1); vv = quarters(V, m < want ? m : want); } free(I); free(J); free(V); }
  o.vec("I", vi); o.vec("J", vj); o.vec("V", vv); o.num("valid", a == 1 ? -1 : mm_is_valid(tc));
  char *w = a != 1 && ret == 0 ? mm_typecode_to_str(tc) : nullptr; o.str("words", w ? jesc(w) : ""); free(w);
  unlink(f);
}
OP(mmwrite) {
  using namespace sym_lib; char f[] = "./mmXXXXXX"; int fd = mkstemp(f); if (fd < 0) { o.str("st", "no scratch"); return; } close(fd);
  VI ty = c.v("ty"), sz = c.v("sz"), e = c.v("e"), ri; int a = c.i("a"), before = nfds(); MM_typecode tc; mm_clear_typecode(&tc); mm_set_matrix(&tc);
  if (ty[0] == 0) mm_set_sparse(&tc); else mm_set_dense(&tc);
  if (ty[1] == 0) mm_set_real(&tc); else if (ty[1] == 1) mm_set_complex(&tc); else if (ty[1] == 2) mm_set_pattern(&tc); else mm_set_integer(&tc);
  if (ty[2] == 0) mm_set_general(&tc); else if (ty[2] == 1) mm_set_symmetric(&tc); else if (ty[2] == 2) mm_set_hermitian(&tc); else mm_set_skew(&tc);
  if (a == 0) { // whole matrix; values are quarters, or (bits) doubles with a full mantissa
    size_t nz = e.size() / 4; Buf<int> I(nz, 0), J(nz, 0); Buf<double> V(2 * nz, 0.0); bool cx = ty[1] == 1; double div = c.i("bits") ? 3.0 : 4.0;
    for (size_t k = 0; k < nz; k++) { I[k] = e[4 * k]; J[k] = e[4 * k + 1]; if (cx) { V[2 * k] = e[4 * k + 2] / div; V[2 * k + 1] = e[4 * k + 3] / div; } else V[k] = ty[1] == 3 ? e[4 * k + 2] / 4 : e[4 * k + 2] / div; }
    ri.push_back(mm_write_mtx_crd(f, sz[0], sz[1], (int)nz, I, J, V, tc)); bool back = true;
    { std::ifstream s(f); std::string l; std::getline(s, l); std::getline(s, l); for (size_t k = 0; k < nz; k++) { double x; s >> x >> x; if (ty[1] != 2) { s >> l; back = back && strtod(l.c_str(), 0) == (cx ? V[2 * k] : V[k]); } if (cx) { s >> l; back = back && strtod(l.c_str(), 0) == V[2 * k + 1]; } } }
    o.boolean("back", back); bool same = true; for (size_t k = 0; k < nz; k++) same = same && I[k] == e[4 * k] && J[k] == e[4 * k + 1]; o.boolean("same", same);
  } else { FILE *s = fopen(f, "w"); ri.push_back(mm_write_banner(s, tc)); ri.push_back(a == 1 ? mm_write_mtx_crd_size(s, sz[0], sz[1], sz[2]) : mm_write_mtx_array_size(s, sz[0], sz[1])); fclose(s); o.boolean("back", true); o.boolean("same", true); }
  o.vec("ret", ri); o.num("fds", nfds() - before);
  std::ifstream s(f); std::string l; std::getline(s, l); o.str("first", jesc(l)); VVI rows; while (std::getline(s, l)) { std::istringstream q(l); double x; VI r; int k = 0; while (q >> x) { x *= rows.empty() || k < 2 || c.i("bits") ? 1 : 4; k++; r.push_back(x == (double)(long)x ? (int)x : 2000000007); } if (!q.eof()) r.push_back(2000000007); rows.push_back(r); }
  o.vvec("rows", rows); unlink(f);
}
OP(mmfull) { // a stream that takes nothing: the writers say so
  using namespace sym_lib; MM_typecode tc; mm_clear_typecode(&tc); mm_set_matrix(&tc); mm_set_sparse(&tc); mm_set_real(&tc); VI r;
  for (int k = 0; k < 3; k++) { FILE *s = fopen("/dev/full", "w"); if (!s) { r.push_back(17); continue; } setvbuf(s, 0, _IONBF, 0); r.push_back(k == 0 ? mm_write_banner(s, tc) : k == 1 ? mm_write_mtx_crd_size(s, 1, 1, 1) : mm_write_mtx_array_size(s, 1, 1)); fclose(s); }
  o.vec("ret", r);
}

// ---- text forms
#include <aggregation/sparse_io.h>
#include <aggregation/sparse_utilities.h>
OP(text) {
  using namespace sym_lib; std::string a = c.s("a"), t; VI p = c.v("p"), i = c.v("i"), lp = c.v("lp"), pp = c.v("pp"), xv = c.v("x"); int n = c.i("n");
  char f[] = "./txXXXXXX"; int fd = mkstemp(f); if (fd < 0) { o.str("st", "no scratch"); return; }
  Buf<double> x(xv.size(), 0.0); for (size_t k = 0; k < xv.size(); k++) x[k] = xv[k] / 4.0;
  Buf<int> P(p), I(i), LP(lp), PP(pp), XI(xv); std::ostringstream cap; std::streambuf *old = std::cout.rdbuf(cap.rdbuf()); bool fromfd = false;
  if (a == "csc" || a == "csr") { fromfd = true; double *X = c.i("nox") ? nullptr : (double *)x; if (a == "csr") print_csr(fd, c.s("h"), n, P, I, X); else if (c.i("obj")) { CSC A(n, n, (int)i.size(), P.p, I.p, 0); A.x = X; print_csc(fd, c.s("h"), &A); A.x = nullptr; } else print_csc(fd, c.s("h"), n, P, I, X); }
  else if (a == "dense") { fromfd = true; Dense D(c.i("m"), n, 1); for (size_t k = 0; k < x.n; k++) D.a[k] = x[k]; print_dense(fd, &D); }
  else if (a == "levels") print_level_set(c.s("h"), n, LP, I);
  else if (a == "hlevels") print_hlevel_set(c.s("h"), n, LP, PP, I);
  else if (a == "vec") print_vec(c.s("h"), c.i("b"), c.i("e"), (double *)x);
  else if (a == "ivec") print_vec(c.s("h"), c.i("b"), c.i("e"), (int *)XI);
  else if (a == "save") { fromfd = true; save_vector(f, x, (int)x.n); }
  else if (a == "names") { for (int k : {REAL, INT, COMPLEX, PATTERN}) t += type_str(k) + ","; t += type_str(17) + ";"; for (int k : {COORDINATE, ARRAY}) t += format_str(k) + ","; t += format_str(17) + ";"; for (int k : {LOWER, UPPER, GENERAL}) t += std::to_string(shape2int(k)) + ","; }
  std::cout.rdbuf(old); close(fd); if (a != "names") t = fromfd ? slurp(f) : cap.str(); unlink(f);
  o.str("t", jesc(t)); o.boolean("same", P.vi() == p && I.vi() == i && LP.vi() == lp && PP.vi() == pp && XI.vi() == xv);
}
