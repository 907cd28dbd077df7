// Shared harness library: deterministic RNG, reporting, problem generators and
// the independent (long double) KKT oracle.  Only C stdio + std::vector are
// used so that the same code also runs under MemorySanitizer.
#ifndef VF_COMMON_HPP
#define VF_COMMON_HPP
#include <qpOASES.hpp>
#include <vector>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <cstdint>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#ifdef VF_SCHUR
#include "ma57_stub.hpp"
#endif

#ifdef __NO_SNPRINTF__ // the library defines an empty snprintf in such configurations
namespace vf { inline int fmtn(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int k = vsnprintf(b, n, f, ap); va_end(ap); return k; } }
#define snprintf vf::fmtn
#endif
namespace vf {
using namespace qpOASES;
typedef std::vector<double> vec;
typedef long double ld;

// ------------------------------------------------------------------- rng --
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  double u01() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u01(); }
  int range(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }   // inclusive
  bool chance(double p) { return u01() < p; }
  double nrm() { double u = u01(), v = u01(); if (u < 1e-300) u = 1e-300; return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v); }
  double sgn() { return chance(0.5) ? 1.0 : -1.0; }
  template <class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[(size_t)(next() % i)]); }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ULL + b + 0x1234567ULL); r.next(); return r.next(); }

// ------------------------------------------------------------- reporting --
struct Stat { char name[48]; long long v; };
struct Reporter {
  uint64_t seed; long from, to, cur; int thorough; int verbose; int progfd; int outfd;
  std::vector<Stat> stats; std::vector<uint64_t> sigs; int nsamples; long nviol; int cpu_limit;
  const char* variant;
  Reporter() : seed(1), from(0), to(0), cur(-1), thorough(0), verbose(0), progfd(-1), outfd(1), nsamples(0), nviol(0), cpu_limit(20), variant("") {}
};
inline Reporter& R() { static Reporter r; return r; }
inline void outf(const char* fmt, ...) {
  char buf[4000]; va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (n >= (int)sizeof buf) n = (int)sizeof buf - 1;
  int off = 0; while (off < n) { ssize_t k = ::write(R().outfd, buf + off, (size_t)(n - off)); if (k <= 0) break; off += (int)k; }
}
inline void add(const char* name, long long d = 1) {
  std::vector<Stat>& s = R().stats;
  for (size_t i = 0; i < s.size(); ++i) if (!strcmp(s[i].name, name)) { s[i].v += d; return; }
  Stat t; memset(&t, 0, sizeof t); strncpy(t.name, name, sizeof t.name - 1); t.v = d; s.push_back(t);
}
inline void smax(const char* name, double v) { // keeps a maximum as 1e18-scaled log value: stored as text later
  std::vector<Stat>& s = R().stats; long long iv = (long long)(v > 0 ? 1000.0 * std::log10(v) : -99000.0);
  char nm[48]; snprintf(nm, sizeof nm, "max_mlog10:%s", name);
  for (size_t i = 0; i < s.size(); ++i) if (!strcmp(s[i].name, nm)) { if (iv > s[i].v) s[i].v = iv; return; }
  Stat t; memset(&t, 0, sizeof t); strncpy(t.name, nm, sizeof t.name - 1); t.v = iv; s.push_back(t);
}
inline void sig(uint64_t h) { R().sigs.push_back(h); }
inline void sample(const char* fmt, ...) {
  if (R().nsamples >= 3) return; R().nsamples++;
  char buf[1500]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  for (char* p = buf; *p; ++p) if (*p == '\n' || *p == '\t') *p = ' ';
  outf("SAMPLE\t%ld\t%s\n", R().cur, buf);
}
// a violation: key is a stable identification of *what* fails, detail is free text
inline void viol(const char* key, const char* fmt, ...) {
  char buf[1500]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  for (char* p = buf; *p; ++p) if (*p == '\n' || *p == '\t') *p = ' ';
  R().nviol++;
  outf("VIOL\t%ld\t%s\t%s\n", R().cur, key, buf);
}
inline void info(const char* fmt, ...) {
  if (!R().verbose) return;
  char buf[3000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  outf("INFO\t%s\n", buf);
}
inline uint64_t hbytes(uint64_t h, const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; } return h; }
inline uint64_t hvec(uint64_t h, const vec& v) { return v.empty() ? h * 31 + 7 : hbytes(h, &v[0], v.size() * sizeof(double)); }

inline void onHang(int) {
  char b[96]; int n = snprintf(b, sizeof b, "HANG\t%ld\n", R().cur); ssize_t k = ::write(R().outfd, b, (size_t)n); (void)k; _exit(97);
}
inline void armCpu(int s) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s; setitimer(ITIMER_PROF, &it, 0); }

// context tag of the running case: part of the key of leak reports
inline char* tagBuf() { static char t[64] = ""; return t; }
inline void tag(const char* t) { snprintf(tagBuf(), 64, "%s", t); }
typedef void (*CaseFn)(long idx, Rng& rng);
} // namespace vf
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
namespace vf {
inline long long liveBytes() { return __sanitizer_get_current_allocated_bytes ? (long long)__sanitizer_get_current_allocated_bytes() : 0; }
// driver main: every case i uses its own RNG seeded by (seed, i): any case replays alone.
// options that change the effort only, varied per case on top of the presets (harnesses opt in with varyOptions())
struct OptVar { bool enabled, keepDrift, keepFlip, near; double relax, far, grow; int reg, drift, chol, refine; int li, nzc, eq, flip; double ramp0, ramp1; };
inline OptVar& OV() { static OptVar v = {false, false, false, false, 0, 0, 0, -1, -1, -1, -1, -1, -1, -1, -1, 0, 0}; return v; }
inline void drawOptVar(uint64_t seed, long c) {
  OptVar& v = OV(); v.near = false; v.reg = v.drift = v.chol = v.refine = v.li = v.nzc = v.eq = v.flip = -1; v.ramp0 = v.ramp1 = 0; if (!v.enabled) return; Rng r(mix(seed, (uint64_t)c + 991)); if (!r.chance(0.35)) return;
  if (r.chance(0.5)) { v.near = true; v.relax = r.chance(0.5) ? 0.5 : std::pow(10.0, r.uni(-1.0, 0.0)); v.far = std::pow(10.0, r.uni(0.05, 4.0)); v.grow = std::pow(10.0, r.uni(1.0, 3.0)); }
  if (r.chance(0.3)) v.reg = r.range(0, 3); if (r.chance(0.3)) { v.drift = r.range(1, 5); if (v.keepDrift) v.drift = -1; } if (r.chance(0.3)) v.chol = r.range(0, 5); if (r.chance(0.3)) v.refine = r.range(0, 3);
  if (r.chance(0.2)) v.li = 1; if (r.chance(0.2)) v.nzc = 1; if (r.chance(0.2)) v.eq = r.range(0, 1); if (r.chance(0.15)) v.flip = r.range(0, 1); if (v.keepFlip) v.flip = -1; if (r.chance(0.2)) { v.ramp0 = std::pow(10.0, r.uni(-1.0, 1.0)); v.ramp1 = std::pow(10.0, r.uni(-0.5, 2.0)); }
  add("cases_with_varied_options"); if (v.near) add("cases_with_near_far_bounds");
  if (R().verbose) fprintf(stderr, "OPTVAR near=%d relax=%g far=%g grow=%g reg=%d drift=%d chol=%d refine=%d li=%d nzc=%d eq=%d flip=%d ramp=%g..%g\n", v.near, v.relax, v.far, v.grow, v.reg, v.drift, v.chol, v.refine, v.li, v.nzc, v.eq, v.flip, v.ramp0, v.ramp1);
}
inline void varyOptions(bool keepDrift = false, bool keepFlip = false) { OV().enabled = true; OV().keepDrift = keepDrift; OV().keepFlip = keepFlip; }
inline int runMain(int argc, char** argv, CaseFn fn) {
  Reporter& r = R();
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "--seed")) r.seed = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--from")) r.from = atol(argv[++i]);
    else if (!strcmp(argv[i], "--to")) r.to = atol(argv[++i]);
    else if (!strcmp(argv[i], "--case")) { r.from = atol(argv[++i]); r.to = r.from + 1; r.verbose = 1; }
    else if (!strcmp(argv[i], "--thorough")) r.thorough = 1;
    else if (!strcmp(argv[i], "--cpu")) r.cpu_limit = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--variant")) r.variant = argv[++i];
    else if (!strcmp(argv[i], "--progress")) r.progfd = ::open(argv[++i], O_CREAT | O_RDWR | O_TRUNC, 0644);
  }
  // keep a private copy of stdout for the report; library output must not mix with it
  r.outfd = ::dup(1);
  int nul = ::open("/dev/null", O_WRONLY); ::dup2(nul, 1); ::close(nul);
  signal(SIGPROF, onHang);
  r.stats.reserve(400); r.sigs.reserve(200000);
  for (long c = r.from; c < r.to; ++c) {
    r.cur = c;
    if (r.progfd >= 0) { char b[32]; int n = snprintf(b, sizeof b, "%-20ld\n", c); ssize_t k = ::pwrite(r.progfd, b, (size_t)n, 0); (void)k; }
    armCpu(r.cpu_limit);
    long long b0 = liveBytes();
    drawOptVar(r.seed, c); { Rng rng(mix(r.seed, (uint64_t)c + 77)); fn(c, rng); }
    long long b1 = liveBytes();
    if (b1 > b0 && strncmp(tagBuf(), "noleak", 6)) { // heap grew over the case: confirm on further runs of the same case (rules out one-time initialisation)
      for (int rep = 0; rep < 3 && b1 > b0; ++rep) { armCpu(r.cpu_limit); Rng rng(mix(r.seed, (uint64_t)c + 77)); b0 = liveBytes(); fn(c, rng); b1 = liveBytes(); }
      if (b1 > b0) { char k[96]; snprintf(k, sizeof k, "leak@%s", tagBuf()); viol(k, "%lld bytes still allocated after the case released every object", b1 - b0); }
    }
    add("leak_checked_cases");
  }
  armCpu(0);
  for (size_t i = 0; i < r.stats.size(); ++i) outf("STAT\t%s\t%lld\n", r.stats[i].name, r.stats[i].v);
  std::sort(r.sigs.begin(), r.sigs.end()); r.sigs.erase(std::unique(r.sigs.begin(), r.sigs.end()), r.sigs.end());
  for (size_t i = 0; i < r.sigs.size(); ++i) outf("SIG\t%llx\n", (unsigned long long)r.sigs[i]);
  outf("DONE\t%ld\t%ld\n", r.from, r.to);
  return 0;
}

// --------------------------------------------------------------- problem --
struct Prob {
  int n, m; vec H, g, A, lb, ub, lbA, ubA;       // dense, row-major
  HessianType ht; bool haveOpt; vec xs, ys; double mu; double scale; int omit; // omit: bit k set -> vector k (lb,ub,lbA,ubA) is passed as NULL (only set while it is infinite throughout)
  Prob() : n(0), m(0), ht(HST_UNKNOWN), haveOpt(false), mu(0), scale(1), omit(0) {}
  const double* Hp() const { return (ht == HST_ZERO || ht == HST_IDENTITY) ? 0 : &H[0]; }
  const double* Ap() const { return m ? &A[0] : 0; }
  const double* lbp() const { return (omit & 1) ? 0 : &lb[0]; }
  const double* ubp() const { return (omit & 2) ? 0 : &ub[0]; }
  const double* lbAp() const { return m && !(omit & 4) ? &lbA[0] : 0; }
  const double* ubAp() const { return m && !(omit & 8) ? &ubA[0] : 0; }
  // drop one or more vectors: the limits become infinite and the vector is passed as NULL
  void drop(int mask) { for (size_t i = 0; i < lb.size(); ++i) { if (mask & 1) lb[i] = -INFTY; if (mask & 2) ub[i] = INFTY; } for (size_t i = 0; i < lbA.size(); ++i) { if (mask & 4) lbA[i] = -INFTY; if (mask & 8) ubA[i] = INFTY; } omit = mask; }
};
inline const double* P(const vec& v) { return v.empty() ? 0 : &v[0]; }
inline double* P(vec& v) { return v.empty() ? 0 : &v[0]; }
inline bool isInfLo(double b) { return b <= -INFTY; }
inline bool isInfUp(double b) { return b >= INFTY; }

struct Kkt { double stat, feas, sign, compl_; double worst; };
// residuals are relative to the magnitude of the terms that enter each quantity
inline Kkt kkt(const Prob& p, const double* x, const double* y) {
  Kkt k; ld st = 0, fe = 0, sg = 0, co = 0; int n = p.n, m = p.m;
  ld ymax = 1; for (int i = 0; i < n + m; ++i) { if (!(std::fabs(y[i]) < 1e300)) { k.stat = k.feas = k.sign = k.compl_ = k.worst = 1e300; return k; } ymax = std::max(ymax, (ld)std::fabs(y[i])); }
  for (int i = 0; i < n; ++i) if (!(std::fabs(x[i]) < 1e300)) { k.stat = k.feas = k.sign = k.compl_ = k.worst = 1e300; return k; }
  for (int i = 0; i < n; ++i) {
    ld s = p.g[i], mag = 1 + std::fabs(p.g[i]);
    for (int j = 0; j < n; ++j) { ld t = (ld)p.H[i * n + j] * x[j]; s += t; mag += fabsl(t); }
    s -= y[i]; mag += std::fabs(y[i]);
    for (int c = 0; c < m; ++c) { ld t = (ld)p.A[c * n + i] * y[n + c]; s -= t; mag += fabsl(t); }
    st = std::max(st, fabsl(s) / mag);
  }
  for (int i = 0; i < n + m; ++i) {
    ld v, mag; double lo, up;
    if (i < n) { v = x[i]; mag = 1 + fabsl(v); lo = p.lb[i]; up = p.ub[i]; }
    else { int c = i - n; v = 0; mag = 1; for (int j = 0; j < n; ++j) { ld t = (ld)p.A[c * n + j] * x[j]; v += t; mag += fabsl(t); } lo = p.lbA[c]; up = p.ubA[c]; }
    ld dl = isInfLo(lo) ? INFINITY : v - lo, du = isInfUp(up) ? INFINITY : up - v;
    if (!isInfLo(lo)) fe = std::max(fe, -dl / (mag + std::fabs(lo)));
    if (!isInfUp(up)) fe = std::max(fe, -du / (mag + std::fabs(up)));
    ld yy = y[i];
    if (yy > 0) { if (isInfLo(lo)) sg = std::max(sg, yy / ymax); else co = std::max(co, std::min(yy / ymax, fabsl(dl) / (mag + std::fabs(lo)))); }
    if (yy < 0) { if (isInfUp(up)) sg = std::max(sg, -yy / ymax); else co = std::max(co, std::min(-yy / ymax, fabsl(du) / (mag + std::fabs(up)))); }
  }
  k.stat = (double)st; k.feas = (double)fe; k.sign = (double)sg; k.compl_ = (double)co;
  k.worst = std::max(std::max(k.stat, k.feas), std::max(k.sign, k.compl_)); return k;
}
inline ld objective(const Prob& p, const double* x) {
  ld o = 0; int n = p.n; for (int i = 0; i < n; ++i) { ld t = 0; for (int j = 0; j < n; ++j) t += (ld)p.H[i * n + j] * x[j]; o += x[i] * (0.5L * t + (ld)p.g[i]); } return o;
}
inline double maxDiff(const double* a, const double* b, int n) { double d = 0; for (int i = 0; i < n; ++i) { double e = std::fabs(a[i] - b[i]) / (1 + std::fabs(b[i])); if (!(e <= d)) d = e; } return d; }

// ------------------------------------------------------------- generators --
enum HKind { HK_DENSE, HK_DIAG, HK_IDENT, HK_SPARSE, HK_SEMI, HK_ZERO };
struct GenOpt { int nmin, nmax, mmin, mmax; double pEq, pInf, pWeak; bool integer, dupRows; int hk; bool tight; double scaleMax;
  GenOpt() : nmin(1), nmax(10), mmin(0), mmax(12), pEq(0.15), pInf(0.25), pWeak(0.0), integer(false), dupRows(false), hk(-1), tight(false), scaleMax(1) {} };

inline double entry(Rng& r, const GenOpt& o) { return o.integer ? (double)r.range(-3, 3) : r.nrm(); }
inline void genH(Rng& r, Prob& p, const GenOpt& o) {
  int n = p.n; p.H.assign((size_t)n * n, 0.0); int hk = o.hk >= 0 ? o.hk : (r.chance(0.6) ? HK_DENSE : (r.chance(0.4) ? HK_DIAG : (r.chance(0.5) ? HK_SPARSE : HK_IDENT)));
  p.ht = HST_UNKNOWN; p.mu = 0;
  if (hk == HK_IDENT) { for (int i = 0; i < n; ++i) p.H[i * n + i] = 1; p.ht = HST_IDENTITY; p.mu = 1; }
  else if (hk == HK_ZERO) { p.ht = HST_ZERO; }
  else if (hk == HK_DIAG) { p.mu = 1e30; for (int i = 0; i < n; ++i) { double d = o.integer ? r.range(1, 4) : r.uni(0.3, 5); p.H[i * n + i] = d; p.mu = std::min(p.mu, d); } if (r.chance(0.3)) p.ht = HST_POSDEF; }
  else {
    int k = hk == HK_SEMI ? r.range(0, n - 1) : n; vec M((size_t)k * n + 1, 0.0);
    for (int i = 0; i < k * n; ++i) M[i] = (hk == HK_SPARSE && !r.chance(0.3)) ? 0.0 : entry(r, o);
    double f = o.integer ? 1.0 : 1.0 / std::max(1, k);
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { double s = 0; for (int l = 0; l < k; ++l) s += M[l * n + i] * M[l * n + j]; s *= f; p.H[i * n + j] = p.H[j * n + i] = s; }
    if (hk != HK_SEMI) { double d = o.integer ? 1.0 : r.uni(0.2, 1.0); for (int i = 0; i < n; ++i) p.H[i * n + i] += d; p.mu = d; if (r.chance(0.3)) p.ht = HST_POSDEF; }
    else if (r.chance(0.5)) p.ht = HST_SEMIDEF;
  }
}
inline void genA(Rng& r, Prob& p, const GenOpt& o) {
  int n = p.n, m = p.m; p.A.assign((size_t)n * m, 0.0); double dens = r.chance(0.5) ? 1.0 : r.uni(0.2, 0.9);
  for (int c = 0; c < m; ++c) {
    if (o.dupRows && c > 0 && r.chance(0.3)) { int q = r.range(0, c - 1); double f = r.chance(0.5) ? 1.0 : (r.chance(0.5) ? -1.0 : 2.0); for (int j = 0; j < n; ++j) p.A[c * n + j] = f * p.A[q * n + j]; continue; }
    bool nz = false; for (int j = 0; j < n; ++j) { double v = r.chance(dens) ? entry(r, o) : 0.0; p.A[c * n + j] = v; nz |= v != 0; }
    double nn = 0; for (int j = 0; j < n; ++j) nn += p.A[c * n + j] * p.A[c * n + j];   // no nearly vanishing rows
    if (!nz || nn < 0.25) p.A[c * n + r.range(0, n - 1)] = r.sgn();
  }
}
inline void fillBound(Rng& r, const GenOpt& o, double v, double& lo, double& up) { // v strictly inside or equality
  double gl = o.integer ? (double)r.range(1, 3) : r.uni(0.05, 2.5), gu = o.integer ? (double)r.range(1, 3) : r.uni(0.05, 2.5);
  lo = v - gl; up = v + gu;
  if (r.chance(o.pInf)) lo = r.chance(0.5) ? -INFTY : -1e30; if (r.chance(o.pInf)) up = r.chance(0.5) ? INFTY : 1e30;
}
inline ld rowDot(const Prob& p, int c, const vec& x) { ld s = 0; for (int j = 0; j < p.n; ++j) s += (ld)p.A[c * p.n + j] * x[j]; return s; }
// numerical rank test of a row set by long double Gram-Schmidt: true if adding row keeps good independence
struct RankSet { int n; std::vector<std::vector<ld> > b; RankSet(int n_) : n(n_) {}
  bool tryAdd(const double* row, ld tol = 0.15L) { std::vector<ld> v(n); ld nr = 0; for (int i = 0; i < n; ++i) { v[i] = row[i]; nr += v[i] * v[i]; } nr = sqrtl(nr); if (nr == 0) return false;
    for (int it = 0; it < 2; ++it) for (size_t k = 0; k < b.size(); ++k) { ld d = 0; for (int i = 0; i < n; ++i) d += v[i] * b[k][i]; for (int i = 0; i < n; ++i) v[i] -= d * b[k][i]; }
    ld r2 = 0; for (int i = 0; i < n; ++i) r2 += v[i] * v[i]; r2 = sqrtl(r2); if (r2 < tol * nr) return false; for (int i = 0; i < n; ++i) v[i] /= r2; b.push_back(v); return true; } };

// Problem with a *known* unique primal-dual solution: strictly convex, strict
// complementarity, linearly independent active set (well conditioned).
inline void genKnown(Rng& r, Prob& p, const GenOpt& o) {
  p.n = r.range(o.nmin, o.nmax); p.m = r.range(o.mmin, o.mmax); int n = p.n, m = p.m;
  genH(r, p, o); genA(r, p, o);
  p.xs.assign(n, 0); for (int i = 0; i < n; ++i) p.xs[i] = o.integer ? (double)r.range(-3, 3) : r.uni(-2, 2);
  p.ys.assign(n + m, 0.0); p.lb.resize(n); p.ub.resize(n); p.lbA.resize(m); p.ubA.resize(m);
  RankSet rs(n); std::vector<int> ord; for (int i = 0; i < n + m; ++i) ord.push_back(i); r.shuffle(ord);
  double pact = r.uni(0.0, 0.9); std::vector<int> act(n + m, 0);
  for (size_t k = 0; k < ord.size(); ++k) { int i = ord[k]; if (!r.chance(pact) || (int)rs.b.size() >= n) continue; vec row(n, 0.0); if (i < n) row[i] = 1; else for (int j = 0; j < n; ++j) row[j] = p.A[(i - n) * n + j];
    if (rs.tryAdd(&row[0])) act[i] = r.chance(o.pEq) ? 3 : (r.chance(0.5) ? 1 : 2); }
  for (int i = 0; i < n + m; ++i) { double v = i < n ? p.xs[i] : (double)rowDot(p, i - n, p.xs); double lo, up; fillBound(r, o, v, lo, up);
    double mag = o.integer ? (double)r.range(1, 4) : r.uni(0.1, 3);
    if (act[i] == 1) { lo = v; p.ys[i] = mag; } else if (act[i] == 2) { up = v; p.ys[i] = -mag; } else if (act[i] == 3) { lo = up = v; p.ys[i] = mag * r.sgn(); }
    if (i < n) { p.lb[i] = lo; p.ub[i] = up; } else { p.lbA[i - n] = lo; p.ubA[i - n] = up; } }
  p.g.assign(n, 0.0);
  for (int i = 0; i < n; ++i) { ld s = p.ys[i]; for (int j = 0; j < n; ++j) s -= (ld)p.H[i * n + j] * p.xs[j]; for (int c = 0; c < m; ++c) s += (ld)p.A[c * n + i] * p.ys[n + c]; p.g[i] = (double)s; }
  p.haveOpt = true;
}
// vectors (g,bounds) around a random feasible point; H, A are kept
inline void genVectors(Rng& r, Prob& p, const GenOpt& o) {
  int n = p.n, m = p.m; p.omit = 0; vec x0(n); for (int i = 0; i < n; ++i) x0[i] = o.integer ? (double)r.range(-2, 2) : r.uni(-2, 2);
  p.g.resize(n); p.lb.resize(n); p.ub.resize(n); p.lbA.resize(m); p.ubA.resize(m);
  double gs = r.chance(0.3) ? 10.0 : 2.0; for (int i = 0; i < n; ++i) p.g[i] = o.integer ? (double)r.range(-8, 8) : gs * r.nrm();
  int eqleft = n; RankSet rs(n); vec row(n);   // equalities stay linearly independent unless degenerate data is wanted
  for (int i = 0; i < n + m; ++i) { double v = i < n ? x0[i] : (double)rowDot(p, i - n, x0); double lo, up; fillBound(r, o, v, lo, up);
    if (eqleft > 0 && r.chance(o.pEq * 0.5)) { for (int j = 0; j < n; ++j) row[j] = i < n ? (j == i ? 1.0 : 0.0) : p.A[(i - n) * n + j]; if (o.dupRows || rs.tryAdd(&row[0])) { lo = up = v; --eqleft; } } else if (r.chance(o.pWeak)) { if (r.chance(0.5)) lo = v; else up = v; }
    if (i < n) { p.lb[i] = lo; p.ub[i] = up; } else { p.lbA[i - n] = lo; p.ubA[i - n] = up; } }
  p.haveOpt = false;
}
inline void genFeasible(Rng& r, Prob& p, const GenOpt& o) {
  p.n = r.range(o.nmin, o.nmax); p.m = r.range(o.mmin, o.mmax); genH(r, p, o); genA(r, p, o); genVectors(r, p, o);
}
// successor vectors for the same matrices: new gradient only / shifted / fresh (always feasible)
inline void nextVectors(Rng& r, Prob& p, const GenOpt& o) {
  int n = p.n, m = p.m; double u = r.u01();
  if (u < 0.3) { double s = r.chance(0.5) ? 0.3 : 3.0; for (int i = 0; i < n; ++i) p.g[i] += o.integer ? (double)r.range(-2, 2) : s * r.nrm(); }
  else if (u < 0.65) { vec dx(n); double s = r.chance(0.5) ? 0.1 : 1.0; for (int i = 0; i < n; ++i) { dx[i] = o.integer ? (double)r.range(-1, 1) : s * r.nrm(); if (!o.integer) p.g[i] += 0.3 * s * r.nrm(); }
    for (int i = 0; i < n; ++i) { p.lb[i] = isInfLo(p.lb[i]) ? p.lb[i] : p.lb[i] + dx[i]; p.ub[i] = isInfUp(p.ub[i]) ? p.ub[i] : p.ub[i] + dx[i]; if (p.lb[i] > p.ub[i]) p.lb[i] = p.ub[i]; }
    for (int c = 0; c < m; ++c) { double d = (double)rowDot(p, c, dx); p.lbA[c] = isInfLo(p.lbA[c]) ? p.lbA[c] : p.lbA[c] + d; p.ubA[c] = isInfUp(p.ubA[c]) ? p.ubA[c] : p.ubA[c] + d; if (p.lbA[c] > p.ubA[c]) p.lbA[c] = p.ubA[c]; } }
  else genVectors(r, p, o);
  p.haveOpt = false;
}
inline uint64_t probSig(const Prob& p) { uint64_t h = 14695981039346656037ULL; h = hvec(h, p.H); h = hvec(h, p.g); h = hvec(h, p.A); h = hvec(h, p.lb); h = hvec(h, p.ub); h = hvec(h, p.lbA); return hvec(h, p.ubA); }
inline void dumpProb(const Prob& p) {
  if (!R().verbose) return;
  struct L { static void v(const char* nm, const vec& a) { char b[2800]; int k = snprintf(b, sizeof b, "%s=[", nm); for (size_t i = 0; i < a.size() && k < 2700; ++i) k += snprintf(b + k, sizeof b - (size_t)k, "%.17g,", a[i]); info("%s]", b); } };
  info("n=%d m=%d hessianType=%d", p.n, p.m, (int)p.ht); L::v("H", p.H); L::v("g", p.g); L::v("A", p.A); L::v("lb", p.lb); L::v("ub", p.ub); L::v("lbA", p.lbA); L::v("ubA", p.ubA); if (p.haveOpt) { L::v("xs", p.xs); L::v("ys", p.ys); }
}

#ifndef VF_CORE // the rest needs real_t = double
// -------------------------------------------------- one object of any kind --
enum Kind { KB, KQ, KS };
#ifdef VF_SCHUR
// the same harness on the Schur-complement variant (with a stand-in linear solver)
inline SQProblemSchur* newSchur(int n, int m, HessianType ht) { static const int NS[] = {75, 1, 3, 0, 8, 2, 15, 5}; static long cnt = 0; if (linCtl.zero == 0) linReset(); ++cnt; unsigned h = (unsigned)(R().cur * 2654435761u) >> 7; linCtl.reversed = h % 3 == 0; linCtl.blocks = h % 5 < 2; return new SQProblemSchur(n, m, ht, NS[(h / 16) % 8]); }
#endif
struct Solver {
  Kind kind; QProblemB* b; QProblem* q; SQProblem* s; int n, m;
  Solver() : kind(KB), b(0), q(0), s(0), n(0), m(0) {}
  Solver(Kind k, int n_, int m_, HessianType ht = HST_UNKNOWN) : kind(k), b(0), q(0), s(0), n(n_), m(k == KB ? 0 : m_) {
#ifdef VF_SCHUR
    if (k == KB) b = new QProblemB(n, ht); else b = q = s = newSchur(n, m, ht); }
#else
    if (k == KB) b = new QProblemB(n, ht); else if (k == KQ) b = q = new QProblem(n, m, ht); else b = q = s = new SQProblem(n, m, ht); }
#endif
  ~Solver() { delete b; }
  Solver* clone() const { Solver* c = new Solver(); c->kind = kind; c->n = n; c->m = m; if (kind == KB) c->b = new QProblemB(*b);
#ifdef VF_SCHUR
    else c->b = c->q = c->s = new SQProblemSchur(*(SQProblemSchur*)s);
#else
    else if (kind == KQ) c->b = c->q = new QProblem(*q); else c->b = c->q = c->s = new SQProblem(*s);
#endif
    return c; }
  void assign(const Solver& o) {
#ifdef VF_SCHUR
    if (kind != KB) { *(SQProblemSchur*)s = *(const SQProblemSchur*)o.s; return; }
#endif
    if (kind == KB) *b = *o.b; else if (kind == KQ) *q = *o.q; else *s = *o.s; }
  returnValue init(const double* H, const double* g, const double* A, const double* lb, const double* ub, const double* lbA, const double* ubA, int_t& nw, double* cpu = 0, const double* x0 = 0, const double* y0 = 0, const Bounds* gb = 0, const Constraints* gc = 0, const double* R_ = 0) {
    if (kind == KB) return b->init(H, g, lb, ub, nw, cpu, x0, y0, gb, R_);
    return q->init(H, g, A, lb, ub, lbA, ubA, nw, cpu, x0, y0, gb, gc, R_); }
  returnValue hot(const double* g, const double* lb, const double* ub, const double* lbA, const double* ubA, int_t& nw, double* cpu = 0) {
    if (kind == KB) return b->hotstart(g, lb, ub, nw, cpu); return q->hotstart(g, lb, ub, lbA, ubA, nw, cpu); }
  returnValue init(const Prob& p, int_t& nw, double* cpu = 0) { return init(p.Hp(), &p.g[0], p.Ap(), p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw, cpu); }
  returnValue hot(const Prob& p, int_t& nw, double* cpu = 0) { return hot(&p.g[0], p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw, cpu); }
  returnValue hotM(const Prob& p, int_t& nw, double* cpu = 0) { return s->hotstart(p.Hp(), &p.g[0], p.Ap(), p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw, cpu); }
  void sol(vec& x, vec& y) const { x.assign(n + 1, 0.0); y.assign(n + m + 1, 0.0); b->getPrimalSolution(&x[0]); b->getDualSolution(&y[0]); }
private: Solver(const Solver&); Solver& operator=(const Solver&);
};
inline const char* kindName(Kind k) { return k == KB ? "QProblemB" : (k == KQ ? "QProblem" : "SQProblem"); }
inline int_t bigWSR(const Prob& p) { return 1000 + 20 * (p.n + p.m); }
// KKT verdict on the current solution; reports under "kkt-<where>"
inline bool checkKkt(const char* where, const Prob& p, const Solver& s, double tol, const char* extra = "") {
  vec x, y; s.sol(x, y); Kkt k = kkt(p, &x[0], &y[0]); add("kkt_checked"); smax(where, k.worst);
  if (k.worst <= tol) return true;
  char key[96]; snprintf(key, sizeof key, "kkt-%s", where);
  viol(key, "success but KKT residuals stat=%.2e feas=%.2e sign=%.2e compl=%.2e tol=%.1e %s n=%d m=%d %s", k.stat, k.feas, k.sign, k.compl_, tol, kindName(s.kind), p.n, p.m, extra); dumpProb(p); return false;
}

// -------------------------------------------------- working-set coherence --
// Everything the object reports about its working set after a successful solve, judged
// against itself, the solution and the problem data.  ytol/xtol are relative.
inline int coherent(const char* where, const Prob& p, Solver& s, double xtol, double ytol, bool independent, const char* ex = "") {
  int n = s.n, m = s.m, bad = 0; QProblemB* b = s.b; char key[96]; std::vector<char> lim(n + m, 0); add("coherence_checked");
  struct V { static void o(const char* k, const char* w, int& bad, const char* fmt, ...) { char b1[300], k2[96]; va_list ap; va_start(ap, fmt); vsnprintf(b1, sizeof b1, fmt, ap); va_end(ap); snprintf(k2, sizeof k2, "coh-%s-%s", k, w); viol(k2, "%s", b1); ++bad; } };
  if (b->getStatus() != QPS_SOLVED || b->isSolved() != BT_TRUE || b->isInitialised() != BT_TRUE || b->isInfeasible() != BT_FALSE || b->isUnbounded() != BT_FALSE) V::o("status", where, bad, "status %d solved %d init %d infeas %d unb %d after success %s", (int)b->getStatus(), (int)b->isSolved(), (int)b->isInitialised(), (int)b->isInfeasible(), (int)b->isUnbounded(), ex);
  if (b->getNV() != n || (s.q && s.q->getNC() != m)) V::o("dims", where, bad, "nV=%d nC=%d want %d %d", (int)b->getNV(), s.q ? (int)s.q->getNC() : 0, n, m);
  vec x, y; s.sol(x, y); vec w(n + m + 1, 7.5), wb(n + 1, 7.5), wc(m + 1, 7.5); if (b->getWorkingSet(&w[0]) != SUCCESSFUL_RETURN || b->getWorkingSetBounds(&wb[0]) != SUCCESSFUL_RETURN) V::o("ws-ret", where, bad, "getWorkingSet failed"); if (s.q && s.q->getWorkingSetConstraints(&wc[0]) != SUCCESSFUL_RETURN) V::o("ws-ret", where, bad, "getWorkingSetConstraints failed");
  if (w[n + m] != 7.5 || wb[n] != 7.5 || (s.q && wc[m] != 7.5)) V::o("ws-size", where, bad, "getWorkingSet wrote behind its output");
  for (int i = 0; i < n + m; ++i) { if (w[i] != -1 && w[i] != 0 && w[i] != 1) V::o("ws-code", where, bad, "entry %d is %g", i, w[i]); if (w[i] != (i < n ? wb[i] : wc[i - n])) V::o("ws-parts", where, bad, "entry %d: %g versus %g", i, w[i], i < n ? wb[i] : wc[i - n]); }
  Bounds B; b->getBounds(B); Constraints C; if (s.q) s.q->getConstraints(C); int nfx = 0, nac = 0;
  for (int i = 0; i < n + m; ++i) { SubjectToStatus st = i < n ? B.getStatus(i) : C.getStatus(i - n); int want = w[i] == -1 ? ST_LOWER : (w[i] == 1 ? ST_UPPER : ST_INACTIVE); if (st != want) V::o("ws-sets", where, bad, "entry %d: working set %g, index set status %d", i, w[i], (int)st); if (w[i] != 0) (i < n ? nfx : nac)++; }
  Indexlist* L[4] = {B.getFree(), B.getFixed(), s.q ? C.getInactive() : 0, s.q ? C.getActive() : 0};
  for (int side = 0; side < (s.q ? 2 : 1); ++side) { int N = side ? m : n; std::vector<int> hit(N, 0); for (int a = 0; a < 2; ++a) { int_t* num = 0; L[2 * side + a]->getNumberArray(&num); for (int_t q = 0; q < L[2 * side + a]->getLength(); ++q) { int_t i = num[q]; if (i < 0 || i >= N) { V::o("partition", where, bad, "index %d out of range", (int)i); continue; } hit[i]++; bool act = w[side ? n + i : i] != 0; if (act != (a == 1)) V::o("partition", where, bad, "%s %d is in the wrong list", side ? "constraint" : "bound", (int)i); } } for (int i = 0; i < N; ++i) if (hit[i] != 1) V::o("partition", where, bad, "%s %d occurs %d times in the index lists", side ? "constraint" : "bound", i, hit[i]); }
  if (b->getNFX() != nfx || b->getNFR() != n - nfx || (s.q && (s.q->getNAC() != nac || s.q->getNIAC() != m - nac)) || b->getNZ() != n - nfx - nac) V::o("counts", where, bad, "nFX=%d nFR=%d nZ=%d want %d %d %d; nAC=%d want %d", (int)b->getNFX(), (int)b->getNFR(), (int)b->getNZ(), nfx, n - nfx, n - nfx - nac, s.q ? (int)s.q->getNAC() : 0, nac);
  if (s.q) { BooleanType* fl = new BooleanType[n]; s.q->getFreeVariablesFlags(fl); for (int i = 0; i < n; ++i) if ((fl[i] == BT_TRUE) != (w[i] == 0)) V::o("free-flags", where, bad, "variable %d", i); delete[] fl; }
  int eqb = 0, eqc = 0; for (int i = 0; i < n; ++i) if (p.lb[i] == p.ub[i]) eqb++; for (int i = 0; i < m; ++i) if (p.lbA[i] == p.ubA[i]) eqc++; if (b->getNFV() > eqb || (s.q && s.q->getNEC() > eqc)) V::o("equalities", where, bad, "nFV=%d of %d, nEC=%d of %d", (int)b->getNFV(), eqb, s.q ? (int)s.q->getNEC() : 0, eqc);
  double ymax = 1; for (int i = 0; i < n + m; ++i) ymax = std::max(ymax, std::fabs(y[i]));
  for (int i = 0; i < n + m; ++i) {
    double lo = i < n ? p.lb[i] : p.lbA[i - n], up = i < n ? p.ub[i] : p.ubA[i - n]; ld v = 0, mag = 1; if (i < n) { v = x[i]; mag += fabsl(v); } else for (int j = 0; j < n; ++j) { ld t = (ld)p.A[(i - n) * n + j] * x[j]; v += t; mag += fabsl(t); }
    if (w[i] == 0) { if (y[i] != 0) V::o("inactive-multiplier", where, bad, "entry %d inactive, y=%.3e %s", i, y[i], ex); }
    else { double b0 = w[i] < 0 ? lo : up; if (w[i] < 0 ? isInfLo(b0) : isInfUp(b0)) { V::o("active-infinite", where, bad, "entry %d active at an infinite limit %s", i, ex); continue; }
      if (!(fabsl(v - b0) <= xtol * (mag + std::fabs(b0)))) V::o("active-off-limit", where, bad, "entry %d active, distance %.3e %s", i, (double)(v - b0), ex);
      if (lo != up && !(w[i] < 0 ? y[i] >= -ytol * ymax : y[i] <= ytol * ymax)) V::o("multiplier-sign", where, bad, "entry %d working set %g multiplier %.3e %s", i, w[i], y[i], ex); } }
  if (nfx + nac > n) V::o("too-many-active", where, bad, "%d active of %d variables", nfx + nac, n);
  if (independent) { RankSet rs(n); vec row(n); for (int i = 0; i < n + m; ++i) if (w[i] != 0) { for (int j = 0; j < n; ++j) row[j] = i < n ? (i == j ? 1.0 : 0.0) : p.A[(i - n) * n + j]; if (!rs.tryAdd(&row[0], 1e-11L)) { V::o("dependent-working-set", where, bad, "entry %d depends on the active entries before it %s", i, ex); break; } } }
  if (b->getHessianType() == HST_UNKNOWN) V::o("hessian-type", where, bad, "Hessian type unknown after a successful solve");
  (void)key; if (bad) dumpProb(p); return bad;
}
// structural part only: holds for every initialised object whatever the last call returned
inline int coherentSets(const char* where, Solver& s) {
  int n = s.n, m = s.m, bad = 0; QProblemB* b = s.b; char key[96]; vec w(n + m + 1, 7.5); add("structure_checked"); snprintf(key, sizeof key, "sets-%s", where);
  if (b->getWorkingSet(&w[0]) != SUCCESSFUL_RETURN || w[n + m] != 7.5) { viol(key, "getWorkingSet failed or wrote behind its output"); return 1; }
  Bounds B; b->getBounds(B); Constraints C; if (s.q) s.q->getConstraints(C); int nfx = 0, nac = 0;
  for (int i = 0; i < n + m; ++i) { if (w[i] != -1 && w[i] != 0 && w[i] != 1) { viol(key, "working set entry %d is %g", i, w[i]); ++bad; } SubjectToStatus st = i < n ? B.getStatus(i) : C.getStatus(i - n); if (st != (w[i] == -1 ? ST_LOWER : (w[i] == 1 ? ST_UPPER : ST_INACTIVE))) { viol(key, "entry %d: working set %g, index set status %d", i, w[i], (int)st); ++bad; } if (w[i] != 0) (i < n ? nfx : nac)++; }
  Indexlist* L[4] = {B.getFree(), B.getFixed(), s.q ? C.getInactive() : 0, s.q ? C.getActive() : 0};
  for (int side = 0; side < (s.q ? 2 : 1); ++side) { int N = side ? m : n; std::vector<int> hit(N, 0); for (int a = 0; a < 2; ++a) { int_t* num = 0; L[2 * side + a]->getNumberArray(&num); for (int_t q = 0; q < L[2 * side + a]->getLength(); ++q) { int_t i = num[q]; if (i < 0 || i >= N) { viol(key, "index %d out of range", (int)i); ++bad; continue; } hit[i]++; if ((w[side ? n + i : i] != 0) != (a == 1)) { viol(key, "%s %d is in the wrong list", side ? "constraint" : "bound", (int)i); ++bad; } } } for (int i = 0; i < N; ++i) if (hit[i] != 1) { viol(key, "%s %d occurs %d times in the index lists", side ? "constraint" : "bound", i, hit[i]); ++bad; } }
  if (b->getNFX() != nfx || b->getNFR() != n - nfx || (s.q && (s.q->getNAC() != nac || s.q->getNIAC() != m - nac)) || b->getNZ() != n - nfx - nac || nfx + nac > n) { viol(key, "counts nFX=%d nFR=%d nZ=%d do not match the working set (%d fixed, %d active)", (int)b->getNFX(), (int)b->getNFR(), (int)b->getNZ(), nfx, nac); ++bad; }
  return bad;
}
// ... and after a call that did not succeed
inline int failedCoherent(const char* where, returnValue rv, Solver& s) {
  QProblemB* b = s.b; int bad = 0; char key[96]; add("failure_coherence_checked");
  if (b->isSolved() == BT_TRUE || b->getStatus() == QPS_SOLVED) { snprintf(key, sizeof key, "coh-failed-but-solved-%s", where); viol(key, "ret %d but solved", (int)rv); ++bad; }
  vec x(s.n + 1, 3.25), y(s.n + s.m + 1, 3.25); returnValue r1 = b->getPrimalSolution(&x[0]), r2 = b->getDualSolution(&y[0]); bool inf = b->getObjVal() >= INFTY;
  if (b->getStatus() == QPS_NOTINITIALISED || b->getStatus() == QPS_PREPARINGAUXILIARYQP || b->getStatus() == QPS_AUXILIARYQPSOLVED || b->getStatus() == QPS_PERFORMINGHOMOTOPY || b->getStatus() == QPS_HOMOTOPYQPSOLVED) (void)inf;
  if ((r1 == SUCCESSFUL_RETURN) != (r2 == SUCCESSFUL_RETURN)) { snprintf(key, sizeof key, "coh-failed-solution-%s", where); viol(key, "primal solution %d dual solution %d", (int)r1, (int)r2); ++bad; }
  if (x[s.n] != 3.25 || y[s.n + s.m] != 3.25) { snprintf(key, sizeof key, "coh-failed-size-%s", where); viol(key, "wrote behind the output"); ++bad; }
  return bad;
}
// --------------------------------------------------------------- options --
inline Options quiet(Options o) { o.printLevel = PL_NONE; return o; }
inline Options presetOptions(int k) { Options o; switch (k) { case 0: o.setToDefault(); break; case 1: o.setToReliable(); break; case 2: o.setToMPC(); break; case 3: o.setToFast(); break; case 4: o.setToDefault(); o.enableFarBounds = BT_FALSE; break; case 5: o.setToReliable(); o.enableFarBounds = BT_FALSE; break; case 6: o.setToMPC(); o.enableFarBounds = BT_FALSE; break; default: o.setToDefault(); } o.printLevel = PL_NONE;
  const OptVar& v = OV(); // far bounds so close that they are active on the way must be moved away without a trace
  if (v.near && o.enableFarBounds == BT_TRUE && o.enableRamping == BT_TRUE) { /* equal far bounds are ties: only ramping resolves them */ o.boundRelaxation = v.relax; o.initialFarBounds = v.far; o.growFarBounds = v.grow; }
  if (v.reg > o.numRegularisationSteps) o.numRegularisationSteps = v.reg; if (v.refine > o.numRefinementSteps) o.numRefinementSteps = v.refine; if (v.drift >= 0 && o.enableDriftCorrection > 0) o.enableDriftCorrection = v.drift; if (v.chol >= 0) o.enableCholeskyRefactorisation = v.chol;
  if (v.li > 0) o.enableFullLITests = BT_TRUE; if (v.nzc > 0) o.enableNZCTests = BT_TRUE; if (v.eq >= 0) o.enableEqualities = v.eq ? BT_TRUE : BT_FALSE; if (v.flip >= 0) o.enableFlippingBounds = v.flip ? BT_TRUE : BT_FALSE; if (v.ramp0 > 0) { o.initialRamping = v.ramp0; o.finalRamping = v.ramp1; }
  return o; }
// replay aid: VF_PL=1 shows the iterations of this object on stderr
inline void debugPrint(Solver& s) { if (!R().verbose || !getenv("VF_PL")) return; Options o = s.b->getOptions(); o.printLevel = atoi(getenv("VF_PL")) == 4 ? PL_DEBUG_ITER : PL_HIGH; s.b->setOptions(o); getGlobalMessageHandler()->setOutputFile(stderr); }
// option sets whose accuracy is that of MPC (no drift correction, loose termination)
inline bool looseOpts(int k) { return k == 2 || k == 3 || k == 6 || OV().drift > 1; }
#endif
} // namespace vf
#endif
