// Bundled BLAS/LAPACK replacements and numeric helpers against long-double definitions.
// Gaps and unreferenced parts hold NaN (inputs) or a sentinel (outputs); exact-size buffers.
#include "common.hpp"
#include <qpOASES/LapackBlasReplacement.hpp>
#include <limits>
using namespace vf;
static const double SENT = 7.25e77;
template <class F> static F nanv() { return std::numeric_limits<F>::quiet_NaN(); }
template <class F> struct Eps { static ld v() { return (ld)std::numeric_limits<F>::epsilon(); } };
static const char* op_;
template <class F> static void cmp(F a, ld b, ld mag, int terms, const char* ex = "") { add("values_compared"); if (!(fabsl((ld)a - b) <= Eps<F>::v() * (terms + 4) * (mag + 1e-30L))) { char k[64]; snprintf(k, sizeof k, "%s-value%s", op_, ex); viol(k, "got %.17g want %.17g", (double)a, (double)b); } }
template <class F> static void same(F a, F b) { add("untouched_checked"); if (memcmp(&a, &b, sizeof a)) { char k[64]; snprintf(k, sizeof k, "%s-touched", op_); viol(k, "got %.17g want %.17g", (double)a, (double)b); } }
template <class F> static F num(Rng& r) { int q = r.range(0, 19); if (q == 0) return 0; if (q == 1) return (F)r.range(-3, 3); if (q == 2) return (F)(r.nrm() * 1e8); if (q == 3) return (F)(r.nrm() * 1e-8); return (F)r.nrm(); }
static double fac(Rng& r) { switch (r.range(0, 6)) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return 2.5; case 4: return r.nrm(); case 5: return 1.0 + 1e-6; default: return -0.5; } }
static void GE(const char* a, const char* b, la_uint_t* m, la_uint_t* n, la_uint_t* k, double* al, double* A, la_uint_t* lda, double* B, la_uint_t* ldb, double* be, double* C, la_uint_t* ldc) { DGEMM(a, b, m, n, k, al, A, lda, B, ldb, be, C, ldc); }
static void GE(const char* a, const char* b, la_uint_t* m, la_uint_t* n, la_uint_t* k, float* al, float* A, la_uint_t* lda, float* B, la_uint_t* ldb, float* be, float* C, la_uint_t* ldc) { SGEMM(a, b, m, n, k, al, A, lda, B, ldb, be, C, ldc); }
static void PO(const char* u, la_uint_t* n, double* a, la_uint_t* lda, la_int_t* info) { DPOTRF(u, n, a, lda, info); }
static void PO(const char* u, la_uint_t* n, float* a, la_uint_t* lda, la_int_t* info) { SPOTRF(u, n, a, lda, info); }
template <class F> static void gemm(Rng& r, const char* nm) {
  op_ = nm; int M = r.range(0, 7), N = r.range(0, 5), K = r.range(0, 7); bool tr = r.chance(0.5); F al = (F)fac(r), be = (F)fac(r); int ar = tr ? K : M, ac = tr ? M : K; // column-major A is ar x ac
  int lda = std::max(1, ar + (r.chance(0.5) ? 0 : r.range(1, 3))), ldb = std::max(1, K + (r.chance(0.5) ? 0 : r.range(1, 3))), ldc = std::max(1, M + (r.chance(0.5) ? 0 : r.range(1, 3)));
  size_t sa = ac ? (size_t)(ac - 1) * lda + ar : 0, sb = N ? (size_t)(N - 1) * ldb + K : 0, sc = N ? (size_t)(N - 1) * ldc + M : 0; F *A = new F[sa], *B = new F[sb], *C = new F[sc]; std::vector<F> C0(sc + 1), A0(sa + 1), B0(sb + 1);
  for (size_t i = 0; i < sa; ++i) A0[i] = A[i] = (int)(i % lda) < ar ? num<F>(r) : nanv<F>(); for (size_t i = 0; i < sb; ++i) B0[i] = B[i] = (int)(i % ldb) < K ? num<F>(r) : nanv<F>(); for (size_t i = 0; i < sc; ++i) C0[i] = C[i] = (int)(i % ldc) < M ? (be == 0 ? nanv<F>() : num<F>(r)) : (F)1.5e30;
  la_uint_t um = M, un = N, uk = K, ua = lda, ub = ldb, uc = ldc; GE(tr ? (r.chance(0.5) ? "TRANS" : "T") : (r.chance(0.5) ? "NOTRANS" : "N"), "NOTRANS", &um, &un, &uk, &al, A, &ua, B, &ub, &be, C, &uc); add("gemm_calls");
  for (int j = 0; j < N; ++j) for (int i = 0; i < M; ++i) { ld s = 0, mag = 0; for (int k = 0; k < K; ++k) { ld t = (ld)al * (tr ? A[(size_t)i * lda + k] : A[(size_t)k * lda + i]) * B[(size_t)j * ldb + k]; s += t; mag += fabsl(t); } if (be != 0) { ld t = (ld)be * C0[(size_t)j * ldc + i]; s += t; mag += fabsl(t); } cmp(C[(size_t)j * ldc + i], s, mag, K); }
  for (size_t i = 0; i < sc; ++i) if ((int)(i % ldc) >= M) same(C[i], C0[i]); for (size_t i = 0; i < sa; ++i) same(A[i], A0[i]); for (size_t i = 0; i < sb; ++i) same(B[i], B0[i]);
  delete[] A; delete[] B; delete[] C;
}
template <class F> static void potrf(Rng& r, const char* nm) {
  op_ = nm; int n = r.range(0, 8), lda = std::max(1, n + (r.chance(0.5) ? 0 : r.range(1, 3))); size_t sz = n ? (size_t)(n - 1) * lda + n : 0; std::vector<ld> H((size_t)n * n + 1, 0); int badk = -1; // H = U'U; badk >= 0: pivot badk is made clearly negative (or zero)
  std::vector<ld> U((size_t)n * n + 1, 0); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) U[(size_t)i * n + j] = i == j ? 0.5L + fabsl(r.nrm()) : 0.7L * r.nrm(); std::vector<F> h((size_t)n * n + 1);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { ld s = 0; for (int k = 0; k < n; ++k) s += U[(size_t)k * n + i] * U[(size_t)k * n + j]; H[(size_t)i * n + j] = s; }
  if (n && r.chance(0.4)) { badk = r.range(0, n - 1); H[(size_t)badk * n + badk] -= U[(size_t)badk * n + badk] * U[(size_t)badk * n + badk] + (r.chance(0.1) && badk == 0 ? 0.0L : 0.3L + fabsl(r.nrm())); if (badk == 0 && r.chance(0.2)) H[0] = 0; }
  F* a = new F[sz]; std::vector<F> a0(sz + 1); for (size_t q = 0; q < sz; ++q) { int j = (int)(q / lda), i = (int)(q % lda); a[q] = i <= j && i < n ? (F)H[(size_t)i * n + j] : nanv<F>(); a0[q] = a[q]; }
  la_uint_t un = n, ul = lda; la_int_t info = 77; bool noinfo = r.chance(0.1); PO("U", &un, a, &ul, noinfo ? 0 : &info); add("potrf_calls");
  for (size_t q = 0; q < sz; ++q) { int j = (int)(q / lda), i = (int)(q % lda); if (i > j || i >= n) same(a[q], a0[q]); }
  if (badk < 0) { if (!noinfo && info != 0) { viol("potrf-info", "info %d for a positive definite matrix n=%d", (int)info, n); delete[] a; return; } // check U'U == H
    for (int i = 0; i < n; ++i) { if (!(a[(size_t)i * lda + i] > 0)) viol("potrf-diagonal", "nonpositive diagonal"); for (int j = i; j < n; ++j) { ld s = 0, mag = 0; for (int k = 0; k <= i; ++k) { ld t = (ld)a[(size_t)i * lda + k] * a[(size_t)j * lda + k]; s += t; mag += fabsl(t); } cmp((F)s, (ld)a0[(size_t)j * lda + i], mag + fabsl((ld)a0[(size_t)j * lda + i]), 4 * n); } } }
  else { add("potrf_indefinite"); if (!noinfo && info != badk + 1) viol("potrf-info", "info %d, first bad pivot %d of n=%d", (int)info, badk + 1, n); if (!(a[0] <= 0)) viol("potrf-pivot", "a[0]=%g is not the nonpositive pivot", (double)a[0]); }
  delete[] a;
}
struct Ex : public QProblemB { Ex(int n) : QProblemB(n) {}
  void giv(double x, double y, double& xn, double& yn, double& c, double& s) const { computeGivens(x, y, xn, yn, c, s); }
  void app(double c, double s, double x, double y, double& xn, double& yn) const { double nu = s / (1.0 + c); applyGivens(c, s, nu, x, y, xn, yn); }
  real_t* r() { return R; } bool setFree(int k) { int n = (int)getNV(); bounds.init(n); for (int i = 0; i < n; ++i) if (bounds.setupBound(i, i < k ? ST_INACTIVE : ST_LOWER) != SUCCESSFUL_RETURN) return false; return true; }
  returnValue bs(const double* b, bool t, double* a) const { return backsolveR(b, t ? BT_TRUE : BT_FALSE, a); } returnValue bs2(const double* b, bool t, bool rem, double* a) const { return backsolveR(b, t ? BT_TRUE : BT_FALSE, rem ? BT_TRUE : BT_FALSE, a); } };
static double wide(Rng& r) { int q = r.range(0, 9); double s = r.sgn(); if (q == 0) return 0.0; if (q == 1) return s * std::pow(10.0, r.uni(-150, 150)); if (q == 2) return s; if (q == 3) return s * std::pow(10.0, r.uni(-12, 12)); return r.nrm(); }
static void givens(Rng& r) {
  static Ex* e = 0; if (!e) e = new Ex(1); op_ = "givens"; double x = wide(r), y = wide(r); if (std::fabs(y) > 1e-27 && std::fabs(y) < 1e-23) y = 1.0; // around the zero tolerance either branch is right
  double xn = 9, yn = 9, c = 9, s = 9; e->giv(x, y, xn, yn, c, s); add("givens"); ld h = sqrtl((ld)x * x + (ld)y * y);
  if (h == 0) { if (!(c == 1 && s == 0 && xn == 0)) viol("givens-zero", "c=%g s=%g", c, s); return; }
  if (std::fabs(y) < 1e-25) { cmp(xn, (ld)x, fabsl((ld)x), 4, "-x"); } else { cmp((double)std::fabs(xn), h, h, 8, "-length"); if (yn != 0) viol("givens-y", "y not annihilated: %g", yn); }
  cmp((double)((ld)c * c + (ld)s * s), 1, 1, 8, "-orthonormal"); ld u = (ld)c * x + (ld)s * y, v = -(ld)s * x + (ld)c * y; cmp((double)(u / h), (ld)xn / h, 1, 8, "-first"); if (std::fabs(y) >= 1e-25) cmp((double)(v / h), 0, 1, 8, "-second");
  double a = r.nrm(), b = r.nrm(), an, bn; e->app(c, s, a, b, an, bn); cmp(an, (ld)c * a + (ld)s * b, 3, 8, "-apply"); cmp(bn, -(ld)s * a + (ld)c * b, 3, 8, "-apply"); double a2 = a, b2 = b; e->app(c, s, a2, b2, a2, b2); if (a2 != an || b2 != bn) viol("givens-alias", "in-place application differs"); // arguments are passed by value
}
static void backsolve(Rng& r) {
  op_ = "backsolve"; int n = r.range(1, 8), k = r.range(0, n); Ex* e = new Ex(n); if (!e->setFree(k)) { delete e; return; } real_t* R = e->r(); for (int i = 0; i < n * n; ++i) R[i] = nanv<double>(); for (int j = 0; j < n; ++j) for (int i = 0; i <= j; ++i) R[i + (size_t)n * j] = j < k ? (i == j ? r.sgn() * r.uni(0.5, 3) : 0.5 * r.nrm()) : nanv<double>();
  bool t = r.chance(0.5), rem = r.chance(0.4); int nz = rem ? k - 1 : k; if (nz < 0) nz = 0; double *b = new double[nz], *a = new double[nz]; vec b0(nz + 1); for (int i = 0; i < nz; ++i) { b0[i] = b[i] = num<double>(r); a[i] = SENT; }
  returnValue rv = rem || r.chance(0.5) ? e->bs2(b, t, rem, a) : e->bs(b, t, a); add("backsolves"); if (rv != SUCCESSFUL_RETURN) viol("backsolve-ret", "ret %d", (int)rv);
  for (int i = 0; i < nz; ++i) { ld s = 0, mag = 0; for (int j = 0; j < nz; ++j) { ld R_ = t ? (j <= i ? R[j + (size_t)n * i] : 0) : (j >= i ? R[i + (size_t)n * j] : 0); ld q = R_ * a[j]; s += q; mag += fabsl(q); } cmp((double)s, (ld)b0[i], mag + std::fabs(b0[i]), 4 * n); same(b[i], b0[i]); }
  if (nz > 0 && r.chance(0.2)) { int z = r.range(0, nz - 1); R[z + (size_t)n * z] = 0; for (int i = 0; i < nz; ++i) b[i] = 1 + r.u01(); rv = e->bs2(b, t, rem, a); add("singular_backsolves"); if (rv == SUCCESSFUL_RETURN) { bool fin = true; for (int i = 0; i < nz; ++i) if (!(std::fabs(a[i]) < 1e300)) fin = false; if (!fin) viol("backsolve-singular", "division by zero reported as success"); } }
  delete[] a; delete[] b; delete e;
}
static void helpers(Rng& r) {
  op_ = "helpers"; add("helper_rounds"); for (int k = 0; k < 20; ++k) { double x = wide(r), y = r.chance(0.2) ? x : wide(r), tol = r.chance(0.3) ? 0.0 : std::pow(10.0, r.uni(-20, 2)); int_t i = r.range(-5, 5), j = r.range(-5, 5);
    if ((getMax(x, y) != (x > y ? x : y)) || (getMin(x, y) != (x < y ? x : y)) || (getMax(i, j) != (i > j ? i : j)) || (getMin(i, j) != (i < j ? i : j))) viol("minmax", "x=%g y=%g i=%d j=%d", x, y, (int)i, (int)j);
    if (getAbs(x) != std::fabs(x) || getSign(x) != (x >= 0 ? 1.0 : -1.0) || getSqrt(std::fabs(x)) != std::sqrt(std::fabs(x))) viol("abs-sign-sqrt", "x=%g abs %g sign %g", x, getAbs(x), getSign(x));
    if ((isZero(x, tol) == BT_TRUE) != (std::fabs(x) <= tol) || (isEqual(x, y, tol) == BT_TRUE) != (std::fabs(x - y) <= tol)) viol("comparisons", "x=%g y=%g tol=%g", x, y, tol); if (isZero(0.0) != BT_TRUE || isEqual(x, x) != BT_TRUE || isZero(1e-3) != BT_FALSE || isEqual(1.0, 1.001) != BT_FALSE) viol("comparisons", "defaults"); }
  if (getMax((int_t)3000000000L, (int_t)5) != (int_t)3000000000L || getMin(-(int_t)3000000000L, (int_t)5) != -(int_t)3000000000L) viol("minmax", "wide integers truncated");
  int n = r.range(0, 12); double* v = new double[n]; ld s1 = 0, s2 = 0; for (int i = 0; i < n; ++i) { v[i] = num<double>(r); s1 += std::fabs(v[i]); s2 += (ld)v[i] * v[i]; } op_ = "norm"; cmp(getNorm(v, n, 1), s1, s1, n, "1"); cmp(getNorm(v, n, 2), sqrtl(s2), sqrtl(s2), n, "2"); cmp(getNorm(v, n), sqrtl(s2), sqrtl(s2), n, "d"); if (getNorm(v, n, 3) >= 0) viol("norm-type", "invalid norm type accepted"); delete[] v;
  double t0 = getCPUtime(), t1 = getCPUtime(); if (!(t1 >= t0) || t0 < 0) viol("cputime", "clock went backwards: %g then %g", t0, t1);
  // constraint normalisation keeps the feasible set: rows of unit norm, limits scaled alike, infinite limits stay infinite
  int nv = r.range(1, 6), nc = r.range(1, 6), ty = r.range(1, 2); op_ = "normalise"; vec A((size_t)nv * nc), lo(nc), up(nc); for (size_t q = 0; q < A.size(); ++q) A[q] = r.chance(0.2) ? 0 : r.nrm() * (r.chance(0.3) ? 100 : 1); int zr = r.chance(0.2) ? r.range(0, nc - 1) : -1; if (zr >= 0) for (int j = 0; j < nv; ++j) A[zr * nv + j] = 0; for (int i = 0; i < nc; ++i) { lo[i] = r.chance(0.3) ? -INFTY : r.nrm() - 1; up[i] = r.chance(0.3) ? INFTY : lo[i] > -1e10 ? lo[i] + r.u01() : r.nrm(); }
  real_t *a = new real_t[A.size()], *l = new real_t[nc], *u = new real_t[nc]; for (size_t q = 0; q < A.size(); ++q) a[q] = A[q]; for (int i = 0; i < nc; ++i) { l[i] = lo[i]; u[i] = up[i]; } bool nl = r.chance(0.2), nu = r.chance(0.2); if (normaliseConstraints(nv, nc, a, nl ? 0 : l, nu ? 0 : u, ty) != SUCCESSFUL_RETURN) viol("normalise-ret", "rejected"); add("normalised");
  for (int i = 0; i < nc; ++i) { ld q = 0, w = 0; for (int j = 0; j < nv; ++j) { ld z = A[i * nv + j]; q += ty == 1 ? fabsl(z) : z * z; z = a[i * nv + j]; w += ty == 1 ? fabsl(z) : z * z; } if (ty == 2) { q = sqrtl(q); w = sqrtl(w); } cmp((double)w, 1, 1, 4 * nv); if (q < 1e-10L) { if (!nl && l[i] > -INFTY) viol("normalise-empty-row", "lower limit kept"); if (!nu && u[i] < INFTY) viol("normalise-empty-row", "upper limit kept"); continue; }
    for (int j = 0; j < nv; ++j) cmp(a[i * nv + j], A[i * nv + j] / q, 1, 4 * nv); if (!nl) { if (lo[i] <= -INFTY) { if (l[i] > -INFTY) viol("normalise-infinite", "lower limit %g became %g", lo[i], l[i]); } else cmp(l[i], lo[i] / q, std::fabs(lo[i]) / q, 4 * nv); } if (!nu) { if (up[i] >= INFTY) { if (u[i] < INFTY) viol("normalise-infinite", "upper limit %g became %g", up[i], u[i]); } else cmp(u[i], up[i] / q, std::fabs(up[i]) / q, 4 * nv); } if (nl) same(l[i], lo[i]); if (nu) same(u[i], up[i]); }
  if (normaliseConstraints(0, nc, a, l, u) == SUCCESSFUL_RETURN || normaliseConstraints(nv, -1, a, l, u) == SUCCESSFUL_RETURN || normaliseConstraints(nv, nc, 0, l, u) == SUCCESSFUL_RETURN) viol("normalise-invalid", "invalid arguments accepted"); delete[] a; delete[] l; delete[] u;
}
static void run(long idx, Rng& r) {
  R().cur = idx; uint64_t h = r.s; switch (idx % 6) { case 0: tag("dgemm"); gemm<double>(r, "dgemm"); break; case 1: tag("sgemm"); gemm<float>(r, "sgemm"); break; case 2: tag("dpotrf"); potrf<double>(r, "dpotrf"); break; case 3: tag("spotrf"); potrf<float>(r, "spotrf"); break; case 4: tag("givens"); for (int k = 0; k < 10; ++k) givens(r); backsolve(r); break; default: tag("helpers"); helpers(r); } sig(h); if (idx % 6 == 0) sample("case %ld seedstate %llx", idx, (unsigned long long)h);
  if (idx % 97 == 0) { // the parts that are not bundled must say so instead of returning silently
    la_uint_t n = 2, o = 1; double A[4] = {1, 0, 1, 1}, B[2] = {1, 1}, rc = 0, w[8]; float a[4] = {1, 0, 1, 1}, b[2] = {1, 1}, fr = 0, fw[8]; la_int_t i1 = 0, i2 = 0, i3 = 0, i4 = 0; la_uint_t iw[4]; DTRTRS("U", "N", "N", &n, &o, A, &n, B, &n, &i1); STRTRS("U", "N", "N", &n, &o, a, &n, b, &n, &i2); DTRCON("1", "U", "N", &n, A, &n, &rc, w, iw, &i3); STRCON("1", "U", "N", &n, a, &n, &fr, fw, iw, &i4); add("stub_calls"); bool d1 = i1 != 0 || (std::fabs(B[0]) < 1e-12 && B[1] == 1), d2 = i2 != 0 || (std::fabs(b[0]) < 1e-5 && b[1] == 1); if (!d1 || !d2) viol("trtrs-silent", "triangular solve reported success without solving"); if ((i3 == 0 && !(rc > 0)) || (i4 == 0 && !(fr > 0))) viol("trcon-silent", "condition estimate reported success without estimating"); }
}
int main(int c, char** v) { return runMain(c, v, run); }
