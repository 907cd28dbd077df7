// Stand-in for the external sparse linear solver (MA57 or MA27 calling sequence) and for the two LAPACK routines whose bundled
// replacements are empty: dense symmetric indefinite factorisation with complete (Bunch-Parlett) pivoting, exact inertia and rank.
#include <qpOASES.hpp>
#include <cmath>
#include <cstring>
#include <vector>
#include "ma57_stub.hpp"
using namespace qpOASES;
LinCtl linCtl;
void linReset() { memset(&linCtl, 0, sizeof linCtl); linCtl.zero = 1e-13; linCtl.failAt = -1; }
namespace {
typedef long double LD;
struct Ldl { int n, rank, neg; std::vector<double> L; std::vector<double> d, e; std::vector<int> perm; };
void build(int n, long nz, const fint_t* ir, const fint_t* jc, const double* a, std::vector<LD>& M) {
  M.assign((size_t)n * n, 0); for (long k = 0; k < nz; ++k) { long i = ir[k] - 1, j = jc[k] - 1; if (i < 0 || j < 0 || i >= n || j >= n) continue; /* HSL ignores entries out of range */ M[i * n + j] += a[k]; if (i != j) M[j * n + i] += a[k]; if (i > j) ++linCtl.lower; else if (i < j) ++linCtl.upper; ++linCtl.nonzeros; } }
void factor(int n, std::vector<LD>& A, Ldl& f) {
  f.n = n; f.rank = 0; f.neg = 0; f.L.assign((size_t)n * n, 0); f.d.assign(n, 0); f.e.assign(n, 0); f.perm.resize(n); for (int i = 0; i < n; ++i) f.perm[i] = i; LD mx = 0; for (size_t i = 0; i < A.size(); ++i) if (fabsl(A[i]) > mx) mx = fabsl(A[i]); const LD tol = mx * linCtl.zero, alpha = (1 + sqrtl(17.0L)) / 8; std::vector<LD> L((size_t)n * n, 0); int k = 0;
#define SWAP(p, q) { if (p != q) { for (int z = 0; z < n; ++z) std::swap(A[(size_t)p * n + z], A[(size_t)q * n + z]); for (int z = 0; z < n; ++z) std::swap(A[(size_t)z * n + p], A[(size_t)z * n + q]); for (int z = 0; z < k; ++z) std::swap(L[(size_t)p * n + z], L[(size_t)q * n + z]); std::swap(f.perm[p], f.perm[q]); } }
  while (k < n) { LD m0 = -1, m1 = -1; int p = k, q = k, r = k; for (int i = k; i < n; ++i) { if (fabsl(A[(size_t)i * n + i]) > m1) { m1 = fabsl(A[(size_t)i * n + i]); r = i; } for (int j = k; j < i; ++j) if (fabsl(A[(size_t)i * n + j]) > m0) { m0 = fabsl(A[(size_t)i * n + j]); p = i; q = j; } }
    if ((m1 > m0 ? m1 : m0) <= tol) break;
    if (m1 >= alpha * m0) { SWAP(r, k); LD d = A[(size_t)k * n + k]; f.d[k] = (double)d; if (d < 0) ++f.neg; for (int i = k + 1; i < n; ++i) L[(size_t)i * n + k] = A[(size_t)i * n + k] / d; for (int i = k + 1; i < n; ++i) for (int j = k + 1; j < n; ++j) A[(size_t)i * n + j] -= L[(size_t)i * n + k] * A[(size_t)k * n + j]; L[(size_t)k * n + k] = 1; ++k; }
    else { SWAP(q, k); if (p == k) p = q; SWAP(p, (k + 1)); LD a = A[(size_t)k * n + k], b = A[(size_t)(k + 1) * n + k], c = A[(size_t)(k + 1) * n + k + 1], det = a * c - b * b; f.d[k] = (double)a; f.e[k] = (double)b; f.d[k + 1] = (double)c; ++f.neg; ++linCtl.twoByTwo; if (det > 0) { if (a < 0) ++f.neg; else --f.neg; }
      for (int i = k + 2; i < n; ++i) { LD u = A[(size_t)i * n + k], v = A[(size_t)i * n + k + 1]; L[(size_t)i * n + k] = (u * c - v * b) / det; L[(size_t)i * n + k + 1] = (v * a - u * b) / det; } for (int i = k + 2; i < n; ++i) for (int j = k + 2; j < n; ++j) A[(size_t)i * n + j] -= L[(size_t)i * n + k] * A[(size_t)k * n + j] + L[(size_t)i * n + k + 1] * A[(size_t)(k + 1) * n + j]; L[(size_t)k * n + k] = L[(size_t)(k + 1) * n + k + 1] = 1; k += 2; } }
#undef SWAP
  f.rank = k; for (size_t i = 0; i < L.size(); ++i) f.L[i] = (double)L[i]; if (linCtl.reversed) for (int i = k, j = n - 1; i < j; ++i, --j) std::swap(f.perm[i], f.perm[j]); }
// factors: L row by row, d, e
void solveLdl(int n, const double* F, const fint_t* perm, double* x) {
  const double *L = F, *d = F + (size_t)n * n, *e = d + n; std::vector<LD> w(n); for (int i = 0; i < n; ++i) { long p = perm[i] < 0 ? -perm[i] : perm[i]; w[i] = x[p - 1]; }
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) w[i] -= (LD)L[(size_t)i * n + j] * w[j];
  for (int i = 0; i < n; ++i) { if (e[i] != 0) { LD a = d[i], b = e[i], c = d[i + 1], det = a * c - b * b, u = w[i], v = w[i + 1]; w[i] = (c * u - b * v) / det; w[i + 1] = (a * v - b * u) / det; ++i; } else w[i] = d[i] != 0 ? w[i] / d[i] : 0; }
  for (int i = n - 1; i >= 0; --i) for (int j = i + 1; j < n; ++j) w[i] -= (LD)L[(size_t)j * n + i] * w[j];
  for (int i = 0; i < n; ++i) { long p = perm[i] < 0 ? -perm[i] : perm[i]; x[p - 1] = (double)w[i]; } }
bool failNow(int kind, long call) { if (linCtl.failKind == kind && linCtl.failAt == call) { ++linCtl.failed; return true; } return false; }
} // namespace
extern "C" {
#ifdef SOLVER_MA57
void ma57id_(double* cntl, fint_t* icntl) { for (int i = 0; i < 5; ++i) cntl[i] = 0; for (int i = 0; i < 20; ++i) icntl[i] = 0; cntl[0] = 0.01; cntl[1] = 1e-20; icntl[5] = 5; icntl[14] = 1; }
void ma57ad_(fint_t* n, fint_t* ne, const fint_t* irn, const fint_t* jcn, fint_t* lkeep, fint_t* keep, fint_t* iwork, fint_t*, fint_t* info, double* rinfo) {
  for (int i = 0; i < 40; ++i) info[i] = 0; for (int i = 0; i < 20; ++i) rinfo[i] = 0; ++linCtl.analyseCalls; if (failNow(0, linCtl.analyseCalls)) { info[0] = -3; info[1] = 77; return; }
  long need = 5 * *n + *ne + (*ne > *n ? *ne : *n) + 42; if (*lkeep < need) { info[0] = -14; ++linCtl.wrongDim; return; } for (long k = 0; k < *ne; ++k) { keep[k] = irn[k]; keep[*ne + k] = jcn[k]; } for (int i = 0; i < 5 * *n; ++i) iwork[i] = i; info[8] = *n * *n + 2 * *n + 2; info[9] = *n * 2 + 10; }
void ma57bd_(fint_t* n_, fint_t* ne, double* a, double* fact, fint_t* lfact, fint_t* ifact, fint_t* lifact, fint_t* lkeep, fint_t* keep, fint_t* iwork, fint_t* icntl, double*, fint_t* info, double* rinfo) {
  int n = (int)*n_; (void)lkeep; for (int i = 0; i < 40; ++i) info[i] = 0; for (int i = 0; i < 20; ++i) rinfo[i] = 0; for (int i = 0; i < n; ++i) iwork[i] = 0; ++linCtl.factorCalls; if (failNow(1, linCtl.factorCalls)) { info[0] = -3; info[1] = 99; return; }
  if (*lfact < (fint_t)n * n + 2 * n || *lifact < 2 * n + 10 || icntl[15] != 1) { info[0] = -4; ++linCtl.wrongDim; return; } std::vector<LD> M; build(n, *ne, keep, keep + *ne, a, M); Ldl f; factor(n, M, f); int rank = f.rank, neg = f.neg; if (failNow(2, linCtl.factorCalls) && rank == n) rank = n - 1; if (failNow(3, linCtl.factorCalls) && neg < n) ++neg;
  for (size_t i = 0; i < f.L.size(); ++i) fact[i] = f.L[i]; for (int i = 0; i < n; ++i) { fact[(size_t)n * n + i] = f.d[i]; fact[(size_t)n * n + n + i] = f.e[i]; } std::vector<fint_t> p(n); for (int i = 0; i < n; ++i) { bool two = f.e[i] != 0 || (i && f.e[i - 1] != 0); p[i] = two && i < rank ? -(fint_t)(f.perm[i] + 1) : (fint_t)(f.perm[i] + 1); }
  // fronts: (ncols, nrows, columns...), pivots first
  int cut = linCtl.blocks && n > 1 ? n / 2 : n; ifact[0] = *lfact; ifact[1] = 0; ifact[2] = cut < n ? 2 : 1; long w = 3; ifact[w++] = n; ifact[w++] = cut; for (int i = 0; i < n; ++i) ifact[w++] = p[i]; if (cut < n) { ifact[w++] = n - cut; ifact[w++] = n - cut; for (int i = cut; i < n; ++i) ifact[w++] = p[i]; }
  info[23] = neg; info[24] = rank; if (rank < n) { info[0] = 4; ++linCtl.singular; } }
void ma57cd_(fint_t* job, fint_t* n_, double* fact, fint_t*, fint_t* ifact, fint_t*, fint_t* nrhs, double* rhs, fint_t* lrhs, double* work, fint_t* lwork, fint_t* iwork, fint_t*, fint_t* info) {
  int n = (int)*n_; for (int i = 0; i < 40; ++i) info[i] = 0; ++linCtl.solveCalls; if (failNow(4, linCtl.solveCalls)) { info[0] = -5; return; } if (*job != 1 || *nrhs != 1 || *lrhs < n || *lwork < n) { info[0] = -6; ++linCtl.wrongDim; return; } for (int i = 0; i < n; ++i) { work[i] = rhs[i]; iwork[i] = i; } solveLdl(n, fact, ifact + 5, rhs); }
#endif
#ifdef SOLVER_MA27
void ma27id_(fint_t* icntl, double* cntl) { for (int i = 0; i < 30; ++i) icntl[i] = 0; for (int i = 0; i < 5; ++i) cntl[i] = 0; cntl[0] = 0.1; }
void ma27ad_(fint_t* n, fint_t* nz, const fint_t* irn, const fint_t* jcn, fint_t* iw, fint_t* liw, fint_t* ikeep, fint_t* iw1, fint_t* nsteps, fint_t* iflag, fint_t*, double*, fint_t* info, double* ops) {
  (void)irn; (void)jcn; (void)iflag; for (int i = 0; i < 20; ++i) info[i] = 0; *ops = 0; ++linCtl.analyseCalls; if (failNow(0, linCtl.analyseCalls)) { info[0] = -3; info[1] = 77; return; } if (*liw < 2 * *nz + 3 * *n + 1) { info[0] = -3; ++linCtl.wrongDim; return; } iw[*liw - 1] = 0; for (int i = 0; i < 3 * *n; ++i) ikeep[i] = i; for (int i = 0; i < 2 * *n; ++i) iw1[i] = 0; *nsteps = *n; info[4] = (*n * *n + 2 * *n) / 4 + *nz + 8; info[5] = *n + 8; }
void ma27bd_(fint_t* n_, fint_t* nz, const fint_t* irn, const fint_t* jcn, double* a, fint_t* la, fint_t* iw, fint_t* liw, fint_t* ikeep, fint_t* nsteps, fint_t* maxfrt, fint_t* iw1, fint_t*, double*, fint_t* info) {
  int n = (int)*n_; for (int i = 0; i < 20; ++i) info[i] = 0; (void)ikeep; (void)nsteps; for (int i = 0; i < n; ++i) iw1[i] = 0; ++linCtl.factorCalls; if (failNow(1, linCtl.factorCalls)) { info[0] = -4; info[1] = 99; return; } if (*la < (fint_t)n * n + 2 * n || *liw < n) { info[0] = -3; ++linCtl.wrongDim; return; }
  std::vector<LD> M; build(n, *nz, irn, jcn, a, M); Ldl f; factor(n, M, f); int rank = f.rank, neg = f.neg; if (failNow(2, linCtl.factorCalls) && rank == n) rank = n - 1; if (failNow(3, linCtl.factorCalls) && neg < n) ++neg; for (size_t i = 0; i < f.L.size(); ++i) a[i] = f.L[i]; for (int i = 0; i < n; ++i) { a[(size_t)n * n + i] = f.d[i]; a[(size_t)n * n + n + i] = f.e[i]; iw[i] = f.perm[i] + 1; } *maxfrt = n; info[14] = neg; if (rank < n) { info[0] = 3; info[1] = rank; ++linCtl.singular; } }
void ma27cd_(fint_t* n_, double* a, fint_t*, fint_t* iw, fint_t*, double* w, fint_t* maxfrt, double* rhs, fint_t* iw1, fint_t* nsteps, fint_t*, double*) { int n = (int)*n_; ++linCtl.solveCalls; for (int i = 0; i < *maxfrt; ++i) w[i] = 0; for (int i = 0; i < *nsteps; ++i) iw1[i] = 0; solveLdl(n, a, iw, rhs); }
#endif
// upper triangular, not transposed, as the solver needs it
void dtrtrs_(const char* uplo, const char* trans, const char* diag, const la_uint_t* N, const la_uint_t* NRHS, double* A, const la_uint_t* LDA, double* B, const la_uint_t* LDB, la_int_t* INFO) {
  long n = (long)*N, lda = (long)*LDA, ldb = (long)*LDB; *INFO = 0; if (*uplo != 'U' || *trans != 'N' || *diag != 'N' || lda < (n > 1 ? n : 1) || ldb < (n > 1 ? n : 1)) { *INFO = -1; ++linCtl.wrongDim; return; } for (long i = 0; i < n; ++i) if (A[i + i * lda] == 0) { *INFO = i + 1; return; }
  for (long k = 0; k < (long)*NRHS; ++k) for (long i = n - 1; i >= 0; --i) { LD s = B[i + k * ldb]; for (long j = i + 1; j < n; ++j) s -= (LD)A[i + j * lda] * B[j + k * ldb]; B[i + k * ldb] = (double)(s / A[i + i * lda]); } }
void dtrcon_(const char* norm, const char* uplo, const char* diag, const la_uint_t* N, double* A, const la_uint_t* LDA, double* RCOND, double* WORK, const la_uint_t* IWORK, la_int_t* INFO) {
  long n = (long)*N, lda = (long)*LDA; *INFO = 0; for (long i = 0; i < 3 * n; ++i) WORK[i] = 0; for (long i = 0; i < n; ++i) const_cast<la_uint_t*>(IWORK)[i] = 0; if (*norm != '1' || *uplo != 'U' || *diag != 'N' || lda < n) { *INFO = -1; ++linCtl.wrongDim; return; } LD na = 0, ni = 0; *RCOND = 0; if (n == 0) { *RCOND = 1; return; } std::vector<LD> x(n);
  for (long j = 0; j < n; ++j) { if (A[j + j * lda] == 0) return; LD s = 0; for (long i = 0; i <= j; ++i) s += fabsl(A[i + j * lda]); if (s > na) na = s; for (long i = 0; i < n; ++i) x[i] = i == j; for (long i = j; i >= 0; --i) { for (long k = i + 1; k <= j; ++k) x[i] -= A[i + k * lda] * x[k]; x[i] /= A[i + i * lda]; } s = 0; for (long i = 0; i <= j; ++i) s += fabsl(x[i]); if (s > ni) ni = s; } *RCOND = (double)(1 / (na * ni)); }
}
