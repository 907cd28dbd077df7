// Every matrix class against naive long-double arithmetic on the same data: all
// operations, index lists in any order, leading dimensions, scalar factors;
// gaps between the columns of inputs hold NaN (must not be read), gaps of outputs a
// sentinel (must not be written); every buffer has its exact size (ASan red zones).
#include "common.hpp"
#include <limits>
using namespace vf;
static const double SENT = 7.25e77;
static double NANV() { return std::numeric_limits<double>::quiet_NaN(); }
struct Ref { int nr, nc; vec v; double at(int i, int j) const { return v[(size_t)i * nc + j]; } };
static const char* CN[] = {"DenseMatrix", "SymDenseMat", "SparseMatrix", "SparseMatrixRow", "SymSparseMat"};
static int cls_; static const char* op_;
static void bad(const char* what, double got, double want, const char* extra = "") { char key[96]; snprintf(key, sizeof key, "%s::%s-%s", CN[cls_], op_, what); viol(key, "got %.17g want %.17g %s", got, want, extra); }
static bool close_(double a, ld b, ld mag) { return fabsl((ld)a - b) <= 1e-13L * (1e-3L + mag) * 8 || ((ld)a == b); }
static void cmp(double a, ld b, ld mag, const char* extra = "") { add("values_compared"); if (!close_(a, b, mag)) bad("value", a, (double)b, extra); }
static void same(double a, double b, const char* extra = "") { add("untouched_checked"); if (memcmp(&a, &b, sizeof a)) bad("touched", a, b, extra); }
static double fac(Rng& r) { switch (r.range(0, 5)) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return 2.5; case 4: return r.nrm(); default: return -0.5; } }
struct IL { Indexlist l; std::vector<int> ix; };
static void mkList(Rng& r, IL& L, int n) { L.ix.clear(); for (int i = 0; i < n; ++i) L.ix.push_back(i); r.shuffle(L.ix); int k = r.range(0, n); if (r.chance(0.2)) k = n; L.ix.resize((size_t)k); if (r.chance(0.3)) std::sort(L.ix.begin(), L.ix.end()); L.l.init(std::max(n, 1)); for (int i = 0; i < k; ++i) L.l.addNumber(L.ix[i]); }
static void all(IL& L, int n) { L.ix.clear(); for (int i = 0; i < n; ++i) L.ix.push_back(i); }
static real_t* raw(size_t n) { return new real_t[n]; }

// x block (rows d, xN columns, leading dim ld): gaps NaN
struct Blk { real_t* p; int d, N, ld; size_t sz; Blk(int d_, int N_, int ld_) : d(d_), N(N_), ld(ld_), sz(0) { sz = N ? (size_t)(N - 1) * ld + d : 0; p = raw(sz); } ~Blk() { delete[] p; }
  double get(int i, int k) const { return p[(size_t)k * ld + i]; }
  bool in(size_t q) const { return (int)(q % (size_t)ld) < d; }
private: Blk(const Blk&); };
static void fillX(Rng& r, Blk& b) { for (size_t q = 0; q < b.sz; ++q) b.p[q] = b.in(q) ? (r.chance(0.1) ? 0.0 : r.nrm()) : NANV(); }
static void fillY(Rng& r, Blk& b, double beta) { for (size_t q = 0; q < b.sz; ++q) b.p[q] = b.in(q) ? (beta == 0 ? NANV() : r.nrm()) : SENT; }

static void doTimes(Rng& r, const Matrix* M, const Ref& A, bool tr) {
  op_ = tr ? "transTimes" : "times"; int N = r.range(1, 3), di = tr ? A.nr : A.nc, dout = tr ? A.nc : A.nr;
  Blk x(di, N, std::max(1, di + (r.chance(0.5) ? 0 : r.range(1, 3)))), y(dout, N, std::max(1, dout + (r.chance(0.5) ? 0 : r.range(1, 3))));
  double al = fac(r), be = fac(r); fillX(r, x); fillY(r, y, be); vec y0(y.p, y.p + y.sz), x0(x.p, x.p + x.sz);
  returnValue rv = tr ? M->transTimes(N, al, x.p, x.ld, be, y.p, y.ld) : M->times(N, al, x.p, x.ld, be, y.p, y.ld);
  if (rv != SUCCESSFUL_RETURN) bad("ret", rv, 0); add("products");
  for (size_t q = 0; q < y.sz; ++q) if (!y.in(q)) same(y.p[q], y0[q], "gap of y");
  if (x.sz && memcmp(x.p, &x0[0], x.sz * sizeof(double))) bad("input-changed", 0, 0);
  for (int k = 0; k < N; ++k) for (int i = 0; i < dout; ++i) { ld s = 0, mag = 0; for (int j = 0; j < di; ++j) { ld t = (ld)al * (tr ? A.at(j, i) : A.at(i, j)) * x.get(j, k); s += t; mag += fabsl(t); } if (be != 0) { ld t = (ld)be * y0[(size_t)k * y.ld + i]; s += t; mag += fabsl(t); } cmp(y.get(i, k), s, mag, "full product"); }
}
static void doTimesIdx(Rng& r, const Matrix* M, const Ref& A, bool tr) {
  op_ = tr ? "transTimes-idx" : "times-idx"; IL R_, C_; mkList(r, R_, A.nr); mkList(r, C_, A.nc); bool nullC = !tr && r.chance(0.3); if (nullC) all(C_, A.nc);
  int N = r.range(1, 3), nri = (int)R_.ix.size(), nci = (int)C_.ix.size(); bool compr = tr || r.chance(0.7);
  int di = tr ? nri : nci, dout = tr ? nci : (compr ? nri : A.nr);
  Blk x(di, N, std::max(1, di + (r.chance(0.5) ? 0 : r.range(1, 3)))), y(dout, N, std::max(1, dout + (r.chance(0.5) ? 0 : r.range(1, 3))));
  double al = fac(r), be = fac(r); fillX(r, x); fillY(r, y, be);
  std::vector<int> sel(A.nr, 0); for (int i = 0; i < nri; ++i) sel[R_.ix[i]] = 1;
  if (!compr) for (int k = 0; k < N; ++k) for (int i = 0; i < A.nr; ++i) if (!sel[i]) y.p[(size_t)k * y.ld + i] = SENT;
  vec y0(y.p, y.p + y.sz), x0(x.p, x.p + x.sz);
  returnValue rv = tr ? M->transTimes(&R_.l, &C_.l, N, al, x.p, x.ld, be, y.p, y.ld) : M->times(&R_.l, nullC ? 0 : &C_.l, N, al, x.p, x.ld, be, y.p, y.ld, compr ? BT_TRUE : BT_FALSE);
  if (rv != SUCCESSFUL_RETURN) bad("ret", rv, 0); add("indexed_products");
  for (size_t q = 0; q < y.sz; ++q) if (!y.in(q)) same(y.p[q], y0[q], "gap of y");
  if (x.sz && memcmp(x.p, &x0[0], x.sz * sizeof(double))) bad("input-changed", 0, 0);
  char ex[96]; snprintf(ex, sizeof ex, "rows %d cols %d%s xN %d alpha %g beta %g %s", nri, nci, nullC ? " (null)" : "", N, al, be, compr ? "" : "uncompressed");
  if (tr) { for (int k = 0; k < N; ++k) for (int c = 0; c < nci; ++c) { ld s = 0, mag = 0; for (int i = 0; i < nri; ++i) { ld t = (ld)al * A.at(R_.ix[i], C_.ix[c]) * x.get(i, k); s += t; mag += fabsl(t); } if (be != 0) { ld t = (ld)be * y0[(size_t)k * y.ld + c]; s += t; mag += fabsl(t); } cmp(y.get(c, k), s, mag, ex); } return; }
  for (int k = 0; k < N; ++k) { for (int i = 0; i < nri; ++i) { int yi = compr ? i : R_.ix[i]; ld s = 0, mag = 0; for (int c = 0; c < nci; ++c) { ld t = (ld)al * A.at(R_.ix[i], C_.ix[c]) * x.get(c, k); s += t; mag += fabsl(t); } if (be != 0) { ld t = (ld)be * y0[(size_t)k * y.ld + yi]; s += t; mag += fabsl(t); } cmp(y.get(yi, k), s, mag, ex); }
    if (!compr) for (int i = 0; i < A.nr; ++i) if (!sel[i]) same(y.p[(size_t)k * y.ld + i], y0[(size_t)k * y.ld + i], "unselected row of y"); }
}
static void doRowCol(Rng& r, const Matrix* M, const Ref& A) {
  if (A.nr > 0) { op_ = "getRow"; IL C_; mkList(r, C_, A.nc); bool nul = r.chance(0.4); if (nul) all(C_, A.nc); int q = r.range(0, A.nr - 1); double al = fac(r); int k = (int)C_.ix.size(); real_t* o = raw((size_t)k + 1); for (int i = 0; i <= k; ++i) o[i] = SENT;
    if (M->getRow(q, nul ? 0 : &C_.l, al, o) != SUCCESSFUL_RETURN) bad("ret", 1, 0); for (int i = 0; i < k; ++i) cmp(o[i], (ld)al * A.at(q, C_.ix[i]), std::fabs(A.at(q, C_.ix[i])), nul ? "all columns" : "indexed"); same(o[k], SENT); delete[] o; add("rows"); }
  if (A.nc > 0) { op_ = "getCol"; IL R_; mkList(r, R_, A.nr); bool nul = cls_ == 3 && r.chance(0.4); if (nul) all(R_, A.nr); int q = r.range(0, A.nc - 1); double al = fac(r); int k = (int)R_.ix.size(); real_t* o = raw((size_t)k + 1); for (int i = 0; i <= k; ++i) o[i] = SENT;
    if (M->getCol(q, nul ? 0 : &R_.l, al, o) != SUCCESSFUL_RETURN) bad("ret", 1, 0); for (int i = 0; i < k; ++i) cmp(o[i], (ld)al * A.at(R_.ix[i], q), std::fabs(A.at(R_.ix[i], q)), nul ? "all rows" : "indexed"); same(o[k], SENT); delete[] o; add("cols"); }
}
static void doNorms(Rng& r, const Matrix* M, const Ref& A) {
  for (int ty = 1; ty <= 2; ++ty) {
    op_ = ty == 1 ? "getNorm1" : "getNorm2"; ld s = 0; for (size_t i = 0; i < A.v.size(); ++i) s += ty == 1 ? fabsl((ld)A.v[i]) : (ld)A.v[i] * A.v[i]; if (ty == 2) s = sqrtl(s); cmp(M->getNorm(ty), s, s);
    op_ = ty == 1 ? "getRowNorm1" : "getRowNorm2"; real_t* o = raw((size_t)A.nr + 1); for (int i = 0; i <= A.nr; ++i) o[i] = SENT; if (M->getRowNorm(o, ty) != SUCCESSFUL_RETURN) bad("ret", 1, 0); same(o[A.nr], SENT);
    for (int i = 0; i < A.nr; ++i) { ld t = 0; for (int j = 0; j < A.nc; ++j) t += ty == 1 ? fabsl((ld)A.at(i, j)) : (ld)A.at(i, j) * A.at(i, j); if (ty == 2) t = sqrtl(t); cmp(o[i], t, t, "all rows"); cmp(M->getRowNorm(i, ty), t, t, "single row"); } delete[] o; add("norms"); }
}
static void doSub(Rng& r, const Matrix* M, const Ref& A) {
  if (cls_ == 3) return; op_ = "getSparseSubmatrix"; bool low = (cls_ == 1 || cls_ == 4) && r.chance(0.5); IL R_, C_; mkList(r, R_, A.nr); mkList(r, C_, A.nc); int mode = low ? 0 : r.range(0, 3); if (mode == 1 && A.nc == 0) mode = 0; if (mode == 2 && A.nr == 0) mode = 0;
  int ro = r.range(0, 5), co = r.range(0, 5); std::vector<int_t> a, b; int ic = 0, ir = 0;
  if (mode == 1) { ic = r.range(0, A.nc - 1); C_.ix.assign(1, ic); } if (mode == 2) { ir = r.range(0, A.nr - 1); R_.ix.assign(1, ir); }
  const Indexlist* cl = low ? &R_.l : &C_.l; const std::vector<int>& cx = low ? R_.ix : C_.ix; for (size_t i = 0; i < R_.ix.size(); ++i) a.push_back(R_.ix[i]); for (size_t i = 0; i < cx.size(); ++i) b.push_back(cx[i]);
  BooleanType L = low ? BT_TRUE : BT_FALSE; int_t nz = -1, nz2; returnValue rv;
  for (int pass = 0; pass < 2; ++pass) {
    int_t *pi = 0, *pj = 0; real_t* pv = 0; if (pass) { pi = new int_t[nz]; pj = new int_t[nz]; pv = new real_t[nz]; nz2 = nz; } int_t& z = pass ? nz2 : nz;
    if (mode == 0) rv = M->getSparseSubmatrix(&R_.l, cl, ro, co, z, pi, pj, pv, L); else if (mode == 1) rv = M->getSparseSubmatrix(&R_.l, (int_t)ic, ro, co, z, pi, pj, pv, L); else if (mode == 2) rv = M->getSparseSubmatrix((int_t)ir, cl, ro, co, z, pi, pj, pv, L); else rv = M->getSparseSubmatrix((int_t)a.size(), a.empty() ? 0 : &a[0], (int_t)b.size(), b.empty() ? 0 : &b[0], ro, co, z, pi, pj, pv, L);
    if (rv != SUCCESSFUL_RETURN) { bad("ret", rv, 0); delete[] pi; delete[] pj; delete[] pv; return; }
    if (!pass) continue; add("submatrices"); if (nz2 != nz) bad("count", nz2, nz); int nr = (int)R_.ix.size(), nc = (int)cx.size(); vec D((size_t)nr * nc + 1, 0.0); std::vector<int> hit((size_t)nr * nc + 1, 0);
    for (int_t q = 0; q < nz2; ++q) { long i = pi[q] - ro, j = pj[q] - co; if (i < 0 || j < 0 || i >= nr || j >= nc) { bad("range", (double)i, (double)j); continue; } if (hit[i * nc + j]++) bad("twice", (double)i, (double)j); if (low && j > i) bad("upper", (double)i, (double)j); D[i * nc + j] = pv[q]; }
    for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) { if (low && j > i) continue; cmp(D[i * nc + j], A.at(R_.ix[i], cx[j]), 0, "entry"); }
    delete[] pi; delete[] pj; delete[] pv; }
}
static void doFull(const Matrix* M, const Ref& A, const char* o = "full") { op_ = o; real_t* f = M->full(); for (size_t i = 0; i < A.v.size(); ++i) if (!(f[i] == A.v[i])) bad("value", f[i], A.v[i]); delete[] f; add("exports"); }
static void doBil(Rng& r, const SymmetricMatrix* S, const Ref& A) {
  op_ = "bilinear"; IL C_; mkList(r, C_, A.nc); int N = r.range(1, 3); Blk x(A.nc, N, std::max(1, A.nc + r.range(0, 2))); fillX(r, x); std::vector<int> sel(A.nc, 0); for (size_t i = 0; i < C_.ix.size(); ++i) sel[C_.ix[i]] = 1; for (int k = 0; k < N; ++k) for (int i = 0; i < A.nc; ++i) if (!sel[i]) x.p[(size_t)k * x.ld + i] = NANV();
  Blk y(N, N, N + r.range(0, 2)); for (size_t q = 0; q < y.sz; ++q) y.p[q] = y.in(q) ? NANV() : SENT; if (S->bilinear(&C_.l, N, x.p, x.ld, y.p, y.ld) != SUCCESSFUL_RETURN) bad("ret", 1, 0); add("bilinear_forms");
  for (size_t q = 0; q < y.sz; ++q) if (!y.in(q)) same(y.p[q], SENT, "gap of y");
  for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) { ld s = 0, mag = 0; for (size_t i = 0; i < C_.ix.size(); ++i) for (size_t j = 0; j < C_.ix.size(); ++j) { ld t = (ld)x.get(C_.ix[i], a) * A.at(C_.ix[i], C_.ix[j]) * x.get(C_.ix[j], b); s += t; mag += fabsl(t); } cmp(y.get(a, b), s, mag); }
}
static void check(Rng& r, Matrix* M, SymmetricMatrix* S, const Ref& A, bool diagInfo) {
  for (int k = 0; k < 3; ++k) { doTimes(r, M, A, false); doTimes(r, M, A, true); doTimesIdx(r, M, A, false); doTimesIdx(r, M, A, true); doRowCol(r, M, A); doSub(r, M, A); }
  doTimesIdx(r, M, A, false); doNorms(r, M, A); doFull(M, A); if (S) for (int k = 0; k < 2; ++k) doBil(r, S, A);
  op_ = "diag"; if (diagInfo || cls_ <= 1) for (int i = 0; i < std::min(A.nr, A.nc); ++i) cmp(M->diag(i), A.at(i, i), 0);
}
static void run(long, Rng& r) {
  Ref A; cls_ = r.range(0, 4); tag(CN[cls_]); bool sym = cls_ == 1 || cls_ == 4; int mx = r.chance(0.1) ? 20 : 7; A.nr = r.range(r.chance(0.1) ? 0 : 1, mx); A.nc = sym ? A.nr : r.range(1, mx); if (sym && A.nr == 0) A.nr = A.nc = 1;
  A.v.assign((size_t)A.nr * A.nc, 0.0); double dens = r.chance(0.3) ? 1.0 : r.uni(0, 1); int kind = r.range(0, 9); // 0: diagonal, 1: identity-like
  for (int i = 0; i < A.nr; ++i) for (int j = 0; j < A.nc; ++j) { double v = r.chance(dens) ? (r.chance(0.2) ? (double)r.range(-2, 2) : r.nrm() * (r.chance(0.1) ? 1e6 : 1)) : 0; if (kind == 0 && i != j) v = 0; if (kind == 1) v = i == j; A.v[(size_t)i * A.nc + j] = v; }
  if (sym) for (int i = 0; i < A.nr; ++i) for (int j = 0; j < i; ++j) A.v[(size_t)i * A.nc + j] = A.v[(size_t)j * A.nc + i];
  // storage
  int ld = A.nc + (r.chance(0.5) ? 0 : r.range(1, 3)); vec D((size_t)std::max(0, (A.nr - 1) * ld + A.nc), NANV()); for (int i = 0; i < A.nr; ++i) for (int j = 0; j < A.nc; ++j) D[(size_t)i * ld + j] = A.at(i, j); real_t* dv = raw(D.size()); for (size_t i = 0; i < D.size(); ++i) dv[i] = D[i];
  std::vector<sparse_int_t> pc, ix; vec val; bool byRow = cls_ == 3, fromDense = r.chance(0.3); double pz = r.chance(0.5) ? 0 : 0.3; bool diagStored = true, structDiag = true; int outer = byRow ? A.nr : A.nc, inner = byRow ? A.nc : A.nr; std::vector<unsigned char> stored((size_t)A.nr * A.nc + 1, 0);
  for (int o = 0; o < outer; ++o) for (int q = 0; q < inner; ++q) { int i = byRow ? o : q, j = byRow ? q : o; if (A.at(i, j) != 0 || r.chance(pz)) stored[(size_t)i * A.nc + j] = 1; }
  if (sym) for (int i = 0; i < A.nr; ++i) for (int j = 0; j < i; ++j) stored[(size_t)i * A.nc + j] = stored[(size_t)j * A.nc + i] = stored[(size_t)i * A.nc + j] | stored[(size_t)j * A.nc + i];
  for (int o = 0; o < outer; ++o) { pc.push_back((sparse_int_t)val.size()); for (int q = 0; q < inner; ++q) { int i = byRow ? o : q, j = byRow ? q : o; if (stored[(size_t)i * A.nc + j]) { ix.push_back(q); val.push_back(A.at(i, j)); if (i != j) structDiag = false; } else if (i == j) diagStored = false; } } pc.push_back((sparse_int_t)val.size());
  sparse_int_t* xp = new sparse_int_t[pc.size()]; sparse_int_t* xi = new sparse_int_t[ix.size()]; real_t* xv = raw(val.size()); for (size_t i = 0; i < pc.size(); ++i) xp[i] = pc[i]; for (size_t i = 0; i < ix.size(); ++i) { xi[i] = ix[i]; xv[i] = val[i]; }
  Matrix* M = 0; SymmetricMatrix* S = 0; bool dinfo = false, owned = false;
  switch (cls_) {
    case 0: M = new DenseMatrix(A.nr, A.nc, ld, dv); break;
    case 1: { SymDenseMat* s = new SymDenseMat(A.nr, A.nc, ld, dv); M = s; S = s; break; }
    case 2: { SparseMatrix* s = fromDense ? new SparseMatrix(A.nr, A.nc, ld, dv) : new SparseMatrix(A.nr, A.nc, xi, xp, xv); M = s; if (r.chance(0.7)) { s->createDiagInfo(); dinfo = true; } break; }
    case 3: { SparseMatrixRow* s = fromDense ? new SparseMatrixRow(A.nr, A.nc, ld, dv) : new SparseMatrixRow(A.nr, A.nc, xp, xi, xv); M = s; if (r.chance(0.7)) { s->createDiagInfo(); dinfo = true; } break; }
    case 4: { SymSparseMat* s = fromDense ? new SymSparseMat(A.nr, A.nc, ld, dv) : new SymSparseMat(A.nr, A.nc, xi, xp, xv); M = s; S = s; s->createDiagInfo(); dinfo = true; break; } }
  if (cls_ >= 2 && fromDense) { owned = true; diagStored = true; structDiag = true; for (int i = 0; i < A.nr; ++i) for (int j = 0; j < A.nc; ++j) if (i != j && A.at(i, j) != 0) structDiag = false; }
  if (cls_ == 0 || cls_ == 1) { structDiag = true; for (int i = 0; i < A.nr; ++i) for (int j = 0; j < A.nc; ++j) if (i != j && A.at(i, j) != 0) structDiag = false; if (r.chance(0.3)) { M->doFreeMemory(); owned = true; } }
  check(r, M, S, A, dinfo);
  op_ = "isDiag"; { bool d = M->isDiag() == BT_TRUE, want = structDiag && A.nr == A.nc; if (d != want) bad("value", d, want); }
  // duplicates: equal now; owned storage is independent of the original's fate and changes
  Matrix* Dp; SymmetricMatrix* Ds = 0; if (S && r.chance(0.5)) { Ds = S->duplicateSym(); Dp = Ds; } else { Dp = M->duplicate(); if (S) Ds = dynamic_cast<SymmetricMatrix*>(Dp); if (S && !Ds) bad("duplicate-class", 0, 1); } add("duplicates");
  bool indep = owned || cls_ >= 2; if (indep && r.chance(0.5)) { delete M; M = 0; if (!(cls_ <= 1)) { for (size_t i = 0; i < val.size(); ++i) xv[i] = NANV(); for (size_t i = 0; i < ix.size(); ++i) xi[i] = 1 << 28; for (size_t i = 0; i < pc.size(); ++i) xp[i] = 1 << 28; } }
  if (cls_ == 2 && Dp && r.chance(0.4)) { op_ = "setVal"; SparseMatrix* sp = dynamic_cast<SparseMatrix*>(Dp); Ref B = A; size_t nn; real_t* nv; // same structure, new values
    std::vector<size_t> pos; for (int j = 0; j < A.nc; ++j) for (int i = 0; i < A.nr; ++i) if (fromDense ? (A.at(i, j) != 0 || i == j) : (stored[(size_t)i * A.nc + j] != 0)) pos.push_back((size_t)i * A.nc + j);
    nn = pos.size(); nv = raw(nn); for (size_t q = 0; q < nn; ++q) { nv[q] = r.nrm(); B.v[pos[q]] = nv[q]; } if (sp) { sp->setVal(nv); doFull(Dp, B, "setVal"); if (M) doFull(M, A, "setVal-original"); for (size_t q = 0; q < nn; ++q) nv[q] = A.v[pos[q]]; sp->setVal(nv); } delete[] nv; }
  check(r, Dp, Ds, A, dinfo);
  // diagonal shift
  Ref B = A; double al = r.chance(0.1) ? 0.0 : r.nrm(); op_ = "addToDiag"; bool canShift = cls_ <= 1 || dinfo; Matrix* T = M && r.chance(0.5) ? M : Dp;
  returnValue rv = T->addToDiag(al); add("diag_shifts");
  if (!canShift) { if (rv == SUCCESSFUL_RETURN) bad("accepted-without-info", rv, 1); doFull(T, A, "addToDiag-rejected"); }
  else if (cls_ <= 1 || diagStored || al == 0) { if (rv != SUCCESSFUL_RETURN) bad("ret", rv, 0); for (int i = 0; i < std::min(A.nr, A.nc); ++i) B.v[(size_t)i * A.nc + i] += al; doFull(T, B, "addToDiag"); Matrix* O = T == M ? Dp : M; if (O && indep) doFull(O, A, "addToDiag-other"); if (r.chance(0.5)) { op_ = "after-shift"; doTimes(r, T, B, false); doNorms(r, T, B); } }
  else { // a stored diagonal entry is missing: reported, and no off-diagonal entry may change
    op_ = "addToDiag-missing"; bool miss = false; for (int i = 0; i < std::min(A.nr, A.nc); ++i) if (!stored[(size_t)i * A.nc + i]) miss = true; if (miss && rv != RET_NO_DIAGONAL_AVAILABLE) bad("ret", rv, RET_NO_DIAGONAL_AVAILABLE); real_t* f = T->full(); for (int i = 0; i < A.nr; ++i) for (int j = 0; j < A.nc; ++j) if (i != j && f[(size_t)i * A.nc + j] != A.at(i, j)) bad("off-diagonal", f[(size_t)i * A.nc + j], A.at(i, j)); delete[] f; }
  // export of column-sparse data to a file
  if ((cls_ == 2 || cls_ == 4) && Dp && r.chance(0.05)) { op_ = "writeToFile"; FILE* f = tmpfile(); if (f) { Dp->writeToFile(f, "pre_"); rewind(f); char line[200]; std::vector<int> jc(A.nc + 1, -1), irr; vec vv; int q, w; double d; while (fgets(line, sizeof line, f)) { if (sscanf(line, "pre_jc[%d] = %d", &q, &w) == 2) { if (q >= 0 && q <= A.nc) jc[q] = w; } else if (sscanf(line, "pre_ir[%d] = %d", &q, &w) == 2) irr.push_back(w); else if (sscanf(line, "pre_val[%d] = %lf", &q, &d) == 2) vv.push_back(d); } fclose(f);
    real_t* g = Dp->full(); Ref C; C.nr = A.nr; C.nc = A.nc; C.v.assign(A.v.size(), 0.0); bool ok = irr.size() == vv.size() && (size_t)jc[A.nc] == vv.size(); if (ok) for (int j = 0; j < A.nc; ++j) for (int k = jc[j]; k < jc[j + 1]; ++k) C.v[(size_t)irr[k] * A.nc + j] = vv[k]; if (!ok) bad("structure", 0, 1); else for (size_t k = 0; k < C.v.size(); ++k) if (!(std::fabs(C.v[k] - g[k]) <= 1e-15 * std::fabs(g[k]))) bad("value", C.v[k], g[k]); delete[] g; add("files"); } }
  uint64_t h = hvec(mix((uint64_t)cls_, (uint64_t)A.nr), A.v); sig(h);
  sample("%s %dx%d ld=%d density=%.2f stored=%zu diagInfo=%d owned=%d", CN[cls_], A.nr, A.nc, ld, dens, val.size(), (int)dinfo, (int)owned);
  bool ddFreed = (cls_ <= 1) && owned; delete M; delete Dp; // owned dense data has been released by its matrix
  if (!ddFreed) delete[] dv; delete[] xp; delete[] xi; delete[] xv;
}
int main(int c, char** v) { return runMain(c, v, run); }
