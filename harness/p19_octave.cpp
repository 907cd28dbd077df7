// The MEX files of the Octave and MATLAB interfaces, called through a stand-in engine: valid calls are compared with C++ twins and
// the KKT oracle column by column, invalid ones must raise an error and leave every handle as it was.
#include "common.hpp"
#include "mexmock.hpp"
using namespace vf;
void call_octave_qp(int, mxArray**, int, const mxArray**); void call_octave_seq(int, mxArray**, int, const mxArray**); void call_matlab_qp(int, mxArray**, int, const mxArray**); void call_matlab_seq(int, mxArray**, int, const mxArray**);
static bool isNan(double v) { return v != v; }
static const char* ON[] = {"maxIter", "maxCpuTime", "printLevel", "enableRamping", "enableFarBounds", "enableFlippingBounds", "enableRegularisation", "enableFullLITests", "enableNZCTests", "enableDriftCorrection", "enableCholeskyRefactorisation", "enableEqualities", "terminationTolerance", "boundTolerance", "boundRelaxation", "epsNum", "epsDen", "maxPrimalJump", "maxDualJump", "initialRamping", "finalRamping", "initialFarBounds", "growFarBounds", "initialStatusBounds", "epsFlipping", "numRegularisationSteps", "epsRegularisation", "numRefinementSteps", "epsIterRef", "epsLITests", "epsNZCTests"};
enum { NOPT = 31 };
static bool oset(Options& o, const char* nm, double v) {
#define X(a, T) if (!strcmp(nm, #a)) { o.a = (T)v; return true; }
  X(printLevel, PrintLevel) X(enableRamping, BooleanType) X(enableFarBounds, BooleanType) X(enableFlippingBounds, BooleanType) X(enableRegularisation, BooleanType) X(enableFullLITests, BooleanType) X(enableNZCTests, BooleanType) X(enableDriftCorrection, int_t) X(enableCholeskyRefactorisation, int_t) X(enableEqualities, BooleanType) X(terminationTolerance, real_t) X(boundTolerance, real_t) X(boundRelaxation, real_t) X(epsNum, real_t) X(epsDen, real_t) X(maxPrimalJump, real_t) X(maxDualJump, real_t) X(initialRamping, real_t) X(finalRamping, real_t) X(initialFarBounds, real_t) X(growFarBounds, real_t) X(initialStatusBounds, SubjectToStatus) X(epsFlipping, real_t) X(numRegularisationSteps, int_t) X(epsRegularisation, real_t) X(numRefinementSteps, int_t) X(epsIterRef, real_t) X(epsLITests, real_t) X(epsNZCTests, real_t)
#undef X
  return false; }
static double oget(const Options& o, const char* nm) {
#define X(a) if (!strcmp(nm, #a)) return (double)o.a;
  X(printLevel) X(enableRamping) X(enableFarBounds) X(enableFlippingBounds) X(enableRegularisation) X(enableFullLITests) X(enableNZCTests) X(enableDriftCorrection) X(enableCholeskyRefactorisation) X(enableEqualities) X(terminationTolerance) X(boundTolerance) X(boundRelaxation) X(epsNum) X(epsDen) X(maxPrimalJump) X(maxDualJump) X(initialRamping) X(finalRamping) X(initialFarBounds) X(growFarBounds) X(initialStatusBounds) X(epsFlipping) X(numRegularisationSteps) X(epsRegularisation) X(numRefinementSteps) X(epsIterRef) X(epsLITests) X(epsNZCTests)
#undef X
  return -1; }
// options of one call
struct Opt { bool given; Options o; long maxIter; double maxCpu; bool plain; mxArray* s; Opt() : given(false), maxIter(-1), maxCpu(-1), plain(true), s(0) {} };
static void genOpt(Rng& r, Opt& q, bool semi) {
  q.o = presetOptions(0); if (r.chance(0.45)) { q.given = false; q.s = 0; return; } q.given = true; int pr = semi ? r.range(0, 1) : r.range(0, 2); q.o = presetOptions(pr); q.s = mxStruct(); q.maxIter = r.chance(0.3) ? r.range(0, 5) : r.chance(0.5) ? -1 : 500; q.maxCpu = r.chance(0.7) ? -1 : 1e3; bool pert = r.chance(0.35); bool skip = r.chance(0.15);
  for (int i = 0; i < NOPT; ++i) { const char* nm = ON[i]; double v; if (i == 0) v = (double)q.maxIter; else if (i == 1) v = q.maxCpu; else { v = oget(q.o, nm); if (i == 2) v = 0; else if (pert && r.chance(0.15)) { q.plain = false; if (!strncmp(nm, "enable", 6) && i != 9 && i != 10) v = r.range(0, 1); else if (!strcmp(nm, "initialStatusBounds")) v = r.range(-1, 1); else if (!strncmp(nm, "num", 3) || i == 9 || i == 10) v = r.range(0, 3); else v *= std::pow(2.0, r.uni(-3, 3)); } }
    if (skip && r.chance(0.1)) { if (i == 0) q.maxIter = -1; else if (i == 1) q.maxCpu = -1; else if (i != 2) oset(q.o, nm, oget(presetOptions(0), nm)); else continue; if (i >= 2) q.plain = false; if (i != 2 && r.chance(0.5)) { mxPut(q.s, nm, r.chance(0.5) ? mxOf(MX_DOUBLE, 2, 2) : mxOf(MX_DOUBLE, 0, 0)); } add("options_missing"); continue; }
    if (i >= 2) oset(q.o, nm, v); mxPut(q.s, nm, mxDense(1, 1, &v)); } q.o.printLevel = PL_NONE; add("option_structs"); }
static void colMajor(const vec& a, int rows, int cols, vec& out) { out.resize((size_t)rows * cols); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) out[(size_t)j * rows + i] = a[(size_t)i * cols + j]; }
static mxArray* mat(Rng& r, const vec& a, int rows, int cols, bool sparse) { vec c; colMajor(a, rows, cols, c); if (!sparse) return mxDense(rows, cols, c.empty() ? 0 : &c[0]); std::vector<char> k(c.size() + 1, 0); if (r.chance(0.2)) for (size_t i = 0; i < c.size(); ++i) k[i] = r.chance(0.2); size_t slack = r.chance(0.3) ? r.range(1, 6) : 0; add("sparse_matrices"); return mxSparse(rows, cols, c.empty() ? 0 : &c[0], &k[0], slack, r.chance(0.3) ? std::nan("") : 0.0); }
static mxArray* empty(Rng& r) { double u = r.u01(); return u < 0.8 ? mxDense(0, 0, 0) : u < 0.9 ? mxDense(0, 1, 0) : mxDense(1, 0, 0); }
// a limit vector column; infinite limits in different notations
static double lim(Rng& r, double v) { if (v >= INFTY) return r.chance(0.5) ? INFINITY : r.chance(0.5) ? 1e20 : 1e30; if (v <= -INFTY) return r.chance(0.5) ? -INFINITY : r.chance(0.5) ? -1e20 : -1e30; return v; }
static mxArray* columns(Rng& r, const std::vector<Prob*>& P, int w, int rows, bool limit) { mxArray* a = mxDense(rows, P.size(), 0); for (size_t k = 0; k < P.size(); ++k) { const Prob& p = *P[k]; const vec& v = w == 0 ? p.g : w == 1 ? p.lb : w == 2 ? p.ub : w == 3 ? p.lbA : p.ubA; for (int i = 0; i < rows; ++i) { double z = limit ? lim(r, v[i]) : v[i]; a->d()[k * rows + i] = z; const_cast<vec&>(v)[i] = z; } } return a; }
static void spoil(Rng& r, mxArray* a, double v) { size_t n = a->sparse ? a->jc[a->N] : a->M * a->N; if (n) a->d()[r.range(0, (int)n - 1)] = v; }
struct Twin { int n, m; bool simple, alive, dense, tainted, hasH; Solver* s; std::vector<double*> mem; std::vector<Matrix*> mats; GenOpt go; bool semi; std::vector<Prob*> probs; double handle; Twin() : n(0), m(0), simple(true), alive(false), dense(true), tainted(false), hasH(false), s(0), semi(false), handle(0) {} ~Twin() { delete s; for (size_t i = 0; i < mats.size(); ++i) delete mats[i]; for (size_t i = 0; i < probs.size(); ++i) delete probs[i]; for (size_t i = 0; i < mem.size(); ++i) delete[] mem[i]; }
  SymmetricMatrix* H(const vec& v) { double* h = new double[n * n]; memcpy(h, &v[0], 8 * n * n); mem.push_back(h); SymDenseMat* q = new SymDenseMat(n, n, n, h); mats.push_back(q); return q; } Matrix* A(const vec& v) { if (!m) return 0; double* h = new double[n * m]; memcpy(h, &v[0], 8 * n * m); mem.push_back(h); DenseMatrix* q = new DenseMatrix(m, n, n, h); mats.push_back(q); return q; } };
static const double* pv(const vec& v, bool omit) { return omit || v.empty() ? 0 : &v[0]; }
enum { X_, FV, EF, IT, LA, AUX };
struct Exp { returnValue rv; long it; double obj; vec x, y, wb, wc; };
static void expect(Exp& e, Solver& s, returnValue rv, int_t nw, int n, int m) { e.rv = rv; e.it = (long)nw; e.obj = s.b->getObjVal(); e.x.assign(n + 1, 0.0); e.y.assign(n + m + 1, 0.0); e.wb.assign(n + 1, 0.0); e.wc.assign(m + 1, 0.0); s.b->getPrimalSolution(&e.x[0]); s.b->getDualSolution(&e.y[0]); s.b->getWorkingSetBounds(&e.wb[0]); if (m) s.b->getWorkingSetConstraints(&e.wc[0]); }
static bool shape(const char* w, const char* nm, const mxArray* a, size_t M, size_t N) { char k[96]; if (a && a->cls == MX_DOUBLE && !a->sparse && a->M == M && a->N == N) return true; snprintf(k, sizeof k, "%s-shape-%s", w, nm); viol(k, "%s is %zux%zu, expected %zux%zu", nm, a ? a->M : 0, a ? a->N : 0, M, N); return false; }
// outputs of a solving call against the expectation, one column per problem
static long outputs(const char* w, const MexResult& r, int off, int nout, const std::vector<Prob*>& P, std::vector<Exp>& E, int n, int m, bool dense, bool must, long limit, double tol, bool judge) {
  char key[96]; size_t K = P.size(); long solved = 0;
#define BAD(s, ...) (snprintf(key, sizeof key, "%s-%s", w, s), viol(key, __VA_ARGS__))
  static const char* NM[] = {"x", "fval", "exitflag", "iter", "lambda"}; for (int k = 0; k < nout && k < 5; ++k) if (!shape(w, NM[k], r.at(off + k), k == X_ ? n : k == LA ? n + m : 1, K)) return 0; const mxArray *wb = 0, *wc = 0, *cp = 0; if (nout > AUX) { const mxArray* a = r.at(off + AUX); if (!a || a->cls != MX_STRUCT) { BAD("auxOutput", "not a struct"); return 0; } wb = mxGetField(a, 0, "workingSetB"); wc = mxGetField(a, 0, "workingSetC"); cp = mxGetField(a, 0, "cpuTime"); if (!shape(w, "workingSetB", wb, n, K) || !shape(w, "workingSetC", wc, m, K) || !shape(w, "cpuTime", cp, 1, K)) return 0; }
  long its = 0; bool cz = K > 1;
  for (size_t k = 0; k < K; ++k) { const Prob& p = *P[k]; Exp& e = E[k]; add("columns"); double ef = nout > EF ? r.at(off + EF)->d()[k] : (double)getSimpleStatus(e.rv); if (nout <= EF && !dense) { add("columns_without_flag"); continue; } const double* x = r.at(off)->d() + k * n; bool same = true;
    if (ef != (double)getSimpleStatus(e.rv)) { same = false; if (dense || must) BAD("exitflag", "column %zu: %g, C++ %d", k, ef, (int)getSimpleStatus(e.rv)); else { add("status_differs_sparse"); if (getenv("VF_SHOW")) fprintf(stderr, "DIFF %s ef=%g C++ %d\n", w, ef, (int)e.rv); } }
    if (dense && same) { if (memcmp(x, &e.x[0], 8 * n)) BAD("x-twin", "column %zu differs from the C++ solution", k); if (nout > FV && memcmp(r.at(off + FV)->d() + k, &e.obj, 8) && !(isNan(e.obj) && isNan(r.at(off + FV)->d()[k]))) BAD("fval-twin", "column %zu: %.17g, C++ %.17g", k, r.at(off + FV)->d()[k], e.obj); if (nout > IT && r.at(off + IT)->d()[k] != (double)e.it) BAD("iter-twin", "column %zu: %g, C++ %ld", k, r.at(off + IT)->d()[k], e.it); if (nout > LA && memcmp(r.at(off + LA)->d() + k * (n + m), &e.y[0], 8 * (n + m))) BAD("lambda-twin", "column %zu differs from the C++ multipliers", k); if (nout > AUX && (memcmp(wb->d() + k * n, &e.wb[0], 8 * n) || (m && memcmp(wc->d() + k * m, &e.wc[0], 8 * m)))) BAD("workingset-twin", "column %zu differs from the C++ working set", k); add("columns_bitwise"); }
    if (nout > IT) { double it = r.at(off + IT)->d()[k]; if (!(it >= 0 && it <= (double)limit)) BAD("iter", "column %zu: %g iterations, limit %ld", k, it, limit); its += (long)it; } if (cp) { if (!(cp->d()[k] >= 0 && (ef < 0 || cp->d()[k] < 1e3))) BAD("cputime", "column %zu: %g", k, cp->d()[k]); if (k && cp->d()[k] > 0) cz = false; }
    if (ef == 0) { ++solved; add("columns_solved"); if (e.it > 0) add("columns_with_switches"); ld ob = 0, mg = 1; for (int i = 0; i < n; ++i) { ld t = 0; for (int j = 0; j < n; ++j) t += (ld)p.H[i * n + j] * x[j]; ob += 0.5L * t * x[i] + (ld)p.g[i] * x[i]; mg += fabsl(t * x[i]) + fabsl((ld)p.g[i] * x[i]); } if (nout > FV) { double f = r.at(off + FV)->d()[k]; if ((judge || !dense) && !(fabsl(ob - f) <= (judge ? 1e-9L : 1e-6L) * mg)) BAD("fval", "column %zu: %.15g, objective of x is %.15Lg", k, f, ob); }
      if (nout > LA) { const double* y = r.at(off + LA)->d() + k * (n + m); Kkt q = kkt(p, x, y); add("kkt_checked"); smax(w, q.worst); if (judge && !(q.worst <= tol)) { BAD("kkt", "column %zu: KKT residual %.2e (stat %.2e feas %.2e sign %.2e compl %.2e)", k, q.worst, q.stat, q.feas, q.sign, q.compl_); dumpProb(p); }
        if (wb) for (int i = 0; i < n + m; ++i) { double ws = i < n ? wb->d()[k * n + i] : wc->d()[k * m + i - n]; if (ws != -1 && ws != 0 && ws != 1) BAD("workingset-code", "entry %d is %g", i, ws); if (ws == 0 && std::fabs(y[i]) > 1e-7 * (1 + q.worst * 1e12)) BAD("workingset-lambda", "column %zu entry %d inactive with multiplier %g", k, i, y[i]); } } }
    else { add(ef == 1 ? "columns_interrupted" : ef == -2 ? "columns_infeasible" : ef == -3 ? "columns_unbounded" : "columns_failed"); if (ef != 1 && ef != -1 && ef != -2 && ef != -3) BAD("exitflag-code", "%g", ef); } }
  if (cp && cz && nout > IT && its >= 4 * (long)K && r.at(off + IT)->d()[K - 1] >= 4) BAD("cputime-columns", "cpu times of all columns but the first are zero");
  return solved;
#undef BAD
}
struct Call { std::vector<mxArray*> in; ~Call() { for (size_t i = 0; i < in.size(); ++i) delete in[i]; } void cut(size_t k) { while (in.size() > k) { delete in.back(); in.pop_back(); } } void rep(size_t i, mxArray* a) { delete in[i]; in[i] = a; } };
static double pick(Rng& r, double a, double b) { return r.chance(0.5) ? a : b; }
static mxArray* wrongClass(Rng& r, size_t m, size_t n) { MxCls c[] = {MX_SINGLE, MX_INT32, MX_INT8, MX_LOGICAL, MX_CHAR, MX_CELL, MX_STRUCT}; return mxOf(c[r.range(0, 6)], m, n); }
// a struct or character array in the place of an argument may legitimately select another calling form
static mxArray* wrongNum(Rng& r, size_t m, size_t n) { MxCls c[] = {MX_SINGLE, MX_INT32, MX_INT8, MX_LOGICAL, MX_CHAR, MX_CELL}; return mxOf(c[r.range(0, 5)], m, n); }
// spoil one argument; base: index of H (-1: hotstart, no H), simple: no constraints. Returns a name or 0 (nothing spoilt)
struct Pos { int H, g, A, lb, ub, lbA, ubA, opt, aux; };
static const char* mutate(Rng& r, Call& c, const Pos& p, int n, int m, size_t K, bool seq) {
  int tgt = r.range(0, 8); int how = r.range(0, 4);
  switch (tgt) {
    case 0: { if (p.H < 0 || mxIsEmpty(c.in[p.H])) return 0; mxArray* H = c.in[p.H]; if (how == 0) { c.rep(p.H, wrongClass(r, n, n)); return "H-class"; } if (how == 1) { c.rep(p.H, mxOf(MX_DOUBLE, n, n + (int)r.range(1, 2))); return "H-size"; } if (how == 2) { if (n == 1) return 0; c.rep(p.H, mxOf(MX_DOUBLE, n - 1, n - 1)); return "H-small"; } if (H->sparse && H->jc[H->N] == 0) return 0; spoil(r, H, how == 3 ? std::nan("") : pick(r, INFINITY, -INFINITY)); return how == 3 ? "H-nan" : "H-inf"; }
    case 1: { if (how == 0) { c.rep(p.g, wrongClass(r, n, K)); return "g-class"; } if (how == 1) { if (p.H >= 0 && mxIsEmpty(c.in[p.H]) && !(p.A >= 0 && !mxIsEmpty(c.in[p.A])) && mxIsEmpty(c.in[p.lb]) && mxIsEmpty(c.in[p.ub])) return 0; c.rep(p.g, mxOf(MX_DOUBLE, n + 1, K)); return "g-size"; } if (how == 2) { c.rep(p.g, mxDense(0, 0, 0)); return "g-empty"; } if (how == 3) { vec t((size_t)n * K, 1.0); if (r.chance(0.5)) { c.rep(p.g, mxSparse(n, K, &t[0], 0, 0, 0)); return "g-sparse"; } spoil(r, c.in[p.g], std::nan("")); return "g-nan"; } spoil(r, c.in[p.g], pick(r, INFINITY, -INFINITY)); return "g-inf"; }
    case 2: { if (p.A < 0 || !m) return 0; mxArray* A = c.in[p.A]; if (how == 0) { c.rep(p.A, wrongClass(r, m, n)); return "A-class"; } if (how == 1) { c.rep(p.A, mxOf(MX_DOUBLE, m, n + 1)); return "A-columns"; } if (how == 2) { if (!seq || r.chance(0.5)) { if (n == 1) return 0; c.rep(p.A, mxOf(MX_DOUBLE, m, n - 1)); return "A-columns-few"; } c.rep(p.A, mxOf(MX_DOUBLE, m, 0)); return "A-no-columns"; } if (A->sparse && A->jc[A->N] == 0) return 0; spoil(r, A, how == 3 ? std::nan("") : pick(r, INFINITY, -INFINITY)); return how == 3 ? "A-nan" : "A-inf"; }
    case 3: case 4: case 5: case 6: { int i = tgt == 3 ? p.lb : tgt == 4 ? p.ub : tgt == 5 ? p.lbA : p.ubA; size_t rows = tgt < 5 ? n : m; if (i < 0 || !rows) return 0; static const char* nm[4][5] = {{"lb-class", "lb-rows", "lb-columns", "lb-nan", "lb-sparse"}, {"ub-class", "ub-rows", "ub-columns", "ub-nan", "ub-sparse"}, {"lbA-class", "lbA-rows", "lbA-columns", "lbA-nan", "lbA-sparse"}, {"ubA-class", "ubA-rows", "ubA-columns", "ubA-nan", "ubA-sparse"}}; const char* w = nm[tgt - 3][how]; if (how == 0) c.rep(i, wrongNum(r, rows, K)); else if (how == 1) c.rep(i, mxOf(MX_DOUBLE, r.chance(0.5) || rows == 1 ? rows + 1 : rows - 1, K)); else if (how == 2) c.rep(i, mxOf(MX_DOUBLE, rows, K + 1)); else if (how == 3) { if (mxIsEmpty(c.in[i])) c.rep(i, mxOf(MX_DOUBLE, rows, K)); spoil(r, c.in[i], std::nan("")); } else { vec t(rows * K, 1.0); c.rep(i, mxSparse(rows, K, &t[0], 0, 0, 0)); } return w; }
    case 7: { if (p.aux < 0) return 0; while ((int)c.in.size() <= p.aux) c.in.push_back(mxDense(0, 0, 0)); if (how == 0) { c.rep(p.aux, wrongNum(r, n, 1)); return "x0-class"; } if (how == 1) { c.rep(p.aux, mxOf(MX_DOUBLE, n + 1, 1)); return "x0-size"; } if (how == 2) { vec t(n, 1.0); c.rep(p.aux, mxSparse(n, 1, &t[0], 0, 0, 0)); return "x0-sparse"; } c.rep(p.aux, mxOf(MX_DOUBLE, n, 1)); spoil(r, c.in[p.aux], how == 3 ? std::nan("") : INFINITY); return how == 3 ? "x0-nan" : "x0-inf"; }
    default: { if (p.aux < 0) return 0; int q = r.range(0, 10); if ((q == 4 || q == 5) && !m) return 0; while ((int)c.in.size() <= p.aux) c.in.push_back(mxDense(0, 0, 0)); mxArray* a = mxStruct(); const char* f[] = {"hessianType", "x0", "guessedWorkingSetB", "guessedWorkingSetC", "R"}; for (int i = 0; i < 5; ++i) mxPut(a, f[i], mxDense(0, 0, 0)); c.rep(p.aux, a); if (q == 0) { mxPut(a, "x0", mxOf(MX_DOUBLE, n + 1, 1)); return "aux-x0-size"; } if (q == 1) { mxArray* v = mxOf(MX_DOUBLE, n, 1); spoil(r, v, pick(r, std::nan(""), INFINITY)); mxPut(a, "x0", v); return "aux-x0-nan"; } if (q == 2) { mxPut(a, "guessedWorkingSetB", mxOf(MX_DOUBLE, n + 1, 1)); return "aux-wsB-size"; } if (q == 3) { mxArray* v = mxOf(MX_DOUBLE, n, 1); spoil(r, v, r.chance(0.3) ? std::nan("") : pick(r, 0.5, 2)); mxPut(a, "guessedWorkingSetB", v); return "aux-wsB-code"; } if (q == 4 && m) { mxPut(a, "guessedWorkingSetC", mxOf(MX_DOUBLE, m + 1, 1)); return "aux-wsC-size"; } if (q == 5 && m) { mxArray* v = mxOf(MX_DOUBLE, m, 1); spoil(r, v, pick(r, -0.5, -2)); mxPut(a, "guessedWorkingSetC", v); return "aux-wsC-code"; } if (q == 6) { mxPut(a, "R", mxOf(MX_DOUBLE, n, n + 1)); return "aux-R-size"; } if (q == 7) { mxPut(a, "hessianType", mxOf(MX_DOUBLE, 2, 1)); return "aux-hessianType-size"; } if (q == 8) { const char* w[] = {"x0", "guessedWorkingSetB"}; mxPut(a, w[r.range(0, 1)], wrongNum(r, n, 1)); return "aux-class"; } if (q == 9) { mxPut(a, "R", wrongNum(r, n, n)); return "aux-R-class"; } if (q == 10) { mxArray* v = mxOf(MX_DOUBLE, n, n); spoil(r, v, std::nan("")); mxPut(a, "R", v); return "aux-R-nan"; } return 0; } } }
// optional auxiliary input of a cold start
struct Aux { mxArray* a; bool hx, hb, hc, hR, ht; vec x, R; std::vector<int> b, c; HessianType type; Aux() : a(0), hx(false), hb(false), hc(false), hR(false), ht(false), type(HST_UNKNOWN) {} };
static bool cholR(const Prob& p, vec& Rm) { int n = p.n; Rm.assign((size_t)n * n + 1, 0.0); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { ld s = p.H[i * n + j]; for (int k = 0; k < i; ++k) s -= (ld)Rm[k * n + i] * Rm[k * n + j]; if (i == j) { if (!(s > 0)) return false; Rm[i * n + i] = (double)sqrtl(s); } else Rm[i * n + j] = (double)(s / Rm[i * n + i]); } return true; }
static void genAux(Rng& r, Aux& u, const Prob& p, int n, int m, bool strict, int hk, const Opt& q) {
  if (r.chance(0.5) && !(hk == HK_IDENT && r.chance(0.7))) { if (r.chance(0.3)) { u.hx = true; u.x.resize(n); for (int i = 0; i < n; ++i) u.x[i] = r.uni(-3, 3); u.a = mxDense(n, 1, &u.x[0]); } return; }
  u.a = mxStruct(); const char* f[] = {"hessianType", "x0", "guessedWorkingSetB", "guessedWorkingSetC", "R"}; bool miss = r.chance(0.1); for (int i = 0; i < 5; ++i) if (!(miss && r.chance(0.4))) mxPut(u.a, f[i], empty(r)); add("aux_structs");
  if (hk == HK_IDENT && r.chance(0.7)) { double v = HST_IDENTITY; mxPut(u.a, "hessianType", mxDense(1, 1, &v)); u.ht = true; u.type = HST_IDENTITY; } else if (hk == HK_ZERO && r.chance(0.5)) { double v = HST_ZERO; mxPut(u.a, "hessianType", mxDense(1, 1, &v)); u.ht = true; u.type = HST_ZERO; } else if (strict && r.chance(0.3)) { double v = HST_POSDEF; mxPut(u.a, "hessianType", mxDense(1, 1, &v)); u.ht = true; u.type = HST_POSDEF; } else if (r.chance(0.1)) { double v = r.chance(0.5) ? -r.range(1, 5) : r.range(6, 20); mxPut(u.a, "hessianType", mxDense(1, 1, &v)); u.ht = true; u.type = HST_UNKNOWN; }
  if (strict && q.o.initialStatusBounds == ST_INACTIVE && hk != HK_IDENT && r.chance(0.4) && cholR(p, u.R)) { vec c; colMajor(u.R, n, n, c); mxPut(u.a, "R", mxDense(n, n, &c[0])); u.hR = true; add("aux_R"); return; }
  if (r.chance(0.5)) { u.hx = true; u.x.resize(n); for (int i = 0; i < n; ++i) u.x[i] = r.uni(-3, 3); mxPut(u.a, "x0", mxDense(n, 1, &u.x[0])); }
  if (r.chance(0.5)) { u.hb = true; u.b.resize(n); mxArray* v = mxDense(n, 1, 0); for (int i = 0; i < n; ++i) { u.b[i] = r.range(-1, 1); if (u.b[i] < 0 && p.lb[i] <= -INFTY) u.b[i] = 0; if (u.b[i] > 0 && p.ub[i] >= INFTY) u.b[i] = 0; v->d()[i] = u.b[i]; } mxPut(u.a, "guessedWorkingSetB", v); add("aux_ws"); }
  if (m && r.chance(0.5)) { u.hc = true; u.c.resize(m); mxArray* v = mxDense(m, 1, 0); for (int i = 0; i < m; ++i) { u.c[i] = r.chance(0.6) ? 0 : r.range(-1, 1); if (u.c[i] < 0 && p.lbA[i] <= -INFTY) u.c[i] = 0; if (u.c[i] > 0 && p.ubA[i] >= INFTY) u.c[i] = 0; v->d()[i] = u.c[i]; } mxPut(u.a, "guessedWorkingSetC", v); } }
static returnValue twinInit(Twin& t, const Prob& p, bool noH, const Aux& u, const bool* om, int_t& nw, const Opt& q) {
  t.s->b->setOptions(q.o); double cpu = q.maxCpu >= 0 ? q.maxCpu : INFTY; Bounds B(t.n); Constraints C(t.m); if (u.hb) for (int i = 0; i < t.n; ++i) B.setupBound(i, u.b[i] < 0 ? ST_LOWER : u.b[i] > 0 ? ST_UPPER : ST_INACTIVE); if (u.hc) for (int i = 0; i < t.m; ++i) C.setupConstraint(i, u.c[i] < 0 ? ST_LOWER : u.c[i] > 0 ? ST_UPPER : ST_INACTIVE);
  SymmetricMatrix* H = noH ? 0 : t.H(p.H); Matrix* A = t.A(p.A); const double *g = &p.g[0], *lb = pv(p.lb, om[0]), *ub = pv(p.ub, om[1]), *lbA = pv(p.lbA, om[2]), *ubA = pv(p.ubA, om[3]); if (t.s->kind == KB) return t.s->b->init(H, g, lb, ub, nw, &cpu, u.hx ? &u.x[0] : 0, 0, u.hb ? &B : 0, u.hR ? &u.R[0] : 0); return t.s->q->init(H, g, A, lb, ub, lbA, ubA, nw, &cpu, u.hx ? &u.x[0] : 0, 0, u.hb ? &B : 0, u.hc ? &C : 0, u.hR ? &u.R[0] : 0); }
static void omits(Rng& r, const std::vector<Prob*>& P, bool* om, int n, int m) { for (int w = 0; w < 4; ++w) { om[w] = r.chance(0.12) && (w < 2 || m); if (!om[w]) continue; for (size_t k = 0; k < P.size(); ++k) { Prob& p = *P[k]; vec& v = w == 0 ? p.lb : w == 1 ? p.ub : w == 2 ? p.lbA : p.ubA; (void)n; for (size_t i = 0; i < v.size(); ++i) v[i] = w % 2 ? INFTY : -INFTY; } add("omitted_limits"); } }
static double tolOf(const Opt& q) { return q.o.terminationTolerance > 1e-8 || q.o.enableDriftCorrection == 0 ? 1e-5 : 1e-6; }
static void run(long idx, Rng& r) {
  bool oct = idx % 3 != 2; MexFn QP = oct ? call_octave_qp : call_matlab_qp, SEQ = oct ? call_octave_seq : call_matlab_seq; const char* lang = oct ? "oct" : "mat"; (void)lang; std::vector<Twin*> T; std::vector<double> dead; int N = r.range(5, 16); double pBad = r.chance(0.4) ? 0 : 0.4; tag(pBad ? "noleak:with-errors" : "valid"); uint64_t h = idx % 3; long nsolved = 0; char key[96]; bool leaky = false;
  for (int q = 0; q < N; ++q) { double u = r.u01(); MexResult R; const char* bad = 0; bool wantBad = r.chance(pBad); Opt op;
    if (u < 0.3) { // qpOASES( H,g,[A],lb,ub,[lbA,ubA],... )
      GenOpt o; o.nmax = 6; o.mmax = 7; if (r.chance(0.35)) o.mmax = o.mmin = 0; int hk = r.range(0, 9); if (hk == 0) o.hk = HK_IDENT; bool semi = hk == 1 || hk == 2; if (hk == 1) o.hk = HK_SEMI; if (hk == 2) o.hk = HK_ZERO; if (semi) o.pInf = 0; Twin t; t.dense = true; Prob* p0 = new Prob(); genFeasible(r, *p0, o); t.probs.push_back(p0); int n = t.n = p0->n, m = t.m = p0->m; int K = r.chance(0.5) ? 1 : r.range(2, 4); for (int k = 1; k < K; ++k) { Prob* p = new Prob(*t.probs.back()); nextVectors(r, *p, o); t.probs.push_back(p); } bool om[4]; for (int k = 0; k < K; ++k) t.probs[k]->omit = 0; if (semi) om[0] = om[1] = om[2] = om[3] = false; else omits(r, t.probs, om, n, m); bool infeas = r.chance(0.08); if (infeas) { Prob& p = *t.probs[r.range(0, K - 1)]; int i = r.range(0, n - 1); if (!om[0] && !om[1]) { p.lb[i] = 3; p.ub[i] = -2; } }
      genOpt(r, op, semi); Aux ax; genAux(r, ax, *p0, n, m, !semi && o.hk != HK_IDENT, o.hk, op); bool noH = (o.hk == HK_ZERO && r.chance(0.6)) || (o.hk == HK_IDENT && ax.type == HST_IDENTITY && r.chance(0.6)); if (o.hk == HK_ZERO && noH && ax.type == HST_POSDEF) noH = false; bool sH = !noH && r.chance(0.3), sA = m && r.chance(0.3); t.dense = !sH && !sA; bool gen = m || r.chance(0.3); t.simple = !gen;
      Call c; Pos ps = {0, 1, -1, 2, 3, -1, -1, 4, 5}; c.in.push_back(noH ? empty(r) : mat(r, p0->H, n, n, sH)); c.in.push_back(columns(r, t.probs, 0, n, false)); if (gen) { c.in.push_back(m ? mat(r, p0->A, m, n, sA) : empty(r)); Pos p2 = {0, 1, 2, 3, 4, m ? 5 : -1, m ? 6 : -1, 7, 8}; ps = p2; } c.in.push_back(om[0] ? empty(r) : columns(r, t.probs, 1, n, true)); c.in.push_back(om[1] ? empty(r) : columns(r, t.probs, 2, n, true)); if (gen) { if (m) { c.in.push_back(om[2] ? empty(r) : columns(r, t.probs, 3, m, true)); c.in.push_back(om[3] ? empty(r) : columns(r, t.probs, 4, m, true)); } else { c.in.push_back(empty(r)); c.in.push_back(empty(r)); } } if (op.given || ax.a || r.chance(0.2)) c.in.push_back(op.given ? op.s : empty(r)); if (ax.a) c.in.push_back(ax.a); int nout = r.range(1, 6);
      if (wantBad) { int w = r.range(0, 9); if (w == 0) { c.cut(r.range(1, 3)); bad = "nrhs-few"; } else if (w == 1) { while (c.in.size() < 10) c.in.push_back(mxDense(0, 0, 0)); bad = "nrhs-many"; } else if (w == 2) { nout = r.chance(0.5) ? 0 : r.range(7, 9); bad = "nlhs"; } else bad = mutate(r, c, ps, n, m, K, false); }
      bool mod = !mexCall(QP, nout, c.in, R); add("qp_calls"); if (mod) viol("qp-input-modified", "an argument was modified"); h = mix(h, probSig(*p0));
      if (bad) { add("bad_calls"); snprintf(key, sizeof key, "accepted-qp-%s", bad); if (!R.err) viol(key, "qpOASES accepted %s (n=%d m=%d K=%d)", bad, n, m, K); leaky = true; snprintf(key, sizeof key, "bad:%s", bad); add(key); continue; }
      if (R.err) { viol("qp-rejected", "valid call rejected: %s (n=%d m=%d K=%d noH=%d sparse %d%d)", R.msg, n, m, K, noH, sH, sA); continue; }
      if (K > 1) add("multi_column_calls"); t.s = new Solver(m ? KQ : KB, n, m, ax.type); long lim = op.maxIter >= 0 ? op.maxIter : 5 * (n + m); std::vector<Exp> E(K); for (int k = 0; k < K; ++k) { int_t nw = (int_t)lim; const Prob& p = *t.probs[k]; double cpu = op.maxCpu >= 0 ? op.maxCpu : INFTY; returnValue rv = k == 0 ? twinInit(t, p, noH, ax, om, nw, op) : t.s->hot(&p.g[0], pv(p.lb, om[0]), pv(p.ub, om[1]), pv(p.lbA, om[2]), pv(p.ubA, om[3]), nw, &cpu); expect(E[k], *t.s, rv, nw, n, m); }
      if (getenv("VF_SHOW")) { fprintf(stderr, "nin=%zu", c.in.size()); for (size_t z = 0; z < c.in.size(); ++z) { fprintf(stderr, " %d:%zux%zu", (int)c.in[z]->cls, c.in[z]->M, c.in[z]->N); for (size_t w = 0; w < c.in[z]->fn.size(); ++w) fprintf(stderr, " .%s(%zux%zu)", c.in[z]->fn[w], c.in[z]->fv[w] ? c.in[z]->fv[w]->M : 99, c.in[z]->fv[w] ? c.in[z]->fv[w]->N : 99); } fprintf(stderr, "qp oct=%d n=%d m=%d K=%d hk=%d noH=%d gen=%d dense=%d ht=%d type=%d x=%d b=%d c=%d R=%d given=%d plain=%d om=%d%d%d%d\n", oct, n, m, K, (int)o.hk, noH, gen, t.dense, ax.ht, (int)ax.type, ax.hx, ax.hb, ax.hc, ax.hR, op.given, op.plain, om[0], om[1], om[2], om[3]); dumpProb(*p0); op.o.print(); } bool must = !semi && lim > 20 && op.plain && !infeas; nsolved += outputs(t.dense ? "qp" : "qp-sparse", R, 0, nout, t.probs, E, n, m, t.dense, must, lim, semi ? 1e-5 : tolOf(op), op.plain && !t.tainted); sample("qp n=%d m=%d K=%d sparse=%d%d nout=%d", n, m, K, sH, sA, nout); }
    else if (u < 0.5 || T.empty()) { // qpOASES_sequence( 'i',... )
      Twin* t = new Twin(); GenOpt o; o.nmax = 6; o.mmax = 7; if (r.chance(0.35)) o.mmax = o.mmin = 0; int hk = r.range(0, 9); if (hk == 0) o.hk = HK_IDENT; t->semi = hk == 1 || hk == 2; if (hk == 1) o.hk = HK_SEMI; if (hk == 2) o.hk = HK_ZERO; if (t->semi) o.pInf = 0; t->go = o; Prob* p = new Prob(); genFeasible(r, *p, o); p->omit = 0; t->probs.push_back(p); int n = t->n = p->n, m = t->m = p->m; bool om[4]; if (t->semi) om[0] = om[1] = om[2] = om[3] = false; else omits(r, t->probs, om, n, m); genOpt(r, op, t->semi); Aux ax; genAux(r, ax, *p, n, m, !t->semi && o.hk != HK_IDENT, o.hk, op); bool noH = (o.hk == HK_ZERO && r.chance(0.6)) || (o.hk == HK_IDENT && ax.type == HST_IDENTITY && r.chance(0.6)); if (noH && ax.type == HST_POSDEF) noH = false; bool sH = !noH && r.chance(0.3), sA = m && r.chance(0.3); t->dense = !sH && !sA; bool gen = m || r.chance(0.4); t->simple = !gen;
      Call c; Pos ps = {1, 2, -1, 3, 4, -1, -1, 5, 6}; c.in.push_back(mxStr(r.chance(0.7) ? "i" : "I")); c.in.push_back(noH ? empty(r) : mat(r, p->H, n, n, sH)); c.in.push_back(columns(r, t->probs, 0, n, false)); if (gen) { c.in.push_back(m ? mat(r, p->A, m, n, sA) : empty(r)); Pos p2 = {1, 2, 3, 4, 5, m ? 6 : -1, m ? 7 : -1, 8, 9}; ps = p2; if (!m) { delete c.in[3]; c.in[3] = r.chance(0.5) ? mxDense(0, 0, 0) : mxDense(0, n, 0); } } c.in.push_back(om[0] ? empty(r) : columns(r, t->probs, 1, n, true)); c.in.push_back(om[1] ? empty(r) : columns(r, t->probs, 2, n, true)); if (gen) { if (m) { c.in.push_back(om[2] ? empty(r) : columns(r, t->probs, 3, m, true)); c.in.push_back(om[3] ? empty(r) : columns(r, t->probs, 4, m, true)); } else { c.in.push_back(empty(r)); c.in.push_back(empty(r)); } } if (op.given || ax.a || r.chance(0.2)) c.in.push_back(op.given ? op.s : empty(r)); if (ax.a) c.in.push_back(ax.a); int nout = r.range(2, 7);
      if (wantBad) { int w = r.range(0, 11); if (w == 0) { c.cut(r.range(1, 4)); bad = "nrhs-few"; } else if (w == 1) { while (c.in.size() < 11) c.in.push_back(mxDense(0, 0, 0)); bad = "nrhs-many"; } else if (w == 2) { nout = r.chance(0.5) ? 0 : r.range(8, 9); bad = "nlhs"; } else if (w == 3) { c.rep(0, r.chance(0.3) ? mxOf(MX_DOUBLE, 1, 1) : r.chance(0.3) ? mxOf(MX_CELL, 1, 1) : mxStr(r.chance(0.5) ? "x" : r.chance(0.5) ? "" : "?")); bad = "mode"; } else bad = mutate(r, c, ps, n, m, 1, true); }
      bool mod = !mexCall(SEQ, nout, c.in, R); add("init_calls"); if (mod) viol("init-input-modified", "an argument was modified"); h = mix(h, probSig(*p));
      if (bad) { add("bad_calls"); snprintf(key, sizeof key, "accepted-init-%s", bad); if (!R.err) viol(key, "'i' accepted %s (n=%d m=%d)", bad, n, m); leaky = true; delete t; snprintf(key, sizeof key, "bad:%s", bad); add(key); continue; }
      if (R.err) { viol("init-rejected", "valid call rejected: %s (n=%d m=%d noH=%d sparse %d%d)", R.msg, n, m, noH, sH, sA); delete t; continue; } if (!shape("init", "handle", R.at(0), 1, 1)) { delete t; continue; } t->handle = R.at(0)->d()[0]; for (size_t k = 0; k < T.size(); ++k) if (T[k]->handle == t->handle) viol("handle-reused", "handle %g is already in use", t->handle); for (size_t k = 0; k < dead.size(); ++k) if (dead[k] == t->handle) { dead.erase(dead.begin() + k); break; } T.push_back(t); t->alive = true;
      t->tainted = !op.plain; t->hasH = !noH; t->s = new Solver(t->simple ? KB : KS, n, m, ax.type); long lim = op.maxIter >= 0 ? op.maxIter : 5 * (n + m); std::vector<Exp> E(1); int_t nw = (int_t)lim; returnValue rv = twinInit(*t, *p, noH, ax, om, nw, op); expect(E[0], *t->s, rv, nw, n, m); nsolved += outputs(t->dense ? "init" : "init-sparse", R, 1, nout - 1, t->probs, E, n, m, t->dense, !t->semi && lim > 20 && op.plain, lim, t->semi ? 1e-5 : tolOf(op), op.plain && !t->tainted); }
    else { Twin& t = *T[r.range(0, (int)T.size() - 1)]; int n = t.n, m = t.m; std::vector<Prob*> one(1); Prob* p = new Prob(*t.probs.back()); t.probs.push_back(p); nextVectors(r, *p, t.go); p->omit = 0; one[0] = p; bool om[4]; if (t.semi) om[0] = om[1] = om[2] = om[3] = false; else omits(r, one, om, n, m); if (!t.semi && r.chance(0.05) && !om[0] && !om[1]) { int i = r.range(0, n - 1); p->lb[i] = 3; p->ub[i] = -2; } genOpt(r, op, t.semi); Call c; double hd = t.handle; int mode = u < 0.75 ? 'h' : u < 0.85 ? 'm' : u < 0.93 ? 'e' : 'c'; if (mode != 'c' && mode != 'h' && t.simple && !wantBad) mode = 'h';
      char ms[2] = {(char)(r.chance(0.7) ? mode : mode - 32), 0}; c.in.push_back(mxStr(ms)); c.in.push_back(mxDense(1, 1, &hd)); int nout = r.range(1, mode == 'e' ? 4 : 6); bool opAfter = false; (void)opAfter;
      // handle errors common to all modes
      auto badHandle = [&](const char*& b) { int w = r.range(0, 5); double v; if (w == 0) { v = 1e6 + r.range(0, 1000); c.rep(1, mxDense(1, 1, &v)); b = "handle-unknown"; } else if (w == 1 && !dead.empty()) { v = dead[r.range(0, (int)dead.size() - 1)]; c.rep(1, mxDense(1, 1, &v)); b = "handle-stale"; } else if (w == 2) { c.rep(1, mxOf(MX_DOUBLE, 2, 1)); b = "handle-vector"; } else if (w == 3) { c.rep(1, r.chance(0.5) ? mxStr("1") : mxOf(MX_CELL, 1, 1)); b = "handle-class"; } else if (w == 4) { v = r.chance(0.3) ? std::nan("") : r.chance(0.5) ? -r.range(1, 100) : r.chance(0.5) ? INFINITY : -1e30; c.rep(1, mxDense(1, 1, &v)); b = "handle-value"; } else { c.rep(1, mxDense(0, 0, 0)); b = "handle-empty"; } };
      if (mode == 'c') { delete op.s; op.s = 0; if (wantBad) { int w = r.range(0, 2); if (w == 0) { nout = 1; bad = "nlhs"; } else if (w == 1) { while (c.in.size() < 5) c.in.push_back(mxDense(0, 0, 0)); nout = 0; bad = "nrhs"; } else { nout = 0; badHandle(bad); } } else nout = 0; mexCall(SEQ, nout, c.in, R); add("cleanup_calls"); if (bad) { add("bad_calls"); leaky = true; if (!R.err && strcmp(bad, "handle-unknown") && strcmp(bad, "handle-stale") && strcmp(bad, "handle-value")) { snprintf(key, sizeof key, "accepted-cleanup-%s", bad); viol(key, "'c' accepted %s", bad); } continue; } if (R.err) { viol("cleanup-rejected", "%s", R.msg); continue; } dead.push_back(t.handle); for (size_t k = 0; k < T.size(); ++k) if (T[k] == &t) { T.erase(T.begin() + k); break; } delete &t; continue; }
      if (mode == 'h') { Pos ps = {-1, 2, -1, 3, 4, t.simple || !m ? -1 : 5, t.simple || !m ? -1 : 6, t.simple ? 5 : 7, -1}; c.in.push_back(columns(r, one, 0, n, false)); c.in.push_back(om[0] ? empty(r) : columns(r, one, 1, n, true)); c.in.push_back(om[1] ? empty(r) : columns(r, one, 2, n, true)); if (!t.simple) { c.in.push_back(om[2] || !m ? empty(r) : columns(r, one, 3, m, true)); c.in.push_back(om[3] || !m ? empty(r) : columns(r, one, 4, m, true)); } if (op.given) c.in.push_back(op.s); else if (r.chance(0.2)) c.in.push_back(empty(r));
        if (wantBad) { int w = r.range(0, 9); if (w == 0) { c.cut(r.range(2, 4)); bad = "nrhs-few"; } else if (w == 1) { while (c.in.size() < 9) c.in.push_back(mxDense(0, 0, 0)); bad = "nrhs-many"; } else if (w == 2) { nout = r.chance(0.5) ? 0 : r.range(7, 8); bad = "nlhs"; } else if (w < 5) badHandle(bad); else if (w == 5) { if (t.simple) { while (c.in.size() < 7) c.in.push_back(mxDense(0, 0, 0)); bad = "kind"; } else { c.cut(5); bad = "kind"; } } else bad = mutate(r, c, ps, n, m, 1, true); }
        bool mod = !mexCall(SEQ, nout, c.in, R); add("hot_calls"); if (mod) viol("hot-input-modified", "an argument was modified"); if (bad) { t.probs.pop_back(); delete p; add("bad_calls"); leaky = true; snprintf(key, sizeof key, "accepted-hot-%s", bad); if (!R.err) viol(key, "'h' accepted %s (n=%d m=%d)", bad, n, m); snprintf(key, sizeof key, "bad:%s", bad); add(key); continue; } if (R.err) { viol("hot-rejected", "valid call rejected: %s", R.msg); continue; }
        h = mix(h, probSig(*p)); long lim = op.maxIter >= 0 ? op.maxIter : 5 * (n + m); int_t nw = (int_t)lim; double cpu = op.maxCpu >= 0 ? op.maxCpu : INFTY; t.tainted = t.tainted || !op.plain; t.s->b->setOptions(op.o); returnValue rv = t.s->hot(&p->g[0], pv(p->lb, om[0]), pv(p->ub, om[1]), pv(p->lbA, om[2]), pv(p->ubA, om[3]), nw, &cpu); std::vector<Exp> E(1); expect(E[0], *t.s, rv, nw, n, m); nsolved += outputs(t.dense ? "hot" : "hot-sparse", R, 0, nout, one, E, n, m, t.dense, false, lim, t.semi ? 1e-5 : tolOf(op), op.plain && !t.tainted); }
      else if (mode == 'm') { Prob f(*p); bool chH = !t.semi && t.go.hk != HK_IDENT && r.chance(0.7), chA = m && r.chance(0.6); if (chH) { genH(r, f, t.go); p->H = f.H; } if (chA) { genA(r, f, t.go); p->A = f.A; } bool noH = (t.go.hk == HK_ZERO) && r.chance(0.4); bool sH = !noH && r.chance(0.3), sA = m && r.chance(0.3); Pos ps = {2, 3, 4, 5, 6, m ? 7 : -1, m ? 8 : -1, 9, -1}; c.in.push_back(noH ? empty(r) : mat(r, p->H, n, n, sH)); c.in.push_back(columns(r, one, 0, n, false)); c.in.push_back(m ? mat(r, p->A, m, n, sA) : mxDense(0, r.chance(0.5) ? n : 0, 0)); c.in.push_back(om[0] ? empty(r) : columns(r, one, 1, n, true)); c.in.push_back(om[1] ? empty(r) : columns(r, one, 2, n, true)); c.in.push_back(om[2] || !m ? empty(r) : columns(r, one, 3, m, true)); c.in.push_back(om[3] || !m ? empty(r) : columns(r, one, 4, m, true)); if (op.given) c.in.push_back(op.s);
        if (wantBad) { int w = r.range(0, 9); if (t.simple) bad = "kind"; else if (w == 0) { c.cut(r.range(3, 8)); bad = "nrhs-few"; } else if (w == 1) { while (c.in.size() < 11) c.in.push_back(mxDense(0, 0, 0)); bad = "nrhs-many"; } else if (w == 2) { nout = r.chance(0.5) ? 0 : r.range(7, 8); bad = "nlhs"; } else if (w < 5) badHandle(bad); else if (w == 5) { c.rep(4, mxOf(MX_DOUBLE, m + 1, n)); bad = "A-rows"; } else bad = mutate(r, c, ps, n, m, 1, true); }
        bool mod = !mexCall(SEQ, nout, c.in, R); add("modify_calls"); if (mod) viol("modify-input-modified", "an argument was modified"); if (bad) { t.probs.pop_back(); delete p; add("bad_calls"); leaky = true; snprintf(key, sizeof key, "accepted-modify-%s", bad); if (!R.err) viol(key, "'m' accepted %s (n=%d m=%d)", bad, n, m); snprintf(key, sizeof key, "bad:%s", bad); add(key); continue; }
        long lim = op.maxIter >= 0 ? op.maxIter : 5 * (n + m); int_t nw = (int_t)lim; double cpu = op.maxCpu >= 0 ? op.maxCpu : INFTY; t.tainted = t.tainted || !op.plain; t.s->b->setOptions(op.o); SymmetricMatrix* Ht = noH ? 0 : t.H(p->H); Matrix* At = t.A(p->A); returnValue rv = t.s->s->hotstart(Ht, &p->g[0], At, pv(p->lb, om[0]), pv(p->ub, om[1]), pv(p->lbA, om[2]), pv(p->ubA, om[3]), nw, &cpu); t.dense = t.dense && !sH && !sA; if (sH || sA) t.dense = false; std::vector<Exp> E(1); expect(E[0], *t.s, rv, nw, n, m); int st = (int)getSimpleStatus(rv);
        bool keep = noH && t.hasH; t.hasH = t.hasH || !noH; if (R.err) { leaky = true; add("modify_errors"); if (!keep) t.s->s->reset(); if (st != -1) { if (t.dense) { snprintf(key, sizeof key, "modify-rejected-%d", st); viol(key, "valid call rejected: %s (C++ returned %d)", R.msg, (int)rv); } else add("modify_errors_sparse"); } t.probs.pop_back(); delete p; continue; } h = mix(h, probSig(*p)); nsolved += outputs(t.dense ? "modify" : "modify-sparse", R, 0, nout, one, E, n, m, t.dense, false, lim, t.semi ? 1e-5 : tolOf(op), op.plain && !t.tainted); }
      else { int K = r.range(1, 4); std::vector<Prob*> P; for (int k = 0; k < K; ++k) { Prob* z = new Prob(*p); if (k) nextVectors(r, *z, t.go); z->omit = 0; P.push_back(z); } omits(r, P, om, 0, 0); om[0] = om[1] = om[2] = om[3] = false; Pos ps = {-1, 2, -1, 3, 4, m ? 5 : -1, m ? 6 : -1, 7, -1}; c.in.push_back(columns(r, P, 0, n, false)); c.in.push_back(columns(r, P, 1, n, true)); c.in.push_back(columns(r, P, 2, n, true)); c.in.push_back(m ? columns(r, P, 3, m, true) : empty(r)); c.in.push_back(m ? columns(r, P, 4, m, true) : empty(r)); op.given = op.given && op.plain; if (op.given) c.in.push_back(op.s); else { delete op.s; op.s = 0; }
        if (wantBad) { int w = r.range(0, 9); if (t.simple) bad = "kind"; else if (w == 0) { c.cut(r.range(2, 6)); bad = "nrhs-few"; } else if (w == 1) { while (c.in.size() < 9) c.in.push_back(mxDense(0, 0, 0)); bad = "nrhs-many"; } else if (w == 2) { nout = r.chance(0.5) ? 0 : r.range(5, 6); bad = "nlhs"; } else if (w < 5) badHandle(bad); else { bad = mutate(r, c, ps, n, m, K, true); } }
        mexCall(SEQ, nout, c.in, R); add("eqp_calls"); Solver* ts = t.s; if (bad) { add("bad_calls"); leaky = true; snprintf(key, sizeof key, "accepted-eqp-%s", bad); if (!R.err) viol(key, "'e' accepted %s (n=%d m=%d)", bad, n, m); snprintf(key, sizeof key, "bad:%s", bad); add(key); }
        else { vec G, L, U, LA_, UA; for (int k = 0; k < K; ++k) { for (int i = 0; i < n; ++i) { G.push_back(P[k]->g[i]); L.push_back(c.in[3]->d()[k * n + i]); U.push_back(c.in[4]->d()[k * n + i]); } for (int i = 0; i < m; ++i) { LA_.push_back(c.in[5]->d()[k * m + i]); UA.push_back(c.in[6]->d()[k * m + i]); } } vec xo((size_t)n * K + 1, 0.0), yo((size_t)(n + m) * K + 1, 0.0); if (op.given) ts->b->setOptions(op.o); returnValue rv = ts->q->solveCurrentEQP(K, &G[0], &L[0], &U[0], m ? &LA_[0] : 0, m ? &UA[0] : 0, &xo[0], &yo[0]); if (R.err) { leaky = true; add("eqp_errors"); if (rv == SUCCESSFUL_RETURN && t.dense) viol("eqp-rejected", "valid call rejected: %s", R.msg); } else { add("eqp_solved"); if (rv != SUCCESSFUL_RETURN && t.dense) viol("eqp-status", "success, C++ returned %d", (int)rv); vec wb(n + 1), wc(m + 1); ts->b->getWorkingSetBounds(&wb[0]); if (m) ts->q->getWorkingSetConstraints(&wc[0]); if (shape("eqp", "x", R.at(0), n, K) && (nout < 2 || shape("eqp", "lambda", R.at(1), n + m, K)) && (nout < 3 || shape("eqp", "workingSetB", R.at(2), n, K)) && (nout < 4 || shape("eqp", "workingSetC", R.at(3), m, K)) && rv == SUCCESSFUL_RETURN && t.dense) { add("eqp_bitwise"); if (memcmp(R.at(0)->d(), &xo[0], 8 * n * K)) viol("eqp-x", "solution differs from C++ (K=%d)", K); if (nout >= 2 && memcmp(R.at(1)->d(), &yo[0], 8 * (n + m) * K)) viol("eqp-lambda", "multipliers differ from C++ (K=%d)", K); for (int k = 0; k < K; ++k) { if (nout >= 3 && memcmp(R.at(2)->d() + k * n, &wb[0], 8 * n)) { viol("eqp-workingset", "column %d of workingSetB differs", k); break; } if (nout >= 4 && m && memcmp(R.at(3)->d() + k * m, &wc[0], 8 * m)) { viol("eqp-workingset", "column %d of workingSetC differs", k); break; } } } } }
        for (int k = 0; k < K; ++k) delete P[k]; t.probs.pop_back(); delete p; } } }
  (void)leaky; while (!T.empty()) { Call c; double v = T.back()->handle; c.in.push_back(mxStr("c")); c.in.push_back(mxDense(1, 1, &v)); MexResult R; mexCall(SEQ, 0, c.in, R); if (R.err) viol("cleanup-rejected", "%s", R.msg); delete T.back(); T.pop_back(); }
  if (nsolved) sig(h); }
int main(int c, char** v) { return runMain(c, v, run); }
