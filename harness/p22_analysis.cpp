// KKT violation and variance-covariance analysis against long-double definitions.
#include "common.hpp"
#include <list>
using namespace vf;
struct V3 { double stat, feas, cmpl, sgn; double mag; };
// definition of the three figures; lo/up == 0 means no limits, ws == 0: complementarity follows the sign of the multiplier
static V3 direct(int n, int m, const double* H, const double* g, const double* A, const double* lb, const double* ub, const double* lbA, const double* ubA, const double* x, const double* y, const double* wB, const double* wC, bool ident) {
  ld st = 0, fe = 0, co = 0, mag = 1;
  for (int i = 0; i < n; ++i) { ld s = g ? g[i] : 0; ld mm = fabsl(s) + std::fabs(y[i]); s -= y[i]; if (H) for (int j = 0; j < n; ++j) { s += (ld)H[i * n + j] * x[j]; mm += fabsl((ld)H[i * n + j] * x[j]); } else if (ident) { s += x[i]; mm += std::fabs(x[i]); } if (A) for (int c = 0; c < m; ++c) { s -= (ld)A[c * n + i] * y[n + c]; mm += fabsl((ld)A[c * n + i] * y[n + c]); } st = std::max(st, fabsl(s)); mag = std::max(mag, mm); }
  for (int i = 0; i < n + m; ++i) { ld v = 0, mm = 0; const double *lo, *up, *w; int k; if (i < n) { v = x[i]; mm = fabsl(v); lo = lb; up = ub; w = wB; k = i; } else { k = i - n; if (A) for (int j = 0; j < n; ++j) { v += (ld)A[k * n + j] * x[j]; mm += fabsl((ld)A[k * n + j] * x[j]); } lo = lbA; up = ubA; w = wC; } mag = std::max(mag, mm);
    if (lo) fe = std::max(fe, (ld)lo[k] - v); if (up) fe = std::max(fe, v - (ld)up[k]);
    bool useLo = w ? w[k] == -1 : y[i] > 0, useUp = w ? w[k] == 1 : y[i] < 0; ld p = 0; if (lo && useLo) p = (v - lo[k]) * y[i]; if (up && useUp) p = (v - up[k]) * y[i]; co = std::max(co, fabsl(p)); if (lo && useLo && std::fabs(lo[k]) < 1e15) mag = std::max(mag, (mm + std::fabs(lo[k])) * (1 + std::fabs(y[i]))); if (up && useUp && std::fabs(up[k]) < 1e15) mag = std::max(mag, (mm + std::fabs(up[k])) * (1 + std::fabs(y[i]))); }
  V3 r; r.stat = (double)st; r.feas = (double)fe; r.cmpl = (double)co; r.mag = (double)mag; r.sgn = 0; return r;
}
static bool close1(double a, double b, double tol) { return std::fabs(a - b) <= tol * (1 + 1e-2 * std::fabs(b)) + 1e-11 * std::fabs(b); }
static void freeFn(Rng& r) {
  tag("free"); GenOpt o; o.nmax = 8; o.mmax = 8; Prob p; genFeasible(r, p, o); int n = p.n, m = p.m; vec x(n), y(n + m); bool known = r.chance(0.4); Prob k; if (known) { genKnown(r, k, o); p = k; n = p.n; m = p.m; x = p.xs; y = p.ys; if ((int)y.size() < n + m) y.resize(n + m, 0); } else { for (int i = 0; i < n; ++i) x[i] = r.chance(0.1) ? 0.0 : 3 * r.nrm(); y.resize(n + m); for (int i = 0; i < n + m; ++i) y[i] = r.chance(0.4) ? 0.0 : 2 * r.nrm(); }
  bool ident = p.ht == HST_IDENTITY; const double *H = p.ht == HST_IDENTITY || r.chance(0.05) ? 0 : &p.H[0], *g = r.chance(0.05) ? 0 : &p.g[0], *lb = r.chance(0.1) ? 0 : &p.lb[0], *ub = r.chance(0.1) ? 0 : &p.ub[0], *A = m ? &p.A[0] : 0, *lbA = m && !r.chance(0.1) ? &p.lbA[0] : 0, *ubA = m && !r.chance(0.1) ? &p.ubA[0] : 0;
  vec wb(n), wc(m + 1); for (int i = 0; i < n; ++i) wb[i] = r.range(-1, 1); for (int i = 0; i < m; ++i) wc[i] = r.range(-1, 1); bool ws = r.chance(0.4); if (ws && known) { for (int i = 0; i < n + m; ++i) { double s = y[i] > 0 ? -1 : (y[i] < 0 ? 1 : 0); if (i < n) wb[i] = s; else wc[i - n] = s; } }
  real_t st = -1, fe = -1, co = -1; V3 d; returnValue rv; bool box = m == 0 || r.chance(0.2);
  if (box) { rv = getKktViolation(n, H, g, lb, ub, &x[0], &y[0], st, fe, co, ws ? &wb[0] : 0, ident ? BT_TRUE : BT_FALSE); d = direct(n, 0, H, g, 0, lb, ub, 0, 0, &x[0], &y[0], ws ? &wb[0] : 0, 0, ident); }
  else { rv = getKktViolation(n, m, H, g, A, lb, ub, lbA, ubA, &x[0], &y[0], st, fe, co, ws ? &wb[0] : 0, ws ? &wc[0] : 0, ident ? BT_TRUE : BT_FALSE); d = direct(n, m, H, g, A, lb, ub, lbA, ubA, &x[0], &y[0], ws ? &wb[0] : 0, ws ? &wc[0] : 0, ident); }
  add("violations_compared"); double t = 1e-12 * d.mag; if (rv != SUCCESSFUL_RETURN) viol("free-ret", "ret %d", (int)rv);
  if (!close1(st, d.stat, t)) viol("free-stat", "reported %.17g direct %.17g", st, d.stat); if (!close1(fe, d.feas, t)) viol("free-feas", "reported %.17g direct %.17g", fe, d.feas); if (!close1(co, d.cmpl, t)) viol("free-cmpl", "reported %.17g direct %.17g n=%d m=%d ws=%d", co, d.cmpl, n, m, ws);
  if (known && H == (ident ? 0 : &p.H[0]) && g && !box && lb && ub && (m == 0 || (lbA && ubA))) { add("optimal_pairs"); if (st > 1e-12 * d.mag || fe > 1e-12 * d.mag || co > 1e-12 * d.mag) viol("free-optimal", "optimal pair scored %.2e %.2e %.2e", st, fe, co);
    // every kind of violation must show
    vec x2 = x, y2 = y; int kind = r.range(0, 3), i = r.range(0, n + m - 1); double e = std::pow(10.0, -r.uni(0, 5)); real_t s2, f2, c2; const char* nm = ""; double got = 0, want = 0;
    if (kind == 0) { y2[i] += e; nm = "stationarity"; double a = 1; if (i >= n) { a = 0; for (int j = 0; j < n; ++j) a = std::max(a, std::fabs(p.A[(i - n) * n + j])); } want = a * e; }
    else if (kind == 1) { vec G = p.g; G[i % n] += e; getKktViolation(n, m, H, &G[0], A, lb, ub, lbA, ubA, &x[0], &y[0], s2, f2, c2, 0, 0, ident ? BT_TRUE : BT_FALSE); if (std::fabs(s2 - e) > 1e-9 * d.mag) viol("free-react-gradient", "gradient off by %.3e, stationarity %.3e", e, s2); add("reactions"); return; }
    else if (kind == 2) { vec L = p.lb, U = p.ub, LA = p.lbA, UA = p.ubA; double v = i < n ? x[i] : (double)rowDot(p, i - n, x); if (r.chance(0.5)) { (i < n ? L[i] : LA[i - n]) = v + e; } else (i < n ? U[i] : UA[i - n]) = v - e; getKktViolation(n, m, H, g, A, &L[0], &U[0], P(LA), P(UA), &x[0], &y[0], s2, f2, c2, 0, 0, ident ? BT_TRUE : BT_FALSE); if (std::fabs(f2 - e) > 1e-9 * d.mag) viol("free-react-feasibility", "limit %d violated by %.3e, reported %.3e", i, e, f2); add("reactions"); return; }
    else { // multiplier without an active limit: positive with a slack lower limit, negative with a slack upper limit
      double v = i < n ? x[i] : (double)rowDot(p, i - n, x); double lo = i < n ? p.lb[i] : p.lbA[i - n], up = i < n ? p.ub[i] : p.ubA[i - n]; bool pos = r.chance(0.5); double slack = pos ? v - lo : up - v; y2 = y; y2[i] = pos ? e : -e; getKktViolation(n, m, H, g, A, lb, ub, lbA, ubA, &x[0], &y2[0], s2, f2, c2, 0, 0, ident ? BT_TRUE : BT_FALSE); if (slack > 1e-6 && !(c2 >= 0.99 * slack * e)) viol("free-react-complementarity", "slack %.3e multiplier %.3e reported %.3e", slack, e, c2); add("reactions"); return; }
    getKktViolation(n, m, H, g, A, lb, ub, lbA, ubA, &x[0], &y2[0], s2, f2, c2, 0, 0, ident ? BT_TRUE : BT_FALSE); got = s2; if (std::fabs(got - want) > 1e-9 * d.mag) viol("free-react", "%s: reported %.3e want %.3e", nm, got, want); add("reactions"); }
  if (n + m > 1) sig(probSig(p));
}
static bool solveDense(int n, std::vector<ld> M, std::vector<ld>& B, int k) { // Gaussian elimination with pivoting, k right-hand sides
  for (int c = 0; c < n; ++c) { int p = c; for (int i = c + 1; i < n; ++i) if (fabsl(M[i * n + c]) > fabsl(M[p * n + c])) p = i; if (fabsl(M[p * n + c]) < 1e-7L) return false; if (p != c) { for (int j = 0; j < n; ++j) std::swap(M[p * n + j], M[c * n + j]); for (int j = 0; j < k; ++j) std::swap(B[p * k + j], B[c * k + j]); }
    for (int i = 0; i < n; ++i) if (i != c) { ld f = M[i * n + c] / M[c * n + c]; if (f == 0) continue; for (int j = c; j < n; ++j) M[i * n + j] -= f * M[c * n + j]; for (int j = 0; j < k; ++j) B[i * k + j] -= f * B[c * k + j]; } }
  for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) B[i * k + j] /= M[i * n + i]; return true; }
struct St { vec x, y, w; double o; int s; };
static void snap(Solver& s, St& a) { a.x.assign(s.n, 0); a.y.assign(s.n + s.m, 0); a.w.assign(s.n + s.m, 0); s.b->getPrimalSolution(&a.x[0]); s.b->getDualSolution(&a.y[0]); s.b->getWorkingSet(&a.w[0]); a.o = s.b->getObjVal(); a.s = s.b->getStatus(); }
static void analyse(Rng& r, const Prob& p, Solver& s, SolutionAnalysis& an, const char* where, bool covar, bool defHess) {
  int n = p.n, m = s.m; vec x, y; s.sol(x, y); vec w(n + m + 1); s.b->getWorkingSet(&w[0]); V3 d = direct(n, m, &p.H[0], &p.g[0], m ? &p.A[0] : 0, &p.lb[0], &p.ub[0], P(p.lbA), P(p.ubA), &x[0], &y[0], &w[0], &w[n], false); Kkt kk = kkt(p, &x[0], &y[0]);
  real_t a = -1, b = -1, c = -1, v; bool ptr = r.chance(0.7); St s0, s1; snap(s, s0);
  v = s.kind == KB ? an.getKktViolation(s.b, ptr ? &a : 0, ptr ? &b : 0, ptr ? &c : 0) : (s.kind == KQ ? an.getKktViolation(s.q, ptr ? &a : 0, ptr ? &b : 0, ptr ? &c : 0) : an.getKktViolation(s.s, ptr ? &a : 0, ptr ? &b : 0, ptr ? &c : 0)); add("analyses");
  double t = 1e-8 * d.mag + 10 * kk.worst * d.mag; if (ptr) { if (v != std::max(a, std::max(b, c))) viol("max", "%s: maximum %.3e of %.3e %.3e %.3e", where, v, a, b, c); if (!close1(a, d.stat, t)) viol("stat", "%s: reported %.3e direct %.3e", where, a, d.stat); if (!close1(b, d.feas, t)) viol("feas", "%s: reported %.3e direct %.3e", where, b, d.feas); if (!close1(c, d.cmpl, t)) viol("cmpl", "%s: reported %.3e direct %.3e", where, c, d.cmpl); }
  if (!close1(v, std::max(d.stat, std::max(d.feas, d.cmpl)), t)) viol("total", "%s: reported %.3e direct %.3e", where, v, std::max(d.stat, std::max(d.feas, d.cmpl)));
  snap(s, s1); if (memcmp(&s0.x[0], &s1.x[0], n * 8) || memcmp(&s0.y[0], &s1.y[0], (n + m) * 8) || s0.w != s1.w || s0.s != s1.s || s0.o != s1.o) viol("analysis-changes-object", "%s", where);
  if (!covar || s.kind == KB) return;
  // sensitivities at the working set: K [dx; -dyA] = [-dg ...]
  std::vector<int> act; for (int i = 0; i < n + m; ++i) if (w[i] != 0) act.push_back(i); int na = (int)act.size(), N = n + na, dim = 2 * n + m; if (N > 40) return;
  std::vector<ld> M((size_t)N * N, 0), B((size_t)N * dim, 0); ld off = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) M[i * N + j] = p.H[i * n + j]; for (int q = 0; q < na; ++q) for (int j = 0; j < n; ++j) { ld e = act[q] < n ? (act[q] == j ? 1 : 0) : p.A[(act[q] - n) * n + j]; M[j * N + n + q] = -e; M[(n + q) * N + j] = e; }
  for (int i = 0; i < n; ++i) B[i * dim + i] = -1; for (int q = 0; q < na; ++q) B[(n + q) * dim + n + act[q]] = 1; if (!solveDense(N, M, B, dim)) { add("covariance_singular"); return; }
  std::vector<ld> S((size_t)dim * dim, 0); for (int j = 0; j < dim; ++j) { for (int i = 0; i < n; ++i) S[i * dim + j] = B[i * dim + j]; for (int q = 0; q < na; ++q) S[(n + act[q]) * dim + j] = B[(n + q) * dim + j]; } (void)off;
  vec C((size_t)dim * dim), Pv((size_t)dim * dim + 1, 5.5); bool sym = r.chance(0.7); vec L((size_t)dim * dim); for (size_t i = 0; i < L.size(); ++i) L[i] = r.chance(0.5) ? 0.0 : r.nrm(); for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) { if (sym) { double q = 0; for (int l = 0; l < dim; ++l) q += L[i * dim + l] * L[j * dim + l]; C[i * dim + j] = q / dim; } else C[i * dim + j] = L[i * dim + j]; }
  vec C0 = C; returnValue rv = s.kind == KQ ? an.getVarianceCovariance(s.q, &C[0], &Pv[0]) : an.getVarianceCovariance(s.s, &C[0], &Pv[0]); if (rv != SUCCESSFUL_RETURN) { if (defHess) viol("cov-failed", "%s: ret %d", where, (int)rv); return; }
  if (Pv[dim * dim] != 5.5 || C != C0) viol("cov-memory", "wrote outside the output"); std::vector<ld> T((size_t)dim * dim, 0), W((size_t)dim * dim, 0); ld mg = 0; for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) { ld q = 0; for (int l = 0; l < dim; ++l) q += (ld)C[i * dim + l] * S[j * dim + l]; T[i * dim + j] = q; }
  for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) { ld q = 0, a1 = 0; for (int l = 0; l < dim; ++l) { q += S[i * dim + l] * T[l * dim + j]; a1 += fabsl(S[i * dim + l] * T[l * dim + j]); } W[i * dim + j] = q; mg = std::max(mg, a1); }
  ld worst = 0; for (int i = 0; i < dim * dim; ++i) worst = std::max(worst, fabsl(W[i] - Pv[i])); smax("covariance", (double)(worst / (1 + mg))); if (!(worst <= 1e-6L * (1 + mg))) { viol("covariance", "%s: differs by %.3e (magnitude %.3e) n=%d m=%d active %d", where, (double)worst, (double)mg, n, m, na); dumpProb(p); } add("covariances"); if (sym) { for (int i = 0; i < dim; ++i) for (int j = 0; j < i; ++j) if (fabsl((ld)Pv[i * dim + j] - Pv[j * dim + i]) > 1e-6L * (1 + mg)) { viol("cov-symmetry", "%s", where); i = dim; break; } }
  snap(s, s1); if (memcmp(&s0.x[0], &s1.x[0], n * 8) || memcmp(&s0.y[0], &s1.y[0], (n + m) * 8) || s0.w != s1.w || s0.s != s1.s || s0.o != s1.o) viol("covariance-changes-object", "%s", where);
}
static void objects(long idx, Rng& r) {
  tag("objects"); GenOpt o; o.nmax = 7; o.mmax = 8; int cls = (int)(idx % 6); if (cls == 1) { o.nmax = 12; o.mmax = 12; } if (cls == 2) { o.integer = true; o.pWeak = 0.2; } if (cls == 3) o.hk = HK_SEMI; if (cls == 4) o.hk = r.chance(0.5) ? HK_ZERO : HK_IDENT; if (cls == 5) o.mmax = 0;
  std::list<Prob> keep; keep.push_back(Prob()); Prob* p = &keep.back(); if (cls < 3 && r.chance(0.4)) genKnown(r, *p, o); else genFeasible(r, *p, o); bool box = cls == 3 || cls == 4; if (box) for (int i = 0; i < p->n; ++i) { if (isInfLo(p->lb[i])) p->lb[i] = std::min(isInfUp(p->ub[i]) ? 0.0 : p->ub[i], 0.0) - r.uni(3, 6); if (isInfUp(p->ub[i])) p->ub[i] = p->lb[i] + r.uni(4, 9); if (p->lb[i] > p->ub[i]) p->ub[i] = p->lb[i] + 1; }
  int n = p->n, m = p->m; Kind kd = m == 0 && r.chance(0.6) ? KB : (r.chance(0.6) ? KQ : KS); int pre = r.range(0, 6); if (box && looseOpts(pre)) pre = r.chance(0.5) ? 0 : 1; bool bigEps = false; Solver s(kd, n, m, p->ht); { Options op = presetOptions(pre); if (box && r.chance(0.5)) { op.enableRegularisation = BT_TRUE; op.epsRegularisation = std::pow(10.0, r.uni(-7.0, -3.0)); op.numRegularisationSteps = r.chance(0.5) ? 100 : r.range(0, 3); bigEps = true; add("regularised_objects"); } s.b->setOptions(op); } SolutionAnalysis an0; SolutionAnalysis an(an0); if (r.chance(0.3)) an = an0;
  if (r.chance(0.2)) { real_t v = kd == KB ? an.getKktViolation(s.b) : (kd == KQ ? an.getKktViolation(s.q) : an.getKktViolation(s.s)); add("uninitialised"); if (v < INFTY) viol("uninitialised", "violation %.3e reported before any initialisation", v); if (kd != KB) { int dim = 2 * n + m; vec C((size_t)dim * dim, 0.5), W((size_t)dim * dim, 7.5); returnValue q = kd == KQ ? an.getVarianceCovariance(s.q, &C[0], &W[0]) : an.getVarianceCovariance(s.s, &C[0], &W[0]); if (q == SUCCESSFUL_RETURN) viol("cov-uninitialised", "success before any initialisation"); if (an.getKktViolation((QProblem*)0) < INFTY || an.getKktViolation((QProblemB*)0) < INFTY) viol("kkt-null", "no QP at all"); } }
  int_t nw = bigWSR(*p); returnValue rv = s.init(*p, nw); char wh[80]; snprintf(wh, sizeof wh, "%s preset %d class %d cold", kindName(kd), pre, cls); bool cov = !bigEps; if (rv == SUCCESSFUL_RETURN) analyse(r, *p, s, an, wh, cov, cls < 3 || cls == 5); else if (cls < 2) viol("unsolved", "%s ret %d", wh, (int)rv);
  int steps = r.range(0, 4); for (int k = 0; k < steps && rv == SUCCESSFUL_RETURN; ++k) { keep.push_back(*p); p = &keep.back(); p->omit = 0; nextVectors(r, *p, o); if (box) break; nw = bigWSR(*p); if (kd == KS && r.chance(0.3)) { if (p->ht == HST_UNKNOWN || p->ht == HST_POSDEF) { Prob f = *p; GenOpt oo = o; oo.hk = HK_DENSE; genH(r, f, oo); p->H = f.H; } rv = s.hotM(*p, nw); } else rv = s.hot(*p, nw); snprintf(wh, sizeof wh, "%s preset %d class %d hot %d", kindName(kd), pre, cls, k); if (rv == SUCCESSFUL_RETURN) analyse(r, *p, s, an, wh, cov, cls < 3 || cls == 5); }
  sig(probSig(keep.front())); sample("analysis: %s n=%d m=%d", wh, n, m);
}
static void run(long idx, Rng& r) { if (idx % 3 == 0) freeFn(r); else objects(idx / 3 * 2 + idx % 3, r); }
int main(int c, char** v) { varyOptions(); return runMain(c, v, run); }
