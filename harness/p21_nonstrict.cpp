// LPs, semidefinite and indefinite QPs: solved to (local) optimality.
#include "common.hpp"
#include <list>
using namespace vf;
static const char* CL[] = {"lp-vertex", "lp-boxed", "semidef-known", "semidef-boxed", "lp-face", "lp-integer", "semidef-matrices", "indef-boxed", "indef-known", "indef-diag"};
static const char* DN[] = {"zero-null", "zero-array", "unknown", "semidef", "posdef"};
// basis of the null space of the active rows
static void nullBasis(int n, const std::vector<vec>& rows, std::vector<std::vector<ld> >& Z) {
  std::vector<std::vector<ld> > b; for (size_t k = 0; k < rows.size() + (size_t)n; ++k) { std::vector<ld> v(n, 0.0L); bool unit = k >= rows.size(); if (unit) v[k - rows.size()] = 1; else for (int i = 0; i < n; ++i) v[i] = rows[k][i]; ld n0 = 0; for (int i = 0; i < n; ++i) n0 += v[i] * v[i]; n0 = sqrtl(n0); if (n0 == 0) continue;
    for (int it = 0; it < 2; ++it) for (size_t q = 0; q < b.size(); ++q) { ld d = 0; for (int i = 0; i < n; ++i) d += v[i] * b[q][i]; for (int i = 0; i < n; ++i) v[i] -= d * b[q][i]; } ld r = 0; for (int i = 0; i < n; ++i) r += v[i] * v[i]; r = sqrtl(r); if (r < 1e-9L * n0) continue; for (int i = 0; i < n; ++i) v[i] /= r; b.push_back(v); if (unit) Z.push_back(v); } }
static ld minEig(std::vector<std::vector<ld> > M) { int n = (int)M.size(); if (!n) return 0; for (int sweep = 0; sweep < 60; ++sweep) { ld off = 0; for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) off += M[p][q] * M[p][q]; if (off < 1e-30L) break; for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) { if (M[p][q] == 0) continue; ld th = (M[q][q] - M[p][p]) / (2 * M[p][q]), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(1 + th * th)), c = 1 / sqrtl(1 + t * t), s = t * c; for (int k = 0; k < n; ++k) { ld a = M[k][p], b = M[k][q]; M[k][p] = c * a - s * b; M[k][q] = s * a + c * b; } for (int k = 0; k < n; ++k) { ld a = M[p][k], b = M[q][k]; M[p][k] = c * a - s * b; M[q][k] = s * a + c * b; } } } ld m = M[0][0]; for (int i = 1; i < n; ++i) m = std::min(m, M[i][i]); return m; }
static ld curvature(const Prob& p, Solver& s, int* dim) { int n = p.n, m = p.m; vec w(n + m + 1, 0.0); s.b->getWorkingSet(&w[0]); std::vector<vec> rows; for (int i = 0; i < n + m; ++i) if (w[i] != 0) { vec v(n, 0.0); if (i < n) v[i] = 1; else for (int j = 0; j < n; ++j) v[j] = p.A[(i - n) * n + j]; rows.push_back(v); } std::vector<std::vector<ld> > Z; nullBasis(n, rows, Z); int k = (int)Z.size(); *dim = k; std::vector<std::vector<ld> > M(k, std::vector<ld>(k, 0.0L)); for (int a = 0; a < k; ++a) for (int b = 0; b < k; ++b) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) M[a][b] += Z[a][i] * (ld)p.H[i * n + j] * Z[b][j]; return minEig(M); }
// vectors with a constructed unique optimum: active rows and curvature directions of H together have full rank
static bool known(Rng& r, Prob& p, const GenOpt& o, const std::vector<vec>& hrows, bool face) {
  int n = p.n, m = p.m; p.omit = 0; p.xs.assign(n, 0); for (int i = 0; i < n; ++i) p.xs[i] = r.uni(-2, 2); p.ys.assign(n + m, 0.0); p.g.assign(n, 0.0); p.lb.resize(n); p.ub.resize(n); p.lbA.resize(m); p.ubA.resize(m);
  RankSet rs(n); std::vector<int> ord, act(n + m, 0); for (int i = 0; i < n + m; ++i) ord.push_back(i); r.shuffle(ord); RankSet cover(n); for (size_t k = 0; k < hrows.size(); ++k) cover.tryAdd(&hrows[k][0]); double pextra = r.uni(0, 0.6);
  for (size_t k = 0; k < ord.size(); ++k) { int i = ord[k]; vec row(n, 0.0); if (i < n) row[i] = 1; else for (int j = 0; j < n; ++j) row[j] = p.A[(i - n) * n + j]; bool helps = (int)cover.b.size() < n; if (!helps && !r.chance(pextra)) continue; if ((int)rs.b.size() >= n || !rs.tryAdd(&row[0])) continue; if (helps) cover.tryAdd(&row[0]); act[i] = r.chance(o.pEq) ? 3 : (r.chance(0.5) ? 1 : 2); }
  if ((int)cover.b.size() < n) return false;
  for (int i = 0; i < n + m; ++i) { double v = i < n ? p.xs[i] : (double)rowDot(p, i - n, p.xs); double lo, up; fillBound(r, o, v, lo, up); double mag = r.uni(0.2, 3); if (face && r.chance(0.3)) mag = 0; if (act[i] == 1) { lo = v; p.ys[i] = mag; } else if (act[i] == 2) { up = v; p.ys[i] = -mag; } else if (act[i] == 3) { lo = up = v; p.ys[i] = mag * r.sgn(); } if (face) { if (isInfLo(lo)) lo = std::min(v, isInfUp(up) ? v : up) - r.uni(2, 5); if (isInfUp(up)) up = std::max(v, lo) + r.uni(2, 5); } if (i < n) { p.lb[i] = lo; p.ub[i] = up; } else { p.lbA[i - n] = lo; p.ubA[i - n] = up; } }
  for (int i = 0; i < n; ++i) { ld s = p.ys[i]; for (int j = 0; j < n; ++j) s -= (ld)p.H[i * n + j] * p.xs[j]; for (int c = 0; c < m; ++c) s += (ld)p.A[c * n + i] * p.ys[n + c]; p.g[i] = (double)s; }
  p.haveOpt = true; return true;
}
static void box(Rng& r, Prob& p) { for (int i = 0; i < p.n; ++i) { if (isInfLo(p.lb[i])) p.lb[i] = std::min(0.0, isInfUp(p.ub[i]) ? 0.0 : p.ub[i]) - r.uni(2, 6); if (isInfUp(p.ub[i])) p.ub[i] = std::max(0.0, p.lb[i]) + r.uni(2, 6); } }
static void semiH(Rng& r, Prob& p, std::vector<vec>& rows) { int n = p.n; rows.clear(); int k = r.range(n > 1 ? 1 : 0, n - 1); p.H.assign((size_t)n * n, 0.0); RankSet rs(n); for (int l = 0; l < k; ++l) { vec v(n); for (int t = 0; t < 20; ++t) { for (int i = 0; i < n; ++i) v[i] = r.chance(0.7) ? r.nrm() : 0; if (rs.tryAdd(&v[0], 0.3L)) { rows.push_back(v); break; } } } for (size_t l = 0; l < rows.size(); ++l) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) p.H[i * n + j] += rows[l][i] * rows[l][j]; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) p.H[i * n + j] = p.H[j * n + i]; }
static void indefH(Rng& r, Prob& p, bool diag) { int n = p.n; p.H.assign((size_t)n * n, 0.0); if (diag) { for (int i = 0; i < n; ++i) p.H[i * n + i] = r.sgn() * r.uni(0.3, 4); p.H[r.range(0, n - 1) * (n + 1)] = -r.uni(0.3, 4); } else { for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) p.H[i * n + j] = p.H[j * n + i] = r.nrm() / std::sqrt((double)n); if (r.chance(0.3)) for (int i = 0; i < n; ++i) p.H[i * n + i] += 0.5; } }
#ifndef VF_SCHUR
// Regularisation of any admissible size: a hundred successive regularisation steps move by at most D/100 in the last one, so the result is stationary for the user's QP up to regVal*D/100, also in sequences; the objective is the user's.
struct RegProbeB : QProblemB { static double reg(const QProblemB* b) { return b->*(real_t QProblemB::*)&RegProbeB::regVal; } };
static void proximal(long idx, Rng& r) {
  tag("proximal"); GenOpt o; o.nmax = 6; o.mmax = 6; Prob p; p.n = r.range(1, o.nmax); p.m = r.range(0, o.mmax); int n = p.n, m = p.m; genA(r, p, o); p.H.assign((size_t)n * n, 0.0); p.mu = 0; std::vector<vec> hr; bool semi = r.chance(0.5); if (semi) semiH(r, p, hr); genVectors(r, p, o); box(r, p);
  bool zero = true; for (size_t i = 0; i < p.H.size(); ++i) if (p.H[i] != 0) zero = false; HessianType ht = zero ? (r.chance(0.5) ? HST_ZERO : HST_UNKNOWN) : (r.chance(0.7) ? HST_SEMIDEF : HST_UNKNOWN); Kind kd = m == 0 && r.chance(0.6) ? KB : (r.chance(0.7) ? KQ : KS);
  int preset = r.range(0, 6); Options op = presetOptions(preset); op.enableRegularisation = BT_TRUE; op.numRegularisationSteps = 100; op.epsRegularisation = std::pow(10.0, r.uni(-7.0, -3.0)); Solver s(kd, n, m, ht); s.b->setOptions(op); debugPrint(s); int_t nw = 300 * bigWSR(p); bool nullH = zero && r.chance(0.5) && (ht == HST_ZERO || ht == HST_UNKNOWN);
  returnValue rv = s.init(nullH ? 0 : &p.H[0], &p.g[0], p.Ap(), &p.lb[0], &p.ub[0], p.lbAp(), p.ubAp(), nw); int steps = r.range(1, 6); char ex[120];
  for (int k = 0;; ++k) { snprintf(ex, sizeof ex, "step %d preset %d eps %.1e %s n=%d m=%d %s", k, preset, op.epsRegularisation, kindName(kd), n, m, zero ? "lp" : "semidef"); if (rv != SUCCESSFUL_RETURN) { add("proximal_unsolved"); break; } add("proximal_solved");
    double reg = RegProbeB::reg(s.b), D = 0; for (int i = 0; i < n; ++i) D = std::max(D, p.ub[i] - p.lb[i]); if (reg > 0) add("proximal_regularised"); vec x, y; s.sol(x, y); ld ob = objective(p, &x[0]), mag = 1 + fabsl(ob); for (int i = 0; i < n; ++i) mag += std::fabs(p.g[i] * x[i]); 
    if (!(fabsl(ob - s.b->getObjVal()) <= 1e-9L * mag)) { viol("proximal-objective", "%.12g instead of %.12Lg %s", s.b->getObjVal(), ob, ex); dumpProb(p); break; }
    Kkt q = kkt(p, &x[0], &y[0]); double tol = 1e-6 + (q.stat > 1e-6 ? 0.01 * reg * D : 0.0); if (reg > 0) smax("proximal-residual", q.worst); if (!(q.worst <= tol)) { viol("proximal-kkt", "residual %.2e (stat %.1e feas %.1e) although regularisation steps converged within %.2e: %s", q.worst, q.stat, q.feas, tol, ex); dumpProb(p); break; }
    if (k == steps) break; { Prob o2 = p; nextVectors(r, p, o); p.lb = o2.lb; p.ub = o2.ub; p.omit = 0; if (m) { p.lbA = o2.lbA; p.ubA = o2.ubA; } for (int i = 0; i < n; ++i) { double d = r.uni(-0.5, 0.5); p.lb[i] += d; p.ub[i] += d + r.uni(0, 1); } } nw = 300 * bigWSR(p); rv = s.hot(&p.g[0], &p.lb[0], &p.ub[0], p.lbAp(), p.ubAp(), nw); if (rv != SUCCESSFUL_RETURN && s.b->isInfeasible() == BT_TRUE) { add("proximal_infeasible"); break; } }
  sig(probSig(p)); sample("proximal: %s", ex);
}
#endif
// Whatever happens on a singular problem whose limits come and go (it may be unbounded): a reported success must be an optimum.
// A step along an almost singular direction without far bounds may lose all digits on the way back: the share of wrong successes is limited.
static void honest(long idx, Rng& r) {
  tag("honest"); GenOpt o; o.nmax = 6; o.mmax = 5; o.pInf = r.uni(0.1, 0.7); Prob p; p.n = r.range(1, o.nmax); p.m = r.chance(0.4) ? 0 : r.range(0, o.mmax); int n = p.n, m = p.m; genA(r, p, o); p.H.assign((size_t)n * n, 0.0); p.mu = 0; std::vector<vec> hr; bool lp = r.chance(0.4); if (!lp) semiH(r, p, hr); genVectors(r, p, o);
  bool zero = true; for (size_t i = 0; i < p.H.size(); ++i) if (p.H[i] != 0) zero = false; HessianType ht = zero ? (r.chance(0.5) ? HST_ZERO : HST_UNKNOWN) : (r.chance(0.5) ? HST_SEMIDEF : (r.chance(0.7) ? HST_UNKNOWN : HST_POSDEF)); Kind kd = m == 0 && r.chance(0.8) ? KB : (r.chance(0.7) ? KQ : KS); int preset = r.range(0, 6); Options op = presetOptions(preset); bool loose = looseOpts(preset); if (r.chance(0.8)) op.enableFarBounds = BT_FALSE; if (r.chance(0.3)) op.enableFlippingBounds = r.chance(0.5) ? BT_TRUE : BT_FALSE; if (r.chance(0.2)) op.enableNZCTests = BT_FALSE;
  Solver s(kd, n, m, ht); s.b->setOptions(op); debugPrint(s); char ex[160]; int steps = r.range(2, 9); returnValue rv = SUCCESSFUL_RETURN; bool fresh = true;
  for (int k = 0; k <= steps; ++k) {
    if (k) { nextVectors(r, p, o); p.omit = 0; if (r.chance(0.6)) { int i = r.range(0, n + m - 1); double& lo = i < n ? p.lb[i] : p.lbA[i - n]; double& up = i < n ? p.ub[i] : p.ubA[i - n]; if (r.chance(0.6)) lo = -INFTY; if (r.chance(0.6)) up = INFTY; } }
    int_t nw = bigWSR(p); bool cold = fresh || r.chance(0.1); if (cold) { if (k) { s.b->reset(); s.b->setHessianType(ht); s.b->setOptions(op); } rv = s.init(&p.H[0], &p.g[0], p.Ap(), &p.lb[0], &p.ub[0], p.lbAp(), p.ubAp(), nw); } else rv = s.hot(&p.g[0], &p.lb[0], &p.ub[0], p.lbAp(), p.ubAp(), nw); fresh = rv != SUCCESSFUL_RETURN; add("honest_calls");
    snprintf(ex, sizeof ex, "step %d %s preset %d far %d flip %d reg %d %s n=%d m=%d ht=%d", k, cold ? "cold" : "hot", preset, (int)op.enableFarBounds, (int)op.enableFlippingBounds, (int)op.enableRegularisation, kindName(kd), n, m, (int)ht);
    if (rv != SUCCESSFUL_RETURN) { add(s.b->isUnbounded() == BT_TRUE ? "honest_unbounded" : (s.b->isInfeasible() == BT_TRUE ? "honest_infeasible" : "honest_refused")); continue; }
    vec x, y; s.sol(x, y); double mag = 0; for (int i = 0; i < n; ++i) mag = std::max(mag, std::fabs(x[i])); add("honest_solved"); if (!cold) add("honest_hot"); Kkt q = kkt(p, &x[0], &y[0]); double tol = loose || op.enableRegularisation ? 1e-2 : 1e-5; if (mag > 1e4) { add("honest_far"); tol *= mag; fresh = true; } smax(loose ? "honest_kkt_loose" : "honest_kkt", q.worst); if (!(q.worst <= tol)) { add(kd == KB ? "honest_wrong_bounds" : "honest_wrong_constraints"); if (R().verbose) printf("WRONG %ld stat=%.1e feas=%.1e sign=%.1e compl=%.1e |x|=%.1e %s\n", idx, q.stat, q.feas, q.sign, q.compl_, mag, ex); dumpProb(p); break; }
  }
  sig(probSig(p)); sample("honest: %s", ex);
}
static void run(long idx, Rng& r) {
#ifndef VF_SCHUR
  if (idx % 13 == 7) { honest(idx, r); return; }
  if (idx % 13 == 5) { proximal(idx, r); return; }
#endif
  int cls = (int)(idx % 10);
#ifdef VF_SCHUR
  cls = 7 + (int)(idx % 3);
#endif
  bool indef = cls >= 7, lp = cls == 0 || cls == 1 || cls == 4 || cls == 5; bool uniq = cls == 0 || cls == 2 || cls == 6; tag(CL[cls]); GenOpt o; o.nmax = 8; o.mmax = 10; if (cls == 5) o.integer = true; if (r.chance(0.2)) { o.nmax = 15; o.mmax = 20; } if (r.chance(0.2)) o.mmax = 0;
  std::list<Prob> keep; keep.push_back(Prob()); Prob* p = &keep.back(); std::vector<vec> hrows; p->n = r.range(1, o.nmax); p->m = r.range(0, o.mmax); int n = p->n, m = p->m; genA(r, *p, o); p->H.assign((size_t)n * n, 0.0); p->mu = 0; if (cls == 2 || cls == 3 || cls == 6) semiH(r, *p, hrows); if (indef) indefH(r, *p, cls == 9);
  if (uniq) { if (!known(r, *p, o, hrows, false)) return; } else if (cls == 4 || cls == 8) { if (!known(r, *p, o, hrows, true)) { genVectors(r, *p, o); } box(r, *p); } else { genVectors(r, *p, o); box(r, *p); if (r.chance(0.05)) p->g.assign(n, 0.0); }
  bool zeroH = true; for (size_t i = 0; i < p->H.size(); ++i) if (p->H[i] != 0) zeroH = false; int decl = indef ? 2 : (zeroH ? r.range(0, 3) : r.range(2, 3)); HessianType ht = indef ? (r.chance(0.8) ? HST_INDEF : HST_UNKNOWN) : (decl == 0 ? (r.chance(0.3) ? HST_UNKNOWN : HST_ZERO) : decl == 1 ? HST_ZERO : (decl == 2 ? HST_UNKNOWN : (decl == 3 ? HST_SEMIDEF : HST_POSDEF)));
  int preset = indef ? (r.chance(0.7) ? r.range(0, 1) : r.range(0, 6)) : r.range(0, 6); 
#ifdef VF_SCHUR
  if (looseOpts(preset)) preset = r.range(0, 1); // a Schur complement based on a factorisation that is only regularised is numerically singular
#endif
  bool loose = looseOpts(preset); Kind kd = cls == 6 ? KS : (m == 0 && r.chance(0.6) ? KB : (r.chance(0.7) ? KQ : KS)); double tol = loose ? 1e-3 : 1e-6; bool must = uniq, far = preset <= 1, open_ = uniq && !far; // without far bounds and with infinite limits the homotopy may run through unbounded members
  char ex[160], key[96]; bool gone = false;
  Solver s(kd, n, m, ht); Options op = presetOptions(preset); s.b->setOptions(op); debugPrint(s); int_t nw = bigWSR(*p); const double* H0 = decl == 0 && !indef ? 0 : &p->H[0]; returnValue rv = s.init(H0, &p->g[0], p->Ap(), &p->lb[0], &p->ub[0], p->lbAp(), p->ubAp(), nw); bool mats = false; int steps = indef ? 4 : r.range(2, R().thorough ? 20 : 7), changes = (int)nw; uint64_t h = probSig(*p);
  for (int k = 0;; ++k) {
    snprintf(ex, sizeof ex, "%s step %d declared %s preset %d %s n=%d m=%d", CL[cls], k, indef ? (ht == HST_INDEF ? "indef" : "unknown") : DN[decl], preset, kindName(kd), n, m); info("rv %d nw %d %s", (int)rv, (int)nw, ex);
    if (rv != SUCCESSFUL_RETURN) { add(indef ? "indef_unsolved" : (mats ? "matrix_unsolved" : open_ ? "open_failures" : "unsolved")); snprintf(key, sizeof key, "uns_%s_p%d_%s_%d_%d", CL[cls], preset, indef?"i":DN[decl],k>0, (int)rv); if (getenv("VF_UNS")) add(key); 
      if (!indef && open_) add("open_unsolved"); else if (!indef) { if (s.b->isInfeasible() == BT_TRUE) { if (!loose) viol("feasible-declared-infeasible", "ret %d %s", (int)rv, ex); else add("loose_verdict"); dumpProb(*p); } if (s.b->isUnbounded() == BT_TRUE) { if (!loose) viol("bounded-declared-unbounded", "ret %d %s", (int)rv, ex); else add("loose_verdict"); dumpProb(*p); } 
#ifndef VF_SCHUR
      if (must && !loose && !mats) { snprintf(key, sizeof key, "unsolved-%s", CL[cls]); viol(key, "ret %d %s", (int)rv, ex); dumpProb(*p); }
#endif
      } break; }
    add(indef ? "indef_solved" : (must ? "unique_solved" : "solved")); if (k) add("hot_solved"); if (open_) { add("open_solved"); vec ox, oy; s.sol(ox, oy); Kkt kk = kkt(*p, &ox[0], &oy[0]); if (!(kk.worst <= tol)) { add("open_inexact"); break; } } if (R().verbose && getenv("VF_PL")) { vec dx, dy; s.sol(dx, dy); vec w(n + m, 0.0); s.b->getWorkingSet(&w[0]); for (int i = 0; i < n + m; ++i) fprintf(stderr, "%d ws %g y %.3g lo %.3g v %.6g up %.3g\n", i, w[i], dy[i], i < n ? p->lb[i] : p->lbA[i - n], i < n ? dx[i] : (double)rowDot(*p, i - n, dx), i < n ? p->ub[i] : p->ubA[i - n]); }
#ifdef VF_SCHUR
    { vec ox, oy; s.sol(ox, oy); Kkt kk = kkt(*p, &ox[0], &oy[0]); if (!(kk.worst <= tol) && kk.worst <= 1e-2) { add("schur_inexact"); break; } } // an almost singular Schur complement on the way (condition below the threshold): rate limited
#endif
    if (loose && !strncmp(CL[cls], "lp-", 3)) { vec ox, oy; s.sol(ox, oy); Kkt kk = kkt(*p, &ox[0], &oy[0]); if (!(kk.worst <= tol)) { add("lp_loose_wrong"); break; } } // regularised LPs under reduced accuracy may pass a limit that is missed by rounding: rate limited
    if (!checkKkt(CL[cls], *p, s, tol, ex)) break;
    vec x, y; s.sol(x, y); if (uniq) { ld o1 = objective(*p, &x[0]), o2 = objective(*p, &p->xs[0]); ld mag = 1 + fabsl(o2); for (int i = 0; i < n; ++i) mag += std::fabs(p->g[i] * p->xs[i]); smax("objective", (double)(fabsl(o1 - o2) / mag)); add("optima_compared"); if (!(fabsl(o1 - o2) <= (loose ? 1e-3L : 1e-6L) * mag)) { snprintf(key, sizeof key, "objective-%s", CL[cls]); viol(key, "%.10Lg instead of %.10Lg: %s", o1, o2, ex); dumpProb(*p); break; } double d = maxDiff(&x[0], &p->xs[0], n); smax("x-known", d); if (!(d <= (loose ? 1e-2 : 1e-5))) { snprintf(key, sizeof key, "x-%s", CL[cls]); viol(key, "x differs from the constructed unique optimum by %.2e: %s", d, ex); dumpProb(*p); break; } }
    if (!indef || !loose) coherent(CL[cls], *p, s, loose ? 1e-3 : 1e-6, loose ? 1e-3 : 1e-6, cls != 5, ex);
    if (indef) { int dim; ld e = curvature(*p, s, &dim); ld nh = 0; for (size_t i = 0; i < p->H.size(); ++i) nh = std::max(nh, (ld)std::fabs(p->H[i])); add("curvatures"); if (dim) add("curvatures_nontrivial"); smax("negative-curvature", (double)(-e / (1 + nh))); if (!(e >= -1e-6L * (1 + nh))) { snprintf(key, sizeof key, "curvature%s%s%s%s", loose ? "-loose" : "", ht == HST_INDEF ? "" : "-undeclared", k ? "-hot" : "", k && gone ? "-limit-vanished" : ""); viol(key, "smallest eigenvalue %.3Lg on a null space of dimension %d: %s", e, dim, ex); dumpProb(*p); break; } }
    if (k >= steps) break;
#ifdef VF_SCHUR
    if (gone) { add("stopped_after_vanished_limit"); break; } // wrong inertia (known finding) would go on
#endif
    keep.push_back(*p); p = &keep.back(); mats = cls == 6 && r.chance(0.5); const Prob* prev = &*std::prev(std::prev(keep.end())); vec ws(n + m, 0.0); s.b->getWorkingSet(&ws[0]); if (mats) { semiH(r, *p, hrows); if (r.chance(0.5)) genA(r, *p, o); }
    if (uniq) { if (!known(r, *p, o, hrows, false)) { break; } } else if (r.chance(0.05)) p->g.assign(n, 0.0); else if (r.chance(0.5)) { for (int i = 0; i < n; ++i) p->g[i] += o.integer ? r.range(-2, 2) : r.nrm(); } else { nextVectors(r, *p, o); box(r, *p); }
    gone = false; for (int i = 0; i < n + m; ++i) if (ws[i] != 0) { double a = ws[i] < 0 ? (i < n ? prev->lb[i] : prev->lbA[i - n]) : (i < n ? prev->ub[i] : prev->ubA[i - n]), b = ws[i] < 0 ? (i < n ? p->lb[i] : p->lbA[i - n]) : (i < n ? p->ub[i] : p->ubA[i - n]); if (std::fabs(a) < INFTY && std::fabs(b) >= INFTY) gone = true; } if (gone) add("active_limit_vanished");
    h = mix(h, probSig(*p)); nw = bigWSR(*p); rv = mats ? s.s->hotstart(&p->H[0], &p->g[0], p->Ap(), &p->lb[0], &p->ub[0], p->lbAp(), p->ubAp(), nw) : s.hot(*p, nw); changes += (int)nw; if (mats) add("matrix_hotstarts");
  }
  if (changes) sig(h); sample("%s", ex);
}
int main(int c, char** v) { varyOptions(false, true); return runMain(c, v, run); }
