// A successful cold start returns a KKT point of exactly the problem that was passed.
#include "common.hpp"
using namespace vf;

static void checkSolved(const char* cls, QProblemB& q, const Prob& p, returnValue rv, bool mustSolve, double tol, const vec& x, const vec& y) {
  char key[96];
  if (rv != SUCCESSFUL_RETURN) {
    add("unsolved");
    if (mustSolve) { snprintf(key, sizeof key, "unsolved-%s", cls); viol(key, "well-posed problem not solved: ret=%d n=%d m=%d infeas=%d unb=%d", (int)rv, p.n, p.m, (int)q.isInfeasible(), (int)q.isUnbounded()); dumpProb(p); }
    return;
  }
  add("solved"); add("kkt_checked");
  Kkt k = kkt(p, &x[0], &y[0]); smax(cls, k.worst);
  if (!(k.worst <= tol)) { snprintf(key, sizeof key, "kkt-%s", cls); viol(key, "success but KKT residuals stat=%.2e feas=%.2e sign=%.2e compl=%.2e tol=%.1e n=%d m=%d", k.stat, k.feas, k.sign, k.compl_, tol, p.n, p.m); dumpProb(p); }
}

static void run(long idx, Rng& r) {
  Prob p; GenOpt o; const char* cls; bool must = true; double tol;
  int kind = (int)(idx % 10);
  int preset = r.range(0, 6);
  bool mpc = looseOpts(preset);
  tol = mpc ? 2e-6 : 1e-8; if (kind == 9 && mpc) tol = 1e-2; // dependent rows without drift correction
  switch (kind) {
    case 0: case 1: case 2: cls = "known"; genKnown(r, p, o); break;
    case 3: cls = "knownBounds"; o.mmax = 0; genKnown(r, p, o); break;
    case 4: case 5: cls = "feasible"; genFeasible(r, p, o); break;
    case 6: cls = "large"; o.nmin = 10; o.nmax = 30; o.mmax = 45; if (r.chance(0.5)) genKnown(r, p, o); else genFeasible(r, p, o); break;
    case 7: cls = "tiny"; o.nmax = 3; o.mmax = 4; o.pEq = 0.3; if (r.chance(0.5)) genKnown(r, p, o); else genFeasible(r, p, o); break;
    case 8: cls = "integer"; o.integer = true; o.nmax = 8; o.mmax = 10; o.pWeak = 0.2; must = false; genFeasible(r, p, o); break;
    default: cls = "degenerate"; o.integer = r.chance(0.5); o.dupRows = true; o.pWeak = 0.3; o.nmax = 7; must = false; genFeasible(r, p, o); break;
  }
  tag(cls);
  int n = p.n, m = p.m; Options op = presetOptions(preset); info("preset %d", preset);
  vec x(n + 1, 0.0), y(n + m + 1, 0.0); double obj = 0;
  // pass NULL for completely infinite vectors sometimes
  const double *lb = &p.lb[0], *ub = &p.ub[0], *lbA = p.lbAp(), *ubA = p.ubAp();
  if (kind == 4 && r.chance(0.3)) { int w = r.range(0, 3); vec* v[4] = {&p.lb, &p.ub, &p.lbA, &p.ubA}; for (size_t i = 0; i < v[w]->size(); ++i) (*v[w])[i] = (w % 2) ? INFTY : -INFTY; if (w == 0) lb = 0; if (w == 1) ub = 0; if (w == 2) lbA = 0; if (w == 3) ubA = 0; }
  int_t nWSR = 1000 + 20 * (n + m); int_t nWSR0 = nWSR; returnValue rv; bool useB = (m == 0 && r.chance(0.5));
  const double* H = p.Hp(); if (p.ht == HST_IDENTITY && r.chance(0.5)) { p.ht = HST_UNKNOWN; H = &p.H[0]; }
  sig(probSig(p)); 
  if (useB) {
    QProblemB q(n, p.ht); q.setOptions(op); rv = q.init(H, &p.g[0], lb, ub, nWSR);
    if (rv == SUCCESSFUL_RETURN) { q.getPrimalSolution(&x[0]); q.getDualSolution(&y[0]); obj = q.getObjVal(); }
    checkSolved(cls, q, p, rv, must, tol, x, y); add("QProblemB");
  } else {
    QProblem q(n, m, p.ht); q.setOptions(op); rv = q.init(H, &p.g[0], p.Ap(), lb, ub, lbA, ubA, nWSR);
    if (rv == SUCCESSFUL_RETURN) { q.getPrimalSolution(&x[0]); q.getDualSolution(&y[0]); obj = q.getObjVal(); }
    checkSolved(cls, q, p, rv, must, tol, x, y); add("QProblem");
  }
  if (rv == SUCCESSFUL_RETURN) {
    add("iterations", (long long)nWSR); if (nWSR > 0) add("nontrivial_solves");
    if (nWSR < 0 || nWSR > nWSR0) viol("nwsr-range", "nWSR=%d of %d", (int)nWSR, (int)nWSR0);
    ld ob = objective(p, &x[0]); ld mag = 1; for (int i = 0; i < n; ++i) { mag += std::fabs(p.g[i] * x[i]); for (int j = 0; j < n; ++j) mag += std::fabs(p.H[i * n + j] * x[i] * x[j]); }
    if (!(fabsl(ob - obj) <= 1e-9L * mag)) { char key[64]; snprintf(key, sizeof key, "objval-%s", cls); viol(key, "getObjVal %.12g but 0.5x'Hx+g'x = %.12Lg", obj, ob); }
    if (p.haveOpt) {
      double dx = maxDiff(&x[0], &p.xs[0], n), dy = maxDiff(&y[0], &p.ys[0], n + m); smax("dx_known", dx); smax("dy_known", dy); add("compared_with_known");
      double t2 = mpc ? 1e-4 : 1e-6; char key[64];
      if (!(dx <= t2)) { snprintf(key, sizeof key, "xopt-%s", cls); viol(key, "primal solution differs from the constructed optimum by %.3e (n=%d m=%d)", dx, n, m); dumpProb(p); }
      if (!(dy <= t2 * 10)) { snprintf(key, sizeof key, "yopt-%s", cls); viol(key, "dual solution differs from the constructed multipliers by %.3e", dy); dumpProb(p); }
    }
    sample("class=%s preset=%d n=%d m=%d iterations=%d obj=%.9g", cls, preset, n, m, (int)nWSR, obj);
  }
}
int main(int c, char** v) { varyOptions(); return runMain(c, v, run); }
