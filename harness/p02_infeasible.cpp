// Infeasible problems are reported as such, feasible ones never; the object recovers afterwards.
#include "common.hpp"
using namespace vf;
static const char* KN[] = {"lb>ub", "box-vs-row", "farkas", "dependent-equalities"};
static bool makeInfeasible(Rng& r, Prob& p, int kind, double margin) {
  int n = p.n, m = p.m;
  if (kind == 0) { int i = r.range(0, n + m - 1); double c = r.uni(-2, 2); if (i < n) { p.lb[i] = c + margin; p.ub[i] = c; } else { if (r.chance(0.4)) p.drop(r.range(1, 3)); p.lbA[i - n] = c + margin; p.ubA[i - n] = c; } return true; }
  if (m == 0) return false;
  if (kind >= 2 && r.chance(0.3)) p.drop(3); // contradiction among the constraints only: no simple bounds needed
  if (kind == 1) { // row whose range over the box excludes its limits
    int c = r.range(0, m - 1); double lo = 0, up = 0; for (int j = 0; j < n; ++j) { double a = p.A[c * n + j]; if (a == 0) continue; if (isInfLo(p.lb[j])) p.lb[j] = std::min(-1.0, isInfUp(p.ub[j]) ? 0.0 : p.ub[j]) - r.uni(0, 2); if (isInfUp(p.ub[j])) p.ub[j] = std::max(1.0, p.lb[j]) + r.uni(0, 2); lo += a > 0 ? a * p.lb[j] : a * p.ub[j]; up += a > 0 ? a * p.ub[j] : a * p.lb[j]; }
    if (r.chance(0.5)) { p.lbA[c] = up + margin; p.ubA[c] = r.chance(0.5) ? INFTY : up + margin + r.uni(0, 3); } else { p.ubA[c] = lo - margin; p.lbA[c] = r.chance(0.5) ? -INFTY : lo - margin - r.uni(0, 3); }
    return true; }
  if (kind == 2) { // sum of rows vanishes, sum of upper limits negative
    int k = std::min(m, r.range(2, 4)); if (k < 2) return false; std::vector<int> id; for (int i = 0; i < m; ++i) id.push_back(i); r.shuffle(id);
    double s = 0; for (int j = 0; j < n; ++j) { double t = 0; for (int q = 0; q < k - 1; ++q) t += p.A[id[q] * n + j]; p.A[id[k - 1] * n + j] = -t; s += std::fabs(t); }
    if (s < 0.3) return false;
    double t = 0; for (int q = 0; q < k - 1; ++q) { double u = r.uni(-2, 2); p.ubA[id[q]] = u; p.lbA[id[q]] = r.chance(0.5) ? -INFTY : u - r.uni(0, 3); t += u; } p.ubA[id[k - 1]] = -t - margin; p.lbA[id[k - 1]] = -INFTY; return true; }
  if (m < 2) return false; // two parallel equalities
  int a = r.range(0, m - 1), b = (a + 1 + r.range(0, m - 2)) % m; double f = r.chance(0.5) ? 1.0 : r.sgn() * r.uni(0.5, 2); for (int j = 0; j < n; ++j) p.A[b * n + j] = f * p.A[a * n + j];
  double v = r.uni(-2, 2); p.lbA[a] = p.ubA[a] = v; p.lbA[b] = p.ubA[b] = f * v + r.sgn() * margin; return true;
}
static void run(long idx, Rng& r) {
  int kind = (int)(idx % 4); GenOpt o; o.nmax = 8; o.mmin = 0; o.mmax = 9; o.hk = r.chance(0.15) ? HK_IDENT : -1; int preset = r.range(0, 6); bool loose = looseOpts(preset); double tol = loose ? 2e-6 : 1e-8; char key[80];
  Prob p; int tries = 0; Prob q; double margin = r.chance(0.5) ? r.uni(0.1, 0.5) : r.uni(0.5, 5);
  do { genFeasible(r, p, o); q = p; if (++tries > 50) return; } while (!makeInfeasible(r, q, kind, margin));
  // the feasible companion uses the same matrices
  { int inf = 0; vec* v[4] = {&q.lb, &q.ub, &q.lbA, &q.ubA}; for (int w = 0; w < 4; ++w) { bool all = true; for (size_t i = 0; i < v[w]->size(); ++i) all = all && std::fabs((*v[w])[i]) >= INFTY; if (all && r.chance(0.5)) inf |= 1 << w; } q.drop(inf); if (inf) add("omitted_vectors"); }
  p.A = q.A; genVectors(r, p, o); int n = p.n, m = p.m; tag(KN[kind]);
  Kind kd = m == 0 ? KB : (r.chance(0.7) ? KQ : KS); if (m == 0 && r.chance(0.3)) kd = KQ;
  bool dep = kind >= 2; // linearly dependent rows: feasible companion is still LI in the active equalities, but must-solve only for non-degenerate kinds
  Solver s(kd, n, m, p.ht); s.b->setOptions(presetOptions(preset)); sig(probSig(q)); int_t nw; returnValue rv; bool first = r.chance(0.4); int rounds = r.range(1, 3);
  if (!first) { nw = bigWSR(p); rv = s.init(p, nw); if (rv == SUCCESSFUL_RETURN) { add("feasible_ok"); if (s.b->isInfeasible()) viol("flag-on-success", "isInfeasible after success"); } else { if (!dep || s.b->isInfeasible()) { viol("feasible-init", "feasible problem: ret=%d infeasible=%d kind=%s preset=%d", (int)rv, (int)s.b->isInfeasible(), KN[kind], preset); dumpProb(p); } return; } }
  for (int k = 0; k < rounds; ++k) {
    // infeasible problem
    nw = bigWSR(q); bool isInit = first && k == 0; double cpu = 1e6; bool useCpu = r.chance(0.2); double* cp = useCpu ? &cpu : 0; int_t nw0 = nw;
    if (isInit) rv = s.init(q, nw, cp); else rv = s.hot(q, nw, cp);
    add(isInit ? "infeasible_inits" : "infeasible_hotstarts"); add(KN[kind]);
    if (rv == SUCCESSFUL_RETURN) { snprintf(key, sizeof key, "success-%s", KN[kind]); vec x, y; s.sol(x, y); Kkt kk = kkt(q, &x[0], &y[0]); viol(key, "infeasible problem (margin %.3g) reported solved: %s %s preset=%d n=%d m=%d feas-residual=%.2e", margin, isInit ? "init" : "hotstart", kindName(kd), preset, n, m, kk.feas); dumpProb(q); }
    else {
      if (s.b->isSolved()) viol("issolved", "isSolved() after infeasible %s, kind=%s", isInit ? "init" : "hotstart", KN[kind]);
      if (s.b->isUnbounded()) { viol("unbounded-flag", "infeasible problem declared unbounded, kind=%s", KN[kind]); }
      if (!s.b->isInfeasible()) { bool lim = rv == RET_MAX_NWSR_REACHED || rv == 36 || rv == 60 || rv == 68 || rv == 69; add("not_flagged"); if (loose && lim && rv != RET_MAX_NWSR_REACHED) { add("inf_numeric_failures"); return; } if (!(loose && lim)) { snprintf(key, sizeof key, "flag-%s", KN[kind]); viol(key, "infeasible problem (margin %.3g): ret=%d but isInfeasible()=no, %s %s preset=%d n=%d m=%d", margin, (int)rv, isInit ? "init" : "hotstart", kindName(kd), preset, n, m); dumpProb(q); } }
      else { add("flagged_infeasible"); if (getSimpleStatus(rv) != -2) viol("simple-status", "simple status %d of ret=%d for an infeasible problem (%s)", (int)getSimpleStatus(rv), (int)rv, KN[kind]); }
      if (nw < 0 || nw > nw0) viol("nwsr", "nWSR=%d after limit %d", (int)nw, (int)nw0);
      if (useCpu && !(cpu >= 0 && cpu < 1e3)) viol("cputime", "reported cpu time %g after infeasible call, kind=%s", cpu, KN[kind]);
    }
    // recovery
    genVectors(r, p, o); nw = bigWSR(p); bool re = r.chance(0.25);
    if (re) { bool rs = r.chance(0.5); if (rs) { s.b->reset(); s.b->setHessianType(p.ht); } /* re-initialising forgets a declared Hessian type: pass the matrix */ rv = s.init(rs ? p.Hp() : &p.H[0], &p.g[0], p.Ap(), &p.lb[0], &p.ub[0], p.lbAp(), p.ubAp(), nw); } else rv = s.hot(p, nw);
    if (rv == SUCCESSFUL_RETURN) { add("recovered"); char ex[80]; snprintf(ex, sizeof ex, "after %s %s, %s preset %d", isInit ? "init" : "hotstart", KN[kind], re ? "init" : "hotstart", preset); checkKkt("recover", p, s, dep && loose ? 1e-1 : tol, ex); if (s.b->isInfeasible()) viol("flag-on-success", "isInfeasible after successful recovery"); }
    else { add("unsolved_recovery"); if (s.b->isInfeasible() && !dep) { viol("feasible-flagged", "feasible problem flagged infeasible after an infeasible one, ret=%d kind=%s preset=%d", (int)rv, KN[kind], preset); dumpProb(p); }
      else if (!dep && !(loose && rv == RET_MAX_NWSR_REACHED)) { snprintf(key, sizeof key, "recover-%s", re ? "init" : "hotstart"); viol(key, "feasible problem after an infeasible %s (%s) not solved: ret=%d preset=%d %s n=%d m=%d", isInit ? "init" : "hotstart", KN[kind], (int)rv, preset, kindName(kd), n, m); dumpProb(p); }
      return; }
    // next infeasible member with the same matrices: keep q's limits, new gradient
    for (int i = 0; i < n; ++i) q.g[i] = p.g[i];
  }
  sample("kind=%s preset=%d n=%d m=%d margin=%.2g first=%d", KN[kind], preset, n, m, margin, (int)first);
}
int main(int c, char** v) { varyOptions(); return runMain(c, v, run); }
