// Unbounded problems fail with the unboundedness flag; bounded ones are never declared unbounded.
#include "common.hpp"
using namespace vf;
static const char* KN[] = {"lp-ray", "semidef-ray", "semidef-bounded", "lp-bounded"};
// data with a feasible recession ray d: H d = 0, A d within the recession cone, g'd < 0 (kinds 0,1)
static bool make(Rng& r, Prob& p, int kind, vec& d, double& slope) {
  GenOpt o; o.nmin = kind == 1 || kind == 2 ? 2 : 1; o.nmax = 7; o.mmax = 7; p.n = r.range(o.nmin, o.nmax); p.m = r.range(0, o.mmax); int n = p.n, m = p.m;
  d.assign(n, 0.0); int nz = 0; for (int i = 0; i < n; ++i) if (r.chance(0.6)) { d[i] = r.sgn() * r.uni(0.5, 2); ++nz; } if (!nz) d[r.range(0, n - 1)] = r.sgn();
  double dd = 0; for (int i = 0; i < n; ++i) dd += d[i] * d[i];
  p.H.assign((size_t)n * n, 0.0); p.ht = HST_ZERO; p.mu = 0;
  if (kind == 1 || kind == 2) { p.ht = r.chance(0.5) ? HST_SEMIDEF : HST_UNKNOWN; int k = n - 1; vec M((size_t)k * n); for (int l = 0; l < k; ++l) { double t = 0; for (int j = 0; j < n; ++j) { M[l * n + j] = r.nrm(); t += M[l * n + j] * d[j]; } for (int j = 0; j < n; ++j) M[l * n + j] -= t / dd * d[j]; }
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { double s = 0; for (int l = 0; l < k; ++l) s += M[l * n + i] * M[l * n + j]; s /= k; p.H[i * n + j] = p.H[j * n + i] = s; } }
  genA(r, p, o); genVectors(r, p, o);
  if (kind <= 1) {
    for (int i = 0; i < n; ++i) { if (d[i] > 0) { p.ub[i] = INFTY; if (p.lb[i] <= -INFTY && r.chance(0.5)) p.lb[i] = -r.uni(0, 3); } if (d[i] < 0) { p.lb[i] = -INFTY; if (p.ub[i] >= INFTY && r.chance(0.5)) p.ub[i] = r.uni(0, 3); } }
    vec x0(n); for (int i = 0; i < n; ++i) { double lo = isInfLo(p.lb[i]) ? (isInfUp(p.ub[i]) ? -2 : p.ub[i] - 3) : p.lb[i], up = isInfUp(p.ub[i]) ? lo + 3 : p.ub[i]; x0[i] = r.uni(lo, up); }
    for (int c = 0; c < m; ++c) { double t = (double)rowDot(p, c, d), v = (double)rowDot(p, c, x0); fillBound(r, o, v, p.lbA[c], p.ubA[c]); if (std::fabs(t) < 0.05) { for (int j = 0; j < n; ++j) p.A[c * n + j] -= t / dd * d[j]; t = 0; double nn = 0; for (int j = 0; j < n; ++j) nn += p.A[c * n + j] * p.A[c * n + j]; if (nn < 0.05) { for (int j = 0; j < n; ++j) p.A[c * n + j] = d[j] == 0 ? 1 : d[j]; t = 1; } p.lbA[c] = p.ubA[c] = 0; v = (double)rowDot(p, c, x0); fillBound(r, o, v, p.lbA[c], p.ubA[c]); if (t == 0) { p.lbA[c] = -INFTY; p.ubA[c] = v + r.uni(0.5, 3); } t = (double)rowDot(p, c, d); }
      if (t > 1e-9) p.ubA[c] = INFTY; else if (t < -1e-9) p.lbA[c] = -INFTY; else { p.lbA[c] = -INFTY; p.ubA[c] = INFTY; if (r.chance(0.0)) return false; } }
    double gd = 0; for (int i = 0; i < n; ++i) gd += p.g[i] * d[i]; slope = -r.uni(0.3, 2); for (int i = 0; i < n; ++i) p.g[i] += (slope * std::sqrt(dd) - gd) / dd * d[i];
  } else if (kind == 2) { // bounded: ray blocked both ways by finite bounds on one coordinate of d
    for (int i = 0; i < n; ++i) if (d[i] != 0) { double v = 0; if (isInfLo(p.lb[i])) p.lb[i] = std::min(v, isInfUp(p.ub[i]) ? v : p.ub[i]) - r.uni(3, 5); if (isInfUp(p.ub[i])) p.ub[i] = std::max(v, p.lb[i]) + r.uni(3, 5); }
    for (int i = 0; i < n; ++i) if (p.lb[i] == p.ub[i]) p.ub[i] += 1;
  } else { for (int i = 0; i < n; ++i) { if (isInfLo(p.lb[i])) p.lb[i] = std::min(0.0, isInfUp(p.ub[i]) ? 0.0 : p.ub[i]) - r.uni(3, 5); if (isInfUp(p.ub[i])) p.ub[i] = std::max(0.0, p.lb[i]) + r.uni(3, 5); } }
  return true;
}
static void run(long idx, Rng& r) {
  int kind = (int)(idx % 4); Prob p; vec d; double slope = 0; if (!make(r, p, kind, d, slope)) return; int n = p.n, m = p.m; tag(KN[kind]);
  int preset = kind <= 1 ? r.range(0, 1) : r.range(0, 6); bool loose = looseOpts(preset); char key[80]; Kind kd = m == 0 && r.chance(0.8) ? KB : (r.chance(0.75) ? KQ : KS);
  Solver s(kd, n, m, p.ht); s.b->setOptions(presetOptions(preset)); sig(probSig(p)); int_t nw = bigWSR(p); bool zeroH = (kind == 0 || kind == 3);
  returnValue rv = zeroH && r.chance(0.5) ? s.init(0, &p.g[0], p.Ap(), &p.lb[0], &p.ub[0], p.lbAp(), p.ubAp(), nw) : s.init(&p.H[0], &p.g[0], p.Ap(), &p.lb[0], &p.ub[0], p.lbAp(), p.ubAp(), nw);
  add(KN[kind]); bool hot = false; snprintf(key, sizeof key, "ret%d-%s-%s", (int)rv, kind <= 1 ? "unb" : "bnd", loose ? "loose" : "std"); add(key);
  for (int k = 0; k < 3; ++k) {
    bool unb = kind <= 1;
    if (unb && k == 1) { // bounded member in between: close the ray
      Prob q = p; for (int i = 0; i < n; ++i) { if (isInfLo(q.lb[i])) q.lb[i] = std::min(-5.0, q.ub[i] - 5); if (isInfUp(q.ub[i])) q.ub[i] = std::max(5.0, q.lb[i] + 5); }
      bool direct = r.chance(0.15); nw = bigWSR(q);
      if (direct) { rv = s.hot(q, nw); add("hot_after_unbounded"); } else { rv = s.init(&q.H[0], &q.g[0], q.Ap(), &q.lb[0], &q.ub[0], q.lbAp(), q.ubAp(), nw); add("bounded_reinits"); } hot = true;
      if (rv == SUCCESSFUL_RETURN) { add("bounded_ok"); checkKkt(direct ? "hot-after-unbounded" : "bounded-after", q, s, 1e-6, ""); if (s.b->isUnbounded()) viol("flag-on-success", "isUnbounded after success"); }
      else { snprintf(key, sizeof key, "bounded-after-ret%d%s", (int)rv, direct ? "-direct" : ""); add(key); if (s.b->isUnbounded() && !(direct && rv == RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED)) { viol(direct ? "hot-after-unbounded-flagged" : "bounded-flagged", "bounded problem flagged unbounded (ret=%d) %s preset=%d", (int)rv, KN[kind], preset); dumpProb(q); } return; }
      if (direct) return;
      nw = bigWSR(p); rv = s.hot(p, nw); continue; }
    if (unb) {
      if (rv == SUCCESSFUL_RETURN) { vec x, y; s.sol(x, y); Kkt kk = kkt(p, &x[0], &y[0]); snprintf(key, sizeof key, "success-%s%s", KN[kind], loose ? "-loose" : ""); double xm = 0; for (int i = 0; i < n; ++i) xm = std::max(xm, std::fabs(x[i])); viol(key, "unbounded problem reported solved (%s preset=%d n=%d m=%d |x|=%.1e stat=%.1e feas=%.1e sign=%.1e compl=%.1e hot=%d)", kindName(kd), preset, n, m, xm, kk.stat, kk.feas, kk.sign, kk.compl_, (int)hot); dumpProb(p); }
      else { if (s.b->isUnbounded()) { add("flagged_unbounded"); if (getSimpleStatus(rv) != -3) viol("simple-status", "simple status %d ret=%d", (int)getSimpleStatus(rv), (int)rv); }
        else if (rv == 36 || rv == 60) { add("unb_numeric_failures"); return; }
        else { snprintf(key, sizeof key, "flag-%s-ret%d-%s", KN[kind], (int)rv, kindName(kd)); viol(key, "unbounded problem: ret=%d infeasible=%d unbounded=0 (%s preset=%d n=%d m=%d hot=%d)", (int)rv, (int)s.b->isInfeasible(), kindName(kd), preset, n, m, (int)hot); dumpProb(p); return; }
        if (s.b->isSolved()) viol("issolved", "isSolved after an unbounded problem, ret=%d", (int)rv); if (s.b->isInfeasible()) viol("infeasible-flag", "unbounded feasible problem flagged infeasible"); }
      if (k == 2) break;
    } else {
      if (rv == SUCCESSFUL_RETURN) { add("bounded_ok"); if (s.b->isUnbounded()) viol("flag-on-success", "isUnbounded after success"); checkKkt(KN[kind], p, s, loose ? 1e-3 : 1e-6); }
      else { if (s.b->isUnbounded()) { snprintf(key, sizeof key, "bounded-flagged%s", loose ? "-loose" : ""); viol(key, "bounded problem flagged unbounded ret=%d %s preset=%d n=%d m=%d hot=%d", (int)rv, KN[kind], preset, n, m, (int)hot); dumpProb(p); } snprintf(key, sizeof key, "bndret%d-%s", (int)rv, loose ? "loose" : "std"); add(key); info("%s %s",key,KN[kind]); dumpProb(p); if (s.b->isInfeasible() && !loose) viol("feasible-declared-infeasible","%s %s preset=%d n=%d m=%d hot=%d",KN[kind],kindName(kd),preset,n,m,(int)hot); return; }
      // next gradient
      for (int i = 0; i < n; ++i) p.g[i] += r.nrm(); nw = bigWSR(p); rv = s.hot(p, nw); hot = true;
    }
  }
  sample("%s preset=%d n=%d m=%d", KN[kind], preset, n, m);
}
int main(int c, char** v) { varyOptions(true, true); /* without drift correction in every iteration, iterates of size 1e15 lose all precision */ return runMain(c, v, run); }
