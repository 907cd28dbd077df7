// Solving the equality-constrained QP of the current working set for several right-hand sides.
#include "common.hpp"
using namespace vf;
struct Snap { vec x, y, w; double obj; int st, nfx, nz, cnt, ht, r1, r2; };
static void snap(Solver& s, Snap& a) { s.sol(a.x, a.y); a.w.assign(s.n + s.m + 1, 0); s.b->getWorkingSet(&a.w[0]); a.obj = s.b->getObjVal(); a.st = s.b->getStatus() + 10 * s.b->isInfeasible() + 20 * s.b->isUnbounded(); a.nfx = (int)s.b->getNFX(); a.nz = (int)s.b->getNZ(); a.cnt = (int)s.b->getCount(); a.ht = s.b->getHessianType(); }
static bool eq(const Snap& a, const Snap& b) { return !memcmp(&a.x[0], &b.x[0], a.x.size() * 8) && !memcmp(&a.y[0], &b.y[0], a.y.size() * 8) && !memcmp(&a.w[0], &b.w[0], a.w.size() * 8) && !memcmp(&a.obj, &b.obj, 8) && a.st == b.st && a.nfx == b.nfx && a.nz == b.nz && a.cnt == b.cnt && a.ht == b.ht; }
static const char* CL[] = {"generic", "identity", "lp", "medium", "bounds", "integer"};
static void run(long idx, Rng& r) {
  int cls = (int)(idx % 6); GenOpt o; o.mmin = 0; switch (cls) { case 1: o.hk = HK_IDENT; break; case 2: o.hk = HK_ZERO; o.pInf = 0; o.mmax = 6; break; case 3: o.nmin = 6; o.nmax = 18; o.mmax = 20; break; case 4: o.mmax = 0; break; case 5: o.integer = true; o.nmax = 6; o.mmax = 8; break; } tag(CL[cls]);
  Prob p; genFeasible(r, p, o); Kind kd = r.chance(0.6) ? KQ : KS; int pr = r.range(0, 6);
#ifdef VF_SCHUR
  if (looseOpts(pr)) pr = r.range(0, 1);
#endif
  Solver s(kd, p.n, p.m, p.ht); s.b->setOptions(presetOptions(pr)); int n = p.n, m = p.m; uint64_t h = probSig(p); int_t nw = r.chance(0.2) ? r.range(0, 3) : 2000; returnValue rv = s.init(p, nw); if (rv != SUCCESSFUL_RETURN && rv != RET_MAX_NWSR_REACHED) { add("not_solved"); return; }
  double tol = looseOpts(pr) ? 1e-5 : 1e-7; int steps = r.range(1, R().thorough ? 10 : 4); bool used = false; Prob cur = p; std::vector<Prob*> keep;
  for (int k = 0; k < steps; ++k) {
    if (k) { nextVectors(r, cur, o); nw = r.chance(0.2) ? r.range(0, 3) : 2000; rv = s.hot(cur, nw); if (rv != SUCCESSFUL_RETURN && rv != RET_MAX_NWSR_REACHED) { add("not_solved"); break; } if (kd == KS && r.chance(0.4) && p.ht == HST_UNKNOWN) { Prob* q = new Prob(cur); keep.push_back(q); Prob f; f.n = n; GenOpt oo = o; oo.hk = HK_DENSE; genH(r, f, oo); q->H = f.H; if (m) { Prob a; a.n = n; a.m = m; genA(r, a, o); q->A = a.A; } genVectors(r, *q, o); nw = 2000; rv = s.hotM(*q, nw); cur = *q; if (rv != SUCCESSFUL_RETURN) { add("not_solved"); break; } } }
    Solver* c = s.clone(); Snap before; snap(s, before);
    int N = r.range(1, 5); vec g(N * n), lb(N * n), ub(N * n), lbA(N * m + 1), ubA(N * m + 1), x(N * n + 1, 4.5), y(N * (n + m) + 1, 4.5); for (int i = 0; i < N * n; ++i) { g[i] = 3 * r.nrm(); lb[i] = r.nrm(); ub[i] = lb[i] + r.uni(0, 2); } for (int i = 0; i < N * m; ++i) { lbA[i] = r.nrm(); ubA[i] = lbA[i] + r.uni(0, 2); }
    vec g0(g), lb0(lb), ub0(ub), lbA0(lbA), ubA0(ubA); rv = s.q->solveCurrentEQP(N, &g[0], &lb[0], &ub[0], m ? &lbA[0] : 0, m ? &ubA[0] : 0, &x[0], &y[0]);
    if (g != g0 || lb != lb0 || ub != ub0 || lbA != lbA0 || ubA != ubA0) viol("eqp-modified-input", "input arrays changed"); if (x[N * n] != 4.5 || y[N * (n + m)] != 4.5) viol("eqp-output-size", "wrote behind the output");
    Snap after; snap(s, after); if (!eq(before, after)) viol("eqp-changed-object", "solution, working set, objective, status or counters changed by the query %s", CL[cls]);
    if (rv != SUCCESSFUL_RETURN) { add("eqp_failed"); if (cls != 2) viol("eqp-failed", "returned %d %s n=%d m=%d preset %d", (int)rv, CL[cls], n, m, pr); }
    else { // judge every right-hand side
      RankSet rs(n); bool indep = true; vec row(n); for (int i = 0; i < n + m; ++i) if (before.w[i] != 0) { for (int j = 0; j < n; ++j) row[j] = i < n ? (i == j ? 1.0 : 0.0) : cur.A[(i - n) * n + j]; if (!rs.tryAdd(&row[0], 1e-3L)) indep = false; }
      used = true; for (int q = 0; q < N; ++q) { add("rhs_checked"); if (!indep) add("rhs_ill_conditioned"); double T = indep ? tol : 1e4 * tol; const double *X = &x[q * n], *Y = &y[q * (n + m)]; ld big = 1; for (int i = 0; i < n; ++i) big = std::max(big, fabsl((ld)X[i])); for (int i = 0; i < n + m; ++i) big = std::max(big, fabsl((ld)Y[i]));
        for (int i = 0; i < n; ++i) { ld v = g[q * n + i] - (ld)Y[i], mag = big; for (int j = 0; j < n; ++j) { ld t = (ld)cur.H[i * n + j] * X[j]; v += t; mag += fabsl(t); } for (int k2 = 0; k2 < m; ++k2) { ld t = (ld)cur.A[k2 * n + i] * Y[n + k2]; v -= t; mag += fabsl(t); } smax("eqp-stationarity", (double)(fabsl(v) / mag)); if (!(fabsl(v) <= T * mag)) { viol("eqp-stationarity", "rhs %d of %d component %d residual %.3e scale %.3e %s n=%d m=%d preset %d", q, N, i, (double)v, (double)mag, CL[cls], n, m, pr); dumpProb(cur); break; } }
        for (int i = 0; i < n + m; ++i) { double w = before.w[i]; ld v = 0, mag = big; if (i < n) v = X[i]; else for (int j = 0; j < n; ++j) { ld t = (ld)cur.A[(i - n) * n + j] * X[j]; v += t; mag += fabsl(t); } if (w == 0) { if (Y[i] != 0) viol("eqp-inactive-multiplier", "rhs %d entry %d inactive multiplier %.3e", q, i, Y[i]); continue; } double want = i < n ? (w < 0 ? lb[q * n + i] : ub[q * n + i]) : (w < 0 ? lbA[q * m + i - n] : ubA[q * m + i - n]); add("active_checked"); if (!(fabsl(v - want) <= T * mag)) { viol("eqp-active-limit", "rhs %d of %d entry %d side %g value %.9g wanted %.9g %s n=%d m=%d preset %d", q, N, i, w, (double)v, want, CL[cls], n, m, pr); break; } } } }
    // the query leaves no trace in later calls either
    Prob nx = cur; nextVectors(r, nx, o); int_t w1 = 2000, w2 = 2000; Solver* d = s.clone(); returnValue a1 = d->hot(nx, w1), a2 = c->hot(nx, w2); vec x1, y1, x2, y2; d->sol(x1, y1); c->sol(x2, y2); add("aftermath_compared"); if (a1 != a2 || w1 != w2 || memcmp(&x1[0], &x2[0], n * 8) || memcmp(&y1[0], &y2[0], (n + m) * 8)) viol("eqp-aftermath", "hotstart after the query differs from the same hotstart without it: ret %d/%d nWSR %d/%d", (int)a1, (int)a2, (int)w1, (int)w2); delete c; delete d;
  }
  for (size_t i = 0; i < keep.size(); ++i) {} struct D { std::vector<Prob*>& k; ~D() { for (size_t i = 0; i < k.size(); ++i) delete k[i]; } } dd = {keep};
  if (used) sig(h); sample("class=%s kind=%s n=%d m=%d steps=%d preset=%d", CL[cls], kindName(kd), n, m, steps, pr);
}
int main(int c, char** v) { varyOptions(); return runMain(c, v, run); }
