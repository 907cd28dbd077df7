// Everything an object reports about its state agrees with itself, the solution and the outcome of the last call.
#include "common.hpp"
using namespace vf;
static const char* CL[] = {"generic", "large", "tiny", "integer", "degenerate", "bounds", "equalities", "limited"};
static void run(long idx, Rng& r) {
  Prob p; GenOpt o; int cls = (int)(idx % 8), preset = r.range(0, 6); bool loose = looseOpts(preset), must = true; double xtol = loose ? 2e-6 : 1e-8, ytol = loose ? 1e-6 : 1e-8;
  switch (cls) { case 1: o.nmin = 6; o.nmax = 16; o.mmax = 24; break; case 2: o.nmax = 3; o.mmax = 3; break; case 3: o.integer = true; o.nmax = 6; o.mmax = 8; o.pWeak = 0.2; must = false; break; case 4: o.dupRows = true; o.pWeak = 0.3; o.nmax = 7; must = false; break; case 5: o.mmax = 0; break; case 6: o.pEq = 0.8; break; default: break; }
  if (cls == 4 && loose) { xtol = ytol = 1e-2; } tag(CL[cls]); genFeasible(r, p, o); int n = p.n, m = p.m; Kind kd = m == 0 && r.chance(0.7) ? KB : (r.chance(0.7) ? KQ : KS);
  Solver s(kd, n, m, p.ht); Options op = presetOptions(preset); s.b->setOptions(op);
  // before anything was solved
  if (s.b->getStatus() != QPS_NOTINITIALISED || s.b->isInitialised() == BT_TRUE || s.b->isSolved() == BT_TRUE || s.b->isInfeasible() == BT_TRUE || s.b->isUnbounded() == BT_TRUE || s.b->getNV() != n || s.b->getCount() != 0) viol("coh-fresh", "fresh object reports status %d count %d", (int)s.b->getStatus(), (int)s.b->getCount()); failedCoherent("fresh", RET_QP_NOT_SOLVED, s); if (!(s.b->getObjVal() >= INFTY)) viol("coh-fresh-objective", "objective %g before any solve", s.b->getObjVal());
  int steps = r.range(2, R().thorough ? 25 : 12); unsigned cnt = 0; uint64_t h = 0; int changes = 0; bool inited = false;
  for (int k = 0; k <= steps; ++k) {
    int_t nw = bigWSR(p), lim = nw; returnValue rv; char ex[64]; snprintf(ex, sizeof ex, "step %d preset %d", k, preset); h = mix(h, probSig(p)); const char* where = k == 0 || !inited ? "init" : "hot";
    bool limited = (cls == 7 && r.chance(0.6)) || r.chance(0.05); if (limited) lim = nw = r.range(0, 4); int mut = r.range(0, 39); bool infeas = false; Prob q = p;
    if (mut == 0 && k > 0) { int i = r.range(0, n - 1); q.lb[i] = 1; q.ub[i] = 0; infeas = true; } // contradictory bounds
    if (!inited) { s.b->reset(); s.b->setHessianType(p.ht); cnt = 0; rv = s.init(p.Hp(), &q.g[0], p.Ap(), q.lbp(), q.ubp(), q.lbAp(), q.ubAp(), nw); } else if (kd == KS && r.chance(0.3)) { where = "hotM"; rv = s.s->hotstart(p.Hp(), &q.g[0], p.Ap(), q.lbp(), q.ubp(), q.lbAp(), q.ubAp(), nw); } else { rv = s.hot(q, nw); } inited = true; info("  step %d %s ret %d nw %d", k, where, (int)rv, (int)nw);
    cnt = s.b->getCount(); (void)cnt;
    if (nw < 0 || nw > lim) viol("coh-iterations", "performed %d of at most %d working set changes (ret %d, %s)", (int)nw, (int)lim, (int)rv, where); changes += (int)nw;
    if (rv == SUCCESSFUL_RETURN) { coherent(where, q, s, xtol, ytol, cls != 4 && cls != 3, ex); double ov = s.b->getObjVal(); vec x, y; s.sol(x, y); ld ob = objective(q, &x[0]); ld mag = 1; for (int i = 0; i < n; ++i) { mag += std::fabs(q.g[i] * x[i]); for (int j = 0; j < n; ++j) mag += std::fabs(0.5 * q.H[i * n + j] * x[i] * x[j]); } if (!(fabsl(ov - ob) <= (loose ? (cls == 4 ? 1e-2 : 1e-6) : 1e-8) * mag)) viol("coh-objective", "getObjVal %.17g, objective at the solution %.17Lg diff %.3Lg (%s) preset %d", ov, ob, ov - ob, where, preset); if (infeas) viol("coh-contradiction", "success with lb > ub"); }
    else { failedCoherent(where, rv, s); add("failures"); bool fi = s.b->isInfeasible() == BT_TRUE, fu = s.b->isUnbounded() == BT_TRUE; if (fi && fu) viol("coh-both-flags", "infeasible and unbounded");
      if ((rv == RET_MAX_NWSR_REACHED) && (fi || fu)) viol("coh-limit-flags", "iteration limit with infeasible=%d unbounded=%d", (int)fi, (int)fu);
      if ((rv == RET_INIT_FAILED_INFEASIBILITY || rv == RET_HOTSTART_STOPPED_INFEASIBILITY || rv == RET_QP_INFEASIBLE) && !fi) viol("coh-infeasible-flag", "ret %d but isInfeasible() is false", (int)rv); if ((rv == RET_INIT_FAILED_UNBOUNDEDNESS || rv == RET_HOTSTART_STOPPED_UNBOUNDEDNESS) && !fu) viol("coh-unbounded-flag", "ret %d but isUnbounded() is false", (int)rv);
      int ss = (int)getSimpleStatus(rv); int want = rv == RET_MAX_NWSR_REACHED ? 1 : (fi ? -2 : (fu ? -3 : -1)); if (ss != want) viol("coh-simple-status", "ret %d infeasible %d unbounded %d simple status %d want %d", (int)rv, (int)fi, (int)fu, ss, want);
      if (rv == RET_MAX_NWSR_REACHED) { // go on until it is solved: the interrupted object is coherent in between
        add("interrupted"); int guard = 0; while (rv == RET_MAX_NWSR_REACHED && guard++ < 400) { nw = lim = r.range(1, 6); if (guard > 100) nw = lim = bigWSR(p); rv = s.hot(q, nw); if (nw > lim) viol("coh-iterations", "performed %d of %d (resumed)", (int)nw, (int)lim); if (rv != SUCCESSFUL_RETURN) failedCoherent("resume", rv, s); }
        if (rv == SUCCESSFUL_RETURN) { add("resumed"); coherent("resumed", q, s, xtol, ytol, cls != 4 && cls != 3, ex); } else if (must && !infeas) { viol("coh-unresumed", "interrupted solve ends with %d preset %d", (int)rv, preset); dumpProb(q); } }
      else if (must && !infeas) { char key[64]; snprintf(key, sizeof key, "coh-unsolved-%s", CL[cls]); viol(key, "%s ret %d %s", where, (int)rv, ex); dumpProb(q); } info("step %d %s ret %d nw %d", k, where, (int)rv, (int)nw);
      if (rv != SUCCESSFUL_RETURN) { inited = r.chance(0.5) && s.b->isInitialised() == BT_TRUE && s.b->getStatus() >= QPS_SOLVED; } }
    nextVectors(r, p, o);
  }
  if (changes) sig(h); sample("class=%s kind=%s preset=%d n=%d m=%d steps=%d working-set changes=%d", CL[cls], kindName(kd), preset, n, m, steps, changes);
  s.b->reset(); if (s.b->getStatus() != QPS_NOTINITIALISED || s.b->isInitialised() == BT_TRUE || s.b->isSolved() == BT_TRUE || s.b->isInfeasible() == BT_TRUE || s.b->isUnbounded() == BT_TRUE) viol("coh-reset", "status %d after reset", (int)s.b->getStatus());
}
int main(int c, char** v) { varyOptions(); return runMain(c, v, run); }
