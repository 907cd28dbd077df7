// Sequences of hotstarts: every step returns the optimum of its own QP.
#include "common.hpp"
using namespace vf;
static const char* CL[] = {"generic", "large", "tiny", "integer", "degenerate", "bounds"};
static void run(long idx, Rng& r) {
  Prob p; GenOpt o; int cls = (int)(idx % 8); if (cls > 5) cls = 0; bool must = true; int preset = r.range(0, 6); bool loose = looseOpts(preset); double tol = loose ? 2e-6 : 1e-8;  /* set per class below */
  switch (cls) { case 1: o.nmin = 8; o.nmax = 24; o.mmax = 36; break; case 2: o.nmax = 3; o.mmax = 4; break; case 3: o.integer = true; o.nmax = 6; o.mmax = 8; o.pWeak = 0.2; must = false; break; case 4: o.dupRows = true; o.pWeak = 0.3; o.nmax = 7; must = false; break; case 5: o.mmax = 0; break; default: break; }
  if (cls == 4 && loose) tol = 1e-2; // dependent rows without drift correction
  tag(CL[cls]); o.pEq = r.chance(0.5) ? 0.15 : 0.4; genFeasible(r, p, o); int n = p.n, m = p.m;
  Kind kd = m == 0 && r.chance(0.7) ? KB : (r.chance(0.8) ? KQ : KS);
  Solver s(kd, n, m, p.ht); s.b->setOptions(presetOptions(preset));
  int_t nw = bigWSR(p); returnValue rv = s.init(p, nw); char where[64], ex[96]; bool guessed = false; vec x, y, x2, y2; int steps = r.range(5, R().thorough ? 60 : 25); uint64_t h = probSig(p); int changes = 0;
  for (int k = 0; k <= steps; ++k) {
    snprintf(where, sizeof where, "%s", CL[cls]); snprintf(ex, sizeof ex, "step %d preset %d", k, preset);
    if (rv == SUCCESSFUL_RETURN) { if (k) add("hotstarts_ok"); changes += (int)nw; add("iterations", nw); checkKkt(where, p, s, tol, ex);
      if (k % 5 == 4 && must) { Solver c(kd, n, m, p.ht); c.b->setOptions(presetOptions(preset)); int_t w2 = bigWSR(p); if (c.init(p, w2) == SUCCESSFUL_RETURN) { s.sol(x, y); c.sol(x2, y2); double d = maxDiff(&x[0], &x2[0], n); smax("hot_vs_cold", d); add("cold_compared"); if (!(d <= (loose ? 1e-4 : 1e-6))) { viol("hot-vs-cold", "hotstart x differs from cold start x by %.2e %s", d, ex); dumpProb(p); } } } }
    else { add("unsolved"); if (must && !(guessed && loose && rv == RET_MAX_NWSR_REACHED)) { /* without ramping a guess with zero multipliers may cycle */ char key[64]; snprintf(key, sizeof key, "unsolved-%s", CL[cls]); viol(key, "ret=%d infeas=%d unb=%d %s n=%d m=%d %s", (int)rv, (int)s.b->isInfeasible(), (int)s.b->isUnbounded(), kindName(kd), n, m, ex); dumpProb(p); return; }
      // a degenerate member may be given up: start over and go on
      s.b->reset(); s.b->setHessianType(p.ht); nextVectors(r, p, o); nw = bigWSR(p); rv = s.init(p, nw); continue; }
    if (k == steps) break;
    nextVectors(r, p, o); h = mix(h, probSig(p)); nw = bigWSR(p);
    if (r.chance(0.15)) { p.drop(r.chance(0.7) ? (1 << r.range(0, 3)) : r.range(1, 15)); add("omitted_vectors"); } // omitted vectors mean infinite limits
    const double* a[4] = {p.lbp(), p.ubp(), p.lbAp(), p.ubAp()};
    int gm = r.range(0, 19); guessed = gm == 0;
    if (gm == 0 && kd != KB) { Bounds gb(n); Constraints gc(m); for (int i = 0; i < n; ++i) gb.setupBound(i, r.chance(0.5) ? ST_INACTIVE : (r.chance(0.5) ? ST_LOWER : ST_UPPER)); for (int i = 0; i < m; ++i) gc.setupConstraint(i, r.chance(0.7) ? ST_INACTIVE : (r.chance(0.5) ? ST_LOWER : ST_UPPER)); rv = s.q->hotstart(&p.g[0], a[0], a[1], a[2], a[3], nw, 0, &gb, &gc); add("guessed_hotstarts"); snprintf(where, sizeof where, "guess"); }
    else if (gm == 0) { Bounds gb(n); for (int i = 0; i < n; ++i) gb.setupBound(i, r.chance(0.5) ? ST_INACTIVE : (r.chance(0.5) ? ST_LOWER : ST_UPPER)); rv = s.b->hotstart(&p.g[0], a[0], a[1], nw, 0, &gb); add("guessed_hotstarts"); }
    else if (gm == 1) { double cpu = 1e3; rv = s.hot(&p.g[0], a[0], a[1], a[2], a[3], nw, &cpu); if (!(cpu >= 0 && cpu < 1e3)) viol("cputime", "reported cpu time %g", cpu); }
    else rv = s.hot(&p.g[0], a[0], a[1], a[2], a[3], nw);
  }
  if (changes > 0) sig(h);
  sample("class=%s kind=%s preset=%d n=%d m=%d steps=%d working-set changes=%d", CL[cls], kindName(kd), preset, n, m, steps, changes);
}
int main(int c, char** v) { varyOptions(); return runMain(c, v, run); }
