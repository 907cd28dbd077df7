// Sequences with changing Hessian and constraint matrices (SQProblem): every step solves its own QP.
#include "common.hpp"
#include <list>
using namespace vf;
static const char* CL[] = {"generic", "large", "tiny", "integer", "degenerate", "bounds", "drift", "structure"};
// successor matrices around the same dimensions
static void nextMatrices(Rng& r, Prob& p, const GenOpt& o0, int cls) {
  int n = p.n, m = p.m; GenOpt o = o0; Prob f; f.n = n; f.m = m; double u = r.u01();
  if (cls == 6 || (u < 0.35 && cls != 7)) { // small drift of both matrices, H stays positive definite
    double s = r.chance(0.5) ? 0.02 : 0.2; vec v(n); for (int i = 0; i < n; ++i) v[i] = s * r.nrm(); if (o.integer) for (int i = 0; i < n; ++i) v[i] = r.range(-1, 1);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) p.H[i * n + j] += v[i] * v[j];
    if (!o.dupRows && !o.integer) for (size_t k = 0; k < p.A.size(); ++k) if (p.A[k] != 0) p.A[k] += 0.5 * s * r.nrm();
    if (r.chance(0.3)) { double f1 = r.uni(0.8, 1.25); for (size_t k = 0; k < p.H.size(); ++k) p.H[k] *= o.integer ? 1.0 : f1; } }
  else { // fresh matrices: also of another structure (diagonal, identity, sparse)
    if (r.chance(0.7)) { genH(r, f, o); p.H = f.H; p.mu = f.mu; } if (r.chance(0.7) && m) { genA(r, f, o); p.A = f.A; }
    if (m && r.chance(0.1)) { int c = r.range(0, m - 1); for (int j = 0; j < n; ++j) p.A[c * n + j] = 0; p.A[c * n + r.range(0, n - 1)] = 1; } }
  p.ht = HST_UNKNOWN;
}
static void run(long idx, Rng& r) {
  GenOpt o; int cls = (int)(idx % 8); bool must = true; int preset = r.range(0, 6); bool loose = looseOpts(preset); double tol = loose ? 2e-6 : 1e-8;
  switch (cls) { case 1: o.nmin = 8; o.nmax = 20; o.mmax = 30; break; case 2: o.nmax = 3; o.mmax = 4; break; case 3: o.integer = true; o.nmax = 6; o.mmax = 8; o.pWeak = 0.2; must = false; break; case 4: o.dupRows = true; o.pWeak = 0.3; o.nmax = 7; must = false; break; case 5: o.mmax = 0; break; default: break; }
  if (cls == 4 && loose) tol = 1e-2; tag(CL[cls]); o.pEq = r.chance(0.5) ? 0.15 : 0.4;
  std::list<Prob> hist; hist.push_back(Prob()); genFeasible(r, hist.back(), o); hist.back().ht = HST_UNKNOWN; int n = hist.back().n, m = hist.back().m;
  Solver s(KS, n, m, HST_UNKNOWN); s.b->setOptions(presetOptions(preset)); Prob* p = &hist.back(); // matrices stay alive as long as the object
  int_t nw = bigWSR(*p); returnValue rv = s.init(*p, nw); char where[64], ex[96]; int steps = r.range(4, R().thorough ? 40 : 18), changes = 0; uint64_t h = probSig(*p); vec x, y, x2, y2; const char* kind = "init"; double* Hm = 0;
  for (int k = 0; k <= steps; ++k) {
    snprintf(where, sizeof where, "%s-%s", kind, CL[cls]); snprintf(ex, sizeof ex, "step %d preset %d", k, preset);
    if (rv == SUCCESSFUL_RETURN) { add(kind); changes += (int)nw; add("iterations", nw); bool ok = checkKkt(where, *p, s, tol, ex);
      if (ok && cls != 4) { double ov = s.b->getObjVal(); s.sol(x, y); ld ob = objective(*p, &x[0]), mag = 1; for (int i = 0; i < n; ++i) { mag += std::fabs(p->g[i] * x[i]); for (int j = 0; j < n; ++j) mag += std::fabs(0.5 * p->H[i * n + j] * x[i] * x[j]); } if (!(fabsl(ov - ob) <= (loose ? 1e-6 : 1e-8) * mag)) { viol("objective", "getObjVal %.12g, objective %.12Lg %s %s", ov, ob, where, ex); dumpProb(*p); } }
      if (k % 4 == 3 && must) { Solver c(KQ, n, m); c.b->setOptions(presetOptions(preset)); int_t w2 = bigWSR(*p); if (c.init(*p, w2) == SUCCESSFUL_RETURN) { s.sol(x, y); c.sol(x2, y2); double d = maxDiff(&x[0], &x2[0], n); smax("hot_vs_cold", d); add("cold_compared"); if (!(d <= (loose ? 1e-4 : 1e-6))) { viol("hot-vs-cold", "hotstart x differs from cold start x by %.2e %s", d, ex); dumpProb(*p); } } } }
    else { add("unsolved"); if (must) { char key[96]; snprintf(key, sizeof key, "unsolved-%s", where); viol(key, "ret=%d infeas=%d unb=%d n=%d m=%d %s", (int)rv, (int)s.b->isInfeasible(), (int)s.b->isUnbounded(), n, m, ex); dumpProb(*p); return; }
      s.b->reset(); hist.push_back(*p); p = &hist.back(); p->omit = 0; nextVectors(r, *p, o); nw = bigWSR(*p); kind = "init"; rv = s.init(*p, nw); continue; }
    if (k == steps) break;
    Prob* old = p; bool change = r.chance(0.7); int mode = r.range(0, 9); hist.push_back(*p); p = &hist.back(); p->omit = 0;
    if (change) { nextMatrices(r, *p, o, cls); if (mode < 4) genVectors(r, *p, o); else { // matrices change while the vectors stay: only if a known point stays feasible
        genVectors(r, *p, o); if (mode < 7 && old->omit == 0) { vec xo, yo; s.sol(xo, yo); for (int i = 0; i < n; ++i) { p->lb[i] = old->lb[i]; p->ub[i] = old->ub[i]; } for (int c = 0; c < m; ++c) { double v = 0; for (int j = 0; j < n; ++j) v += p->A[c * n + j] * xo[j]; p->lbA[c] = old->lbA[c]; p->ubA[c] = old->ubA[c]; if (p->lbA[c] > v - 0.05) p->lbA[c] = v - 0.05; if (p->ubA[c] < v + 0.05) p->ubA[c] = v + 0.05; } if (r.chance(0.5)) p->g = old->g; } } }
    else nextVectors(r, *p, o);
    if (!change && r.chance(0.15)) { p->drop(r.chance(0.7) ? (1 << r.range(0, 3)) : r.range(1, 15)); add("omitted_vectors"); }
    h = mix(h, probSig(*p)); nw = bigWSR(*p); double cpu = 1e3, *cp = r.chance(0.2) ? &cpu : 0;
    if (change || r.chance(0.2)) { kind = "changed"; if (r.chance(0.1)) { Bounds gb(n); Constraints gc(m); for (int i = 0; i < n; ++i) gb.setupBound(i, ST_INACTIVE); for (int i = 0; i < m; ++i) gc.setupConstraint(i, ST_INACTIVE); kind = "changed_guess"; rv = s.s->hotstart(&p->H[0], &p->g[0], p->Ap(), p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), nw, cp, &gb, &gc); } else rv = s.s->hotstart(&p->H[0], &p->g[0], p->Ap(), p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), nw, cp); Hm = &p->H[0]; }
    else { kind = "vectors"; p->H = hist.begin()->H.size() ? p->H : p->H; rv = s.hot(*p, nw, cp); }
    if (cp && !(cpu >= 0 && cpu < 1e3)) viol("cputime", "reported cpu time %g (%s)", cpu, kind);
  }
  (void)Hm; if (changes > 0) sig(h); sample("class=%s preset=%d n=%d m=%d steps=%d working-set changes=%d", CL[cls], preset, n, m, steps, changes);
}
int main(int c, char** v) { varyOptions(); return runMain(c, v, run); }
