// Iteration and time limits: honoured, reported, and every interrupted solve can be resumed.
#include "common.hpp"
#include <list>
using namespace vf;
// injected clock: every reading of the time of day advances by a fixed tick
static long long clk = 0, tick = 0, readings = 0;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { clk += tick; ++readings; if (tv) { tv->tv_sec = 1000 + clk / 1000000; tv->tv_usec = clk % 1000000; } return 0; }
static int slackTicks() { return OV().near ? 66 : 6; } // rounds of far bounds: a few clock readings between them are not accounted for
static const char* CL[] = {"generic", "large", "tiny", "integer", "degenerate", "bounds", "equalities", "wide"};
struct Ctx { int cls, preset; bool must, loose; double tol; Kind kd; GenOpt o; };
static void judge(const char* where, const Ctx& c, const Prob& p, Solver& s, const char* ex) { add("solved_checked"); char w[64]; snprintf(w, sizeof w, "%s-%s", where, CL[c.cls]); checkKkt(w, p, s, c.tol, ex); coherentSets(where, s); }
// goes on with small limits until solved; returns the last code
static returnValue resume(const char* where, Ctx& c, std::list<Prob>& keep, Prob*& p, Solver& s, Rng& r, returnValue rv, bool changeData, int& total) {
  int guard = 0; while (rv == RET_MAX_NWSR_REACHED && ++guard < 600) {
    coherentSets(where, s); if (s.b->isSolved() == BT_TRUE || s.b->getStatus() == QPS_SOLVED || s.b->isInfeasible() == BT_TRUE || s.b->isUnbounded() == BT_TRUE) viol("limit-flags", "%s: interrupted, but solved=%d infeasible=%d unbounded=%d", where, (int)s.b->isSolved(), (int)s.b->isInfeasible(), (int)s.b->isUnbounded());
    if (getSimpleStatus(rv) != 1) viol("limit-simple-status", "simple status %d", (int)getSimpleStatus(rv));
    if (changeData && r.chance(0.2)) { keep.push_back(*p); p = &keep.back(); p->H = keep.front().H; p->A = keep.front().A; nextVectors(r, *p, c.o); changeData = guard < 20; }
    int_t lim = guard > 60 ? bigWSR(*p) : r.range(0, guard > 20 ? 6 : 2), nw = lim; double cpu = 1e3, *cp = r.chance(0.1) ? &cpu : 0;
    if (c.kd == KS && r.chance(0.15)) { rv = s.s->hotstart(keep.front().Hp(), &p->g[0], keep.front().Ap(), p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), nw, cp); } else rv = s.hot(*p, nw, cp);
    add("resumptions"); if (nw < 0 || nw > lim) viol("limit-exceeded", "%s: %d of at most %d changes (ret %d)", where, (int)nw, (int)lim, (int)rv); total += (int)nw; }
  return rv;
}
// many regularisation steps with a noticeable regularisation: each of them changes the working set, the limits hold for all of them together
static void regsteps(long idx, Rng& r) {
  tag("regularisation-steps"); GenOpt o; o.nmin = 2; o.nmax = 8; o.mmax = 8; Prob p; genFeasible(r, p, o); int n = p.n, m = p.m; std::fill(p.H.begin(), p.H.end(), 0.0); bool zero = r.chance(0.5); if (!zero) { vec v(n); for (int l = r.range(1, n - 1); l > 0; --l) { for (int i = 0; i < n; ++i) v[i] = r.nrm(); for (int i = 0; i < n * n; ++i) p.H[i] += v[i / n] * v[i % n]; } } for (int i = 0; i < n; ++i) { if (isInfLo(p.lb[i])) p.lb[i] = std::min(isInfUp(p.ub[i]) ? 0.0 : p.ub[i], 0.0) - r.uni(3, 6); if (isInfUp(p.ub[i])) p.ub[i] = std::max(p.lb[i], 0.0) + r.uni(3, 6); }
  Kind kd = m == 0 && r.chance(0.7) ? KB : (r.chance(0.7) ? KQ : KS); HessianType ht = zero ? HST_ZERO : HST_SEMIDEF; int preset = r.range(2, 6); Options op = presetOptions(preset); op.enableFarBounds = BT_FALSE; op.enableRegularisation = BT_TRUE; op.numRegularisationSteps = r.range(2, 60); op.epsRegularisation = std::pow(10.0, r.uni(-5.0, 0.0)); int N = -1;
  for (int rep = 0; rep < 5; ++rep) { Solver s(kd, n, m, ht); s.b->setOptions(op); debugPrint(s); vec gh; int hot = r.range(0, 1); if (hot && rep > 0) { int_t nw = bigWSR(p); tick = 0; if (s.init(zero ? 0 : &p.H[0], &p.g[0], p.Ap(), p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw) != SUCCESSFUL_RETURN) { add("regsteps_unsolved"); continue; } vec g2(p.g); for (int i = 0; i < n; ++i) g2[i] += r.nrm(); gh = g2; } else hot = 0;
    int_t lim = 20 * bigWSR(p), nw; bool limited = rep > 0 && r.chance(0.4) && N > 0 && !hot; if (limited) lim = r.range(0, N + 1); nw = lim; int bt = r.range(0, 60); double budget, cpu, *cp = 0; tick = 0; if (rep > 0 && !limited) { tick = r.range(1, 1000); budget = cpu = 1e-6 * (double)tick * bt; cp = &cpu; } double tk = 1e-6 * (double)tick; long long c0 = clk;
    returnValue rv = hot ? s.hot(&gh[0], p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw, cp) : s.init(zero ? 0 : &p.H[0], &p.g[0], p.Ap(), p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw, cp); tick = 0; double used = 1e-6 * (double)(clk - c0); add("regsteps_calls"); if (rep == 0 && rv == SUCCESSFUL_RETURN) { N = (int)nw; add("regsteps_changes", N); }
    if (nw < 0 || nw > lim) viol("regsteps-limit", "%d of at most %d changes (ret %d) steps %d %s", (int)nw, (int)lim, (int)rv, (int)op.numRegularisationSteps, kindName(kd));
    if (limited) { add("regsteps_limited"); if (rv == SUCCESSFUL_RETURN ? (int)nw != N : lim > N) viol("regsteps-path", "limit %d: %d changes, ret %d, unlimited %d, steps %d", (int)lim, (int)nw, (int)rv, N, (int)op.numRegularisationSteps); }
    if (cp) { add(rv == SUCCESSFUL_RETURN ? "regsteps_in_time" : "regsteps_timed_out"); if (!(cpu >= -1e-9) || cpu > used + 1e-6 || cpu < used - (6 + op.numRegularisationSteps) * tk - 1e-6) viol("regsteps-report", "reported %g s, clock advanced %g s", cpu, used); smax("regsteps_overrun_ticks", (used - 2 * budget) / tk); if (used > 2 * budget + 16 * tk) /* every step leaves one reading of this clock unaccounted for */ viol("regsteps-overrun", "budget %g s, used %g s (%.0f ticks more), ret %d, steps %d, %d changes %s", budget, used, (used - budget) / tk, (int)rv, (int)op.numRegularisationSteps, (int)nw, kindName(kd)); } }
  sig(probSig(p)); sample("regularisation steps: %d changes n=%d m=%d %s", N, n, m, kindName(kd));
}
static void run(long idx, Rng& r) {
  if (idx % 11 == 6) { regsteps(idx, r); return; }
  Ctx c; c.cls = (int)(idx % 8); c.preset = r.range(0, 6); c.loose = looseOpts(c.preset); c.tol = c.loose ? 2e-6 : 1e-8; c.must = true; GenOpt& o = c.o;
  switch (c.cls) { case 1: o.nmin = 6; o.nmax = 18; o.mmax = 26; break; case 2: o.nmax = 3; o.mmax = 3; break; case 3: o.integer = true; o.nmax = 6; o.mmax = 8; o.pWeak = 0.2; c.must = false; break; case 4: o.dupRows = true; o.pWeak = 0.3; o.nmax = 7; c.must = false; if (c.loose) c.tol = 1e-2; break; case 5: o.mmax = 0; break; case 6: o.pEq = 0.8; break; case 7: o.pInf = 0.8; break; }
  tag(CL[c.cls]); std::list<Prob> keep; keep.push_back(Prob()); genFeasible(r, keep.front(), o); int n = keep.front().n, m = keep.front().m; c.kd = m == 0 && r.chance(0.7) ? KB : (r.chance(0.7) ? KQ : KS); Prob& p0 = keep.front(); char ex[96]; tick = 0;
  // reference: how many changes does the unlimited solve need?
  int N; returnValue rv; { Solver s(c.kd, n, m, p0.ht); s.b->setOptions(presetOptions(c.preset)); int_t nw = bigWSR(p0); rv = s.init(p0, nw); N = (int)nw; if (rv != SUCCESSFUL_RETURN) { add("reference_unsolved"); if (c.must) { viol("reference-unsolved", "ret %d class %s preset %d", (int)rv, CL[c.cls], c.preset); dumpProb(p0); } return; } judge("reference", c, p0, s, ""); }
  if (N > 0) sig(mix(probSig(p0), (uint64_t)c.preset)); add("reference_changes", N); int maxk = R().thorough ? N + 2 : std::min(N + 2, 8); int interruptions = 0, shifted = r.range(0, 1);
  for (int q = 0; q <= maxk; ++q) { // every limit (quick: 0..5 and a sample), including the exact one
    int k = maxk == N + 2 ? q : (q < 5 ? q + shifted : (q == maxk ? N + 2 : (q == maxk - 1 ? N + 1 : r.range(0, N))));
    Solver s(c.kd, n, m, p0.ht); s.b->setOptions(presetOptions(c.preset)); int_t nw = k; double cpu = 1e3, *cp = r.chance(0.2) ? &cpu : 0; rv = s.init(p0, nw, cp); snprintf(ex, sizeof ex, "limit %d of %d preset %d", k, N, c.preset); add("limits_tried");
    if (nw < 0 || nw > k) viol("limit-exceeded", "init performed %d of at most %d changes (ret %d)", (int)nw, k, (int)rv);
    if (rv == SUCCESSFUL_RETURN) { if ((int)nw != N) viol("limit-path", "limit %d: solved with %d changes, unlimited solve needs %d", k, (int)nw, N); judge("limited", c, p0, s, ex); }
    else if (k > N) { viol("limit-spurious", "limit %d but %d changes suffice: ret %d", k, N, (int)rv); }
    else if (rv != RET_MAX_NWSR_REACHED) { viol("limit-code", "limit %d of %d: ret %d instead of the limit code", k, N, (int)rv); }
    else { ++interruptions; add("interrupted"); int total = (int)nw; Prob* p = &p0; bool change = r.chance(0.4); rv = resume("resumed", c, keep, p, s, r, rv, change, total);
      if (rv == SUCCESSFUL_RETURN) { add("resumed_solved"); judge("resumed", c, *p, s, ex); }
      else { add("resumed_unsolved"); if (c.must) { char key[64]; snprintf(key, sizeof key, "resume-failed-%s", CL[c.cls]); viol(key, "ret %d after %d changes, %s %s changed=%d", (int)rv, total, ex, kindName(c.kd), (int)change); dumpProb(*p); } continue; }
      // go on with a hotstart that is interrupted as well
      keep.push_back(*p); p = &keep.back(); nextVectors(r, *p, o); int_t lim = r.range(0, 3); nw = lim; rv = s.hot(*p, nw); if (nw < 0 || nw > lim) viol("limit-exceeded", "hotstart performed %d of at most %d (ret %d)", (int)nw, (int)lim, (int)rv);
      if (rv == RET_MAX_NWSR_REACHED) { add("interrupted_hotstarts"); rv = resume("resumedhot", c, keep, p, s, r, rv, r.chance(0.3), total); }
      if (rv == SUCCESSFUL_RETURN) judge("resumedhot", c, *p, s, ex); else if (c.must) { char key[64]; snprintf(key, sizeof key, "resumehot-failed-%s", CL[c.cls]); viol(key, "ret %d, %s %s", (int)rv, ex, kindName(c.kd)); dumpProb(*p); } } }
  // time limits under an injected clock
  for (int rep = 0; rep < 3; ++rep) {
    Solver s(c.kd, n, m, p0.ht); s.b->setOptions(presetOptions(c.preset)); tick = r.range(1, 1000); int budgetTicks = r.range(0, 2 * N + 6); if (rep == 2) budgetTicks = 20 * N + 100; double cpu = 1e-6 * (double)tick * budgetTicks; if (r.chance(0.1)) cpu = -cpu; double budget = cpu; int_t big = bigWSR(p0), nw = big; long long c0 = clk; rv = s.init(p0, nw, &cpu); long long used = clk - c0; double usedS = 1e-6 * (double)used, tk = 1e-6 * (double)tick; tick = 0; add("time_limits_tried");
    if (!(cpu >= -1e-9) || cpu > usedS + 1e-6) viol("time-report", "reported %g s, clock advanced %g s", cpu, usedS); else if (cpu < usedS - slackTicks() * tk - 1e-6) viol("time-report", "reported %g s of %g s", cpu, usedS);
    if (rv == SUCCESSFUL_RETURN) { if ((int)nw != N) viol("limit-path", "time limit: solved with %d changes, needs %d", (int)nw, N); judge("timed", c, p0, s, ""); if (budgetTicks < N && N > 12 && (c.preset >= 4 || c.preset < 0)) viol("time-overrun", "needs %d iterations, budget of %d clock readings, but solved", N, budgetTicks); }
    else if (rv == RET_MAX_NWSR_REACHED) { add("timed_out"); if (rep == 2 && budget > 0) viol("time-spurious", "budget %g s, used %g s, but stopped after %d of %d", budget, usedS, (int)nw, N); if (nw >= big || nw > N) viol("time-count", "reports %d changes", (int)nw);
      smax("overrun_ticks", (usedS - std::max(budget, 0.0)) / tk); if (usedS > std::max(budget, 0.0) + 12 * tk) viol("time-overrun", "budget %g s, used %g s (%d changes)", budget, usedS, (int)nw);
      int total = 0; Prob* p = &p0; rv = resume("resumedtime", c, keep, p, s, r, rv, false, total); if (rv == SUCCESSFUL_RETURN) { add("timed_resumed"); judge("resumedtime", c, *p, s, ""); } else if (c.must) { char key[64]; snprintf(key, sizeof key, "resumetime-failed-%s", CL[c.cls]); viol(key, "ret %d preset %d %s", (int)rv, c.preset, kindName(c.kd)); dumpProb(*p); } }
    else viol("time-code", "budget %g s: ret %d", budget, (int)rv);
  }
  // a hotstart with a time limit on a solved object, vector-only or with matrices
  { Solver s(c.kd, n, m, p0.ht); s.b->setOptions(presetOptions(c.preset)); int_t nw = bigWSR(p0); rv = s.init(p0, nw); Prob* p = &p0; int total = 0;
    for (int rep = 0; rep < 3 && rv == SUCCESSFUL_RETURN; ++rep) { keep.push_back(*p); p = &keep.back(); nextVectors(r, *p, o); tick = r.range(1, 1000); int bt = r.range(0, 12); double budget = 1e-6 * (double)tick * bt, cpu = budget; int_t big = bigWSR(p0); nw = big; long long c0 = clk; bool hm = c.kd == KS && r.chance(0.5); rv = hm ? s.s->hotstart(p0.Hp(), &p->g[0], p0.Ap(), p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), nw, &cpu) : s.hot(*p, nw, &cpu);
      double usedS = 1e-6 * (double)(clk - c0), tk = 1e-6 * (double)tick; tick = 0; add("hot_time_limits_tried"); if (!(cpu >= -1e-9) || cpu > usedS + 1e-6 || cpu < usedS - slackTicks() * tk - 1e-6) viol("time-report-hot", "reported %g s, clock advanced %g s", cpu, usedS);
      if (rv == RET_MAX_NWSR_REACHED) { add("hot_timed_out"); if (nw >= big) viol("time-count", "reports %d changes", (int)nw); if (usedS > budget + 12 * tk) viol("time-overrun-hot", "budget %g s, used %g s (%d changes)", budget, usedS, (int)nw); rv = resume("resumedtime", c, keep, p, s, r, rv, r.chance(0.3), total); }
      if (rv == SUCCESSFUL_RETURN) judge("timedhot", c, *p, s, ""); else if (c.must) { char key[64]; snprintf(key, sizeof key, "timedhot-failed-%s", CL[c.cls]); viol(key, "ret %d preset %d %s", (int)rv, c.preset, kindName(c.kd)); dumpProb(*p); } } }
  tick = 0; sample("class=%s kind=%s preset=%d n=%d m=%d unlimited=%d changes, interrupted %d times", CL[c.cls], kindName(c.kd), c.preset, n, m, N, interruptions);
}
int main(int c, char** v) { varyOptions(); return runMain(c, v, run); }
