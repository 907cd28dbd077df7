// Initial guesses influence the path, never the answer.
#include "common.hpp"
#include <string>
using namespace vf;
static const char* CL[] = {"known", "feasible", "bounds", "equalities", "large"};
static bool chol(const Prob& p, vec& Rm) { int n = p.n; Rm.assign((size_t)n * n + 1, 0.0); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { ld s = p.H[i * n + j]; for (int k = 0; k < i; ++k) s -= (ld)Rm[k * n + i] * Rm[k * n + j]; if (i == j) { if (!(s > 0)) return false; Rm[i * n + i] = (double)sqrtl(s); } else Rm[i * n + j] = (double)(s / Rm[i * n + i]); } for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) Rm[i * n + j] = 0; return true; }
static SubjectToStatus rst(Rng& r, double pin) { return r.chance(pin) ? ST_INACTIVE : (r.chance(0.5) ? ST_LOWER : ST_UPPER); }
struct Guess { bool hx, hy, hb, hc, hr, exact; vec x, y, R; Bounds gb; Constraints gc; char txt[120]; Guess() : hx(false), hy(false), hb(false), hc(false), hr(false), exact(false) {} };
// builds one guess; xs,ys: the optimum; B,C: its working set
static void make(Rng& r, const Prob& p, const vec& xs, const vec& ys, const Bounds& B, const Constraints& C, bool hot, Guess& g) {
  int n = p.n, m = p.m; std::string t; int mode = r.range(0, 9); g.gb.init(n); g.gc.init(m);
  if (mode == 0) { g.exact = true; g.hx = g.hy = true; g.hb = g.hc = r.chance(0.7); g.x = xs; g.y = ys; g.gb = B; g.gc = C; snprintf(g.txt, sizeof g.txt, "exact%s", g.hb ? "+ws" : ""); return; }
  if (mode == 1 && !hot) { g.hr = chol(p, g.R); snprintf(g.txt, sizeof g.txt, "R"); if (r.chance(0.3)) { g.hx = true; g.x = xs; strcat(g.txt, "+x"); } return; }
  int xk = hot ? 0 : r.range(0, 5), yk = hot ? 0 : r.range(0, 5), bk = r.range(hot ? 1 : 0, 5); g.x.assign(n, 0.0); g.y.assign(n + m, 0.0);
  if (xk) { g.hx = true; for (int i = 0; i < n; ++i) g.x[i] = xk == 1 ? xs[i] : (xk == 2 ? xs[i] + 0.1 * r.nrm() : (xk == 3 ? 2 * r.nrm() : (xk == 4 ? 50 * r.nrm() : 0.0))); if (xk == 3 && r.chance(0.5)) for (int i = 0; i < n; ++i) { if (g.x[i] < p.lb[i]) g.x[i] = p.lb[i]; if (g.x[i] > p.ub[i]) g.x[i] = p.ub[i]; } }
  if (yk) { g.hy = true; for (int i = 0; i < n + m; ++i) g.y[i] = yk == 1 ? ys[i] : (yk == 2 ? ys[i] * r.uni(0.5, 2) : (yk == 3 ? (r.chance(0.7) ? 0.0 : r.nrm()) : (yk == 4 ? -ys[i] : (r.chance(0.5) ? 0.0 : 20 * r.nrm())))); }
  if (bk) { g.hb = true; double pin = r.uni(0.1, 0.95); for (int i = 0; i < n; ++i) { SubjectToStatus s = bk == 1 ? B.getStatus(i) : (bk == 2 ? (r.chance(0.8) ? B.getStatus(i) : rst(r, pin)) : (bk == 3 ? ST_INACTIVE : (bk == 4 ? ST_LOWER : rst(r, pin)))); g.gb.setupBound(i, s); } g.hc = m > 0 && r.chance(0.8); int ck = r.chance(0.6) ? bk : r.range(1, 5); for (int i = 0; i < m; ++i) { SubjectToStatus s = ck == 1 ? C.getStatus(i) : (ck == 2 ? (r.chance(0.8) ? C.getStatus(i) : rst(r, pin)) : (ck == 3 ? ST_INACTIVE : (ck == 4 ? ST_LOWER : rst(r, pin)))); g.gc.setupConstraint(i, s); }
    if (r.chance(0.1)) { g.hb = false; g.hc = m > 0; } }
  snprintf(g.txt, sizeof g.txt, "x%d y%d ws%d%s%s", g.hx ? xk : 0, g.hy ? yk : 0, g.hb || g.hc ? bk : 0, g.hb ? "b" : "", g.hc ? "c" : "");
}
static void run(long idx, Rng& r) {
  int cls = (int)(idx % 5), preset = r.range(0, 6); bool loose = looseOpts(preset); tag(CL[cls]); GenOpt o; o.nmax = 8; o.mmax = 10; if (cls == 2) o.mmax = 0; if (cls == 3) { o.pEq = 0.6; } if (cls == 4) { o.nmin = 6; o.nmax = 18; o.mmax = 24; }
  Prob p; if (cls == 1 || (cls == 3 && r.chance(0.5))) genFeasible(r, p, o); else genKnown(r, p, o); int n = p.n, m = p.m; Kind kd = m == 0 && r.chance(0.7) ? KB : (r.chance(0.7) ? KQ : KS); double tol = loose ? 1e-5 : 1e-7; int init0 = r.chance(0.3) ? r.range(0, 2) : 3;
  Options op = presetOptions(preset); if (init0 < 3) op.initialStatusBounds = init0 == 0 ? ST_LOWER : (init0 == 1 ? ST_UPPER : ST_INACTIVE);
  Solver ref(kd, n, m, p.ht); ref.b->setOptions(op); int_t n0 = bigWSR(p); if (ref.init(p, n0) != SUCCESSFUL_RETURN) { add("reference_unsolved"); return; } vec xs, ys, x, y; ref.sol(xs, ys); Bounds B; ref.b->getBounds(B); Constraints C; if (ref.q) ref.q->getConstraints(C); else C.init(0); int used = 0;
  vec R0; 
  for (int k = 0; k < 10; ++k) {
    Guess g; make(r, p, xs, ys, B, C, false, g); Solver s(kd, n, m, p.ht); s.b->setOptions(op); int_t nw = bigWSR(p); vec xb = g.x, yb = g.y, Rb = g.R; double cpu = 1e3;
    if (kd == KB) g.hc = false; bool excluded = (!g.hx && g.hy && (g.hb || g.hc)) || (g.hr && (g.hx || g.hy || g.hb)); // combinations the interface excludes
    returnValue rv = s.init(p.Hp(), &p.g[0], p.Ap(), p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw, r.chance(0.2) ? &cpu : 0, g.hx ? &g.x[0] : 0, g.hy ? &g.y[0] : 0, g.hb ? &g.gb : 0, g.hc ? &g.gc : 0, g.hr ? &g.R[0] : 0); add("guessed_inits"); char ex[220]; snprintf(ex, sizeof ex, "%s guess %s preset %d initialStatus %d", CL[cls], g.txt, preset, init0); char key[80]; const char* fam = g.exact ? "exact" : (g.hr ? "R" : (g.hx && g.hy ? "xy" : (g.hx ? "x" : (g.hy ? "y" : (g.hb || g.hc ? "ws" : "none"))))); snprintf(key, sizeof key, "init-%s", fam);
    if (excluded) { add("excluded_combinations"); if (rv == SUCCESSFUL_RETURN || s.b->isSolved() == BT_TRUE) viol("excluded", "ret %d solved %d %s %s", (int)rv, s.b->isSolved(), kindName(kd), ex); nw = bigWSR(p); rv = s.init(p, nw); if (rv == SUCCESSFUL_RETURN) checkKkt("after-excluded", p, s, tol, ex); else viol("after-excluded", "ret %d %s", (int)rv, ex); continue; }
    if ( rv != SUCCESSFUL_RETURN) { add("unsolved"); bool verdict = s.b->isInfeasible() == BT_TRUE || s.b->isUnbounded() == BT_TRUE; 
      snprintf(key, sizeof key, "%s-%s", verdict ? "verdict" : "unsolved", fam); if (verdict || !(rv == RET_MAX_NWSR_REACHED && loose)) { viol(key, "ret %d infeasible %d unbounded %d %s n=%d m=%d %s", (int)rv, s.b->isInfeasible(), s.b->isUnbounded(), kindName(kd), n, m, ex); dumpProb(p); } else add("loose_cycles"); continue; }
    add("solved"); if (!checkKkt(key, p, s, tol, ex)) continue; s.sol(x, y); double d = maxDiff(&x[0], &xs[0], n); smax("x-difference", d); add("compared"); if (!(d <= (loose ? 1e-3 : 1e-6) / std::min(1.0, p.mu))) { snprintf(key, sizeof key, "answer-%s", fam); viol(key, "x differs by %.2e %s n=%d m=%d %s", d, kindName(kd), n, m, ex); dumpProb(p); }
    coherent(key, p, s, loose ? 1e-5 : 1e-7, loose ? 1e-5 : 1e-7, true, ex); if (nw > 0) ++used;
    if (g.exact) { add("exact_guesses"); if (nw > n0 && nw > 0) { viol("exact-iterations", "%d iterations with the exact solution as guess, %d without: %s %s n=%d m=%d", (int)nw, (int)n0, ex, kindName(kd), n, m); dumpProb(p); } if (nw == 0) add("exact_zero_iterations"); }
    if (g.hx && xb != g.x || g.hy && yb != g.y || Rb != g.R) viol("guess-modified", "%s", ex); if (g.hr) add("factors");
    // guessed working sets in hotstarts on the same object
    for (int q = 0; q < 2 && r.chance(0.5); ++q) { Prob p2 = p; nextVectors(r, p2, o); Solver cold(kd, n, m, p.ht); cold.b->setOptions(op); int_t nc = bigWSR(p); if (cold.init(p2, nc) != SUCCESSFUL_RETURN) { add("reference_unsolved"); break; } vec x2, y2; cold.sol(x2, y2); Bounds B2; cold.b->getBounds(B2); Constraints C2; if (cold.q) cold.q->getConstraints(C2); else C2.init(0);
      Guess h; h.hb = true; make(r, p2, x2, y2, B2, C2, true, h); h.hb = true; if (kd == KB) h.hc = false; nw = bigWSR(p); rv = kd == KB ? s.b->hotstart(&p2.g[0], p2.lbp(), p2.ubp(), nw, 0, &h.gb) : s.q->hotstart(&p2.g[0], p2.lbp(), p2.ubp(), p2.lbAp(), p2.ubAp(), nw, 0, &h.gb, h.hc ? &h.gc : 0); add("guessed_hotstarts"); snprintf(ex, sizeof ex, "%s hot guess %s preset %d", CL[cls], h.txt, preset);
      if (rv != SUCCESSFUL_RETURN) { add("unsolved"); bool verdict = s.b->isInfeasible() == BT_TRUE || s.b->isUnbounded() == BT_TRUE; if (verdict || !(rv == RET_MAX_NWSR_REACHED && loose)) { viol(verdict ? "verdict-hot" : "unsolved-hot", "ret %d %s n=%d m=%d %s", (int)rv, kindName(kd), n, m, ex); dumpProb(p2); } else add("loose_cycles"); break; }
      add("solved"); add("hot_solved"); if (!checkKkt("hot", p2, s, tol, ex)) break; s.sol(x, y); d = maxDiff(&x[0], &x2[0], n); smax("x-difference-hot", d); if (!(d <= (loose ? 1e-3 : 1e-6) / std::min(1.0, p.mu))) { viol("answer-hot", "x differs by %.2e %s", d, ex); break; } coherent("hot", p2, s, loose ? 1e-5 : 1e-7, loose ? 1e-5 : 1e-7, true, ex); }
  }
  if (used) sig(mix(probSig(p), (uint64_t)preset)); sample("%s %s n=%d m=%d preset %d, %d iterations without guess", CL[cls], kindName(kd), n, m, preset, (int)n0);
}
int main(int c, char** v) { varyOptions(); return runMain(c, v, run); }
