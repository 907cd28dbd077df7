// The Schur-complement variant with a correct stand-in linear solver: histories judged by the KKT oracle, by a dense twin and by the
// working-set monitor; linear-solver failures injected at any call.
#include "reps.hpp"
#include "ma57_stub.hpp"
#include <deque>
using namespace vf;
static const char* CL[] = {"generic", "large", "tiny", "integer", "degenerate", "bounds", "drift", "structure", "verdict", "faults"};
enum { NCL = 10 };
static void nextMatrices(Rng& r, Prob& p, const GenOpt& o0, int cls, const std::vector<int>& act) {
  int n = p.n, m = p.m; GenOpt o = o0; Prob f; f.n = n; f.m = m; double u = r.u01();
  if (cls == 6 || (u < 0.35 && cls != 7)) { double s = r.chance(0.5) ? 0.02 : 0.2; vec v(n); for (int i = 0; i < n; ++i) v[i] = s * r.nrm(); if (o.integer) for (int i = 0; i < n; ++i) v[i] = r.range(-1, 1); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) p.H[i * n + j] += v[i] * v[j];
    if (!o.dupRows && !o.integer) for (size_t k = 0; k < p.A.size(); ++k) if (p.A[k] != 0) p.A[k] += 0.5 * s * r.nrm(); if (r.chance(0.3)) { double f1 = r.uni(0.8, 1.25); for (size_t k = 0; k < p.H.size(); ++k) p.H[k] *= o.integer ? 1.0 : f1; } }
  else { if (r.chance(0.7)) { genH(r, f, o); p.H = f.H; p.mu = f.mu; } if (r.chance(0.7) && m) { genA(r, f, o); p.A = f.A; } if (m && r.chance(0.1)) { int c = r.range(0, m - 1); for (int j = 0; j < n; ++j) p.A[c * n + j] = 0; p.A[c * n + r.range(0, n - 1)] = 1; } }
  if (cls == 4 && act.size() >= 2 && r.chance(0.6)) { /* two active rows become parallel */ int a = act[r.range(0, (int)act.size() - 1)], b = act[r.range(0, (int)act.size() - 1)]; if (a != b) { double f1 = r.chance(0.5) ? 1 : -0.5; for (int j = 0; j < n; ++j) p.A[b * n + j] = f1 * p.A[a * n + j]; add("made_dependent"); } }
  p.ht = HST_UNKNOWN; }
struct Run { std::deque<Mats> mats; bool sparse; Rng* r; const Prob* lastData; Mats* cur; Run() : sparse(false), r(0), cur(0) {}
  Mats& make(const Prob& p) { mats.emplace_back(); Mats& q = mats.back(); double pz = r->chance(0.5) ? 0 : r->uni(0, 0.4); q.setH(*r, p, r->chance(0.5) ? 3 : r->range(1, 4), pz); { int ka = r->chance(0.5) ? 3 : r->range(1, 6); q.setA(*r, p, ka == 4 || ka == 5 ? 3 : ka, pz); }; cur = &q; return q; }
  returnValue init(Solver& s, const Prob& p, int_t& nw, double* cpu, const double* x0, const double* y0, const Bounds* gb, const Constraints* gc) { if (!sparse) return s.q->init(&p.H[0], &p.g[0], p.Ap(), p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw, cpu, x0, y0, gb, gc); Mats& q = make(p); return s.q->init(q.H, &p.g[0], q.A, p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw, cpu, x0, y0, gb, gc); }
  returnValue hotM(Solver& s, const Prob& p, int_t& nw, double* cpu) { if (!sparse) return s.s->hotstart(&p.H[0], &p.g[0], p.Ap(), p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw, cpu); Mats& q = make(p); return s.s->hotstart(q.H, &p.g[0], q.A, p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw, cpu); } };
static void makeSchur(Solver& s, int n, int m, int ns) { s.kind = KS; s.n = n; s.m = m; s.b = s.q = s.s = new SQProblemSchur(n, m, HST_UNKNOWN, ns); }
static int schurMax(Rng& r) { double u = r.u01(); return u < 0.1 ? 0 : u < 0.25 ? 1 : u < 0.5 ? r.range(2, 4) : u < 0.75 ? r.range(5, 12) : 75; }
static void histories(Rng& r, int cls) {
  GenOpt o; bool must = true, fault = cls == 9; int preset = r.range(0, 6); bool loose = looseOpts(preset); double tol = loose ? 2e-6 : 1e-8;
  switch (cls) { case 1: o.nmin = 8; o.nmax = 20; o.mmax = 30; break; case 2: o.nmax = 3; o.mmax = 4; break; case 3: o.integer = true; o.nmax = 6; o.mmax = 8; o.pWeak = 0.2; must = false; break; case 4: o.dupRows = true; o.pWeak = 0.3; o.nmax = 7; must = false; break; case 5: o.mmax = 0; break; default: break; }
  if (cls == 4 && loose) tol = 1e-2; o.pEq = r.chance(0.5) ? 0.15 : 0.4; if (fault) must = false;
  std::deque<Prob> hist; hist.push_back(Prob()); genFeasible(r, hist.back(), o); hist.back().ht = HST_UNKNOWN; int n = hist.back().n, m = hist.back().m, ns = schurMax(r); Run R_; R_.sparse = r.chance(0.6); R_.r = &r; Run RD; RD.r = &r;
  Solver s, d(KS, n, m); makeSchur(s, n, m, ns); Options op = presetOptions(preset); { double u = r.u01(); if (u < 0.15) op.rcondSMin = r.chance(0.5) ? 1e-6 : 0.05; else if (u < 0.3 && !loose) { op.numRefinementSteps = r.range(1, 4); op.epsIterRef = r.chance(0.5) ? 0 : 1e-10; } } if (r.chance(0.08)) { static const PrintLevel PLS[] = {PL_LOW, PL_MEDIUM, PL_HIGH, PL_HIGH, PL_TABULAR, PL_DEBUG_ITER}; op.printLevel = PLS[r.range(0, 5)]; add("printing"); } s.b->setOptions(op); op.printLevel = PL_NONE; d.b->setOptions(op); Prob* p = &hist.back(); int_t nw = bigWSR(*p), dw = nw; bool twin = !fault && r.chance(0.7); bool dead = false;
  if (fault) { linCtl.failKind = r.range(0, 4); /* a free variable without limits cannot be exchanged */ if (linCtl.failKind == 2 && loose) for (int i = 0; i < n; ++i) if (hist.back().lb[i] <= -INFTY && hist.back().ub[i] >= INFTY) linCtl.failKind = 1; linCtl.failAt = r.chance(0.5) ? r.range(1, 4) : r.range(1, linCtl.failKind == 4 ? 120 : 25); }
  returnValue rv = R_.init(s, *p, nw, 0, 0, 0, 0, 0), rd = twin ? d.init(*p, dw) : rv; char where[64], ex[128], key[128]; int steps = r.range(4, R().thorough ? 40 : 16), changes = 0; uint64_t h = probSig(*p); vec x, y, x2, y2; const char* kind = "init";
  long sing0 = 0; (void)sing0;
  for (int k = 0; k <= steps; ++k) {
    snprintf(where, sizeof where, "%s-%s", kind, CL[cls]); snprintf(ex, sizeof ex, "step %d preset %d nS %d sparse %d%s%d", k, preset, ns, (int)R_.sparse, fault ? " fault " : "", fault ? linCtl.failKind : 0); if (linCtl.wrongDim) { viol("solver-arguments", "the linear solver was called with wrong sizes (%s)", ex); linCtl.wrongDim = 0; }
    bool lie = fault && linCtl.failKind == 3 && linCtl.failed; /* after a wrong inertia only memory and recovery are judged */
    if (rv == SUCCESSFUL_RETURN && lie) add("wrong_inertia_success"); else if (rv == SUCCESSFUL_RETURN) { add(kind); changes += (int)nw; add("iterations", nw); bool ok = checkKkt(where, *p, s, tol, ex); coherent(where, *p, s, loose ? (cls == 4 ? 1e-3 : 1e-5) : 1e-7, loose ? (cls == 4 ? 1e-3 : 1e-5) : 1e-7, must && cls != 4, ex);
      if (ok && cls != 4) { double ov = s.b->getObjVal(); s.sol(x, y); ld ob = objective(*p, &x[0]), mag = 1; for (int i = 0; i < n; ++i) { mag += std::fabs(p->g[i] * x[i]); for (int j = 0; j < n; ++j) mag += std::fabs(0.5 * p->H[i * n + j] * x[i] * x[j]); } if (!(fabsl(ov - ob) <= (loose ? 1e-6 : 1e-8) * mag)) { viol("objective", "getObjVal %.12g, objective %.12Lg %s %s", ov, ob, where, ex); dumpProb(*p); } }
      if (twin && rd == SUCCESSFUL_RETURN && cls != 4) { s.sol(x, y); d.sol(x2, y2); double df = maxDiff(&x[0], &x2[0], n); smax("schur_vs_dense", df); add("dense_compared"); if (!(df <= (loose ? 1e-4 : 1e-6))) { viol("schur-vs-dense", "x differs from the dense solver by %.2e %s %s", df, where, ex); dumpProb(*p); } } }
#ifdef SOLVER_MA27
    else if (linCtl.singular > sing0) { add("singular_not_repaired"); failedCoherent(where, rv, s); dead = true; } // MA27 does not name the zero pivots, a singular working set cannot be repaired
#endif
    else { add(fault ? "fault_failures" : "unsolved"); failedCoherent(where, rv, s); if (must || (fault && !linCtl.failed)) { if (!fault || true) { snprintf(key, sizeof key, "unsolved-%s", where); viol(key, "ret=%d infeas=%d unb=%d n=%d m=%d %s (dense %d)", (int)rv, (int)s.b->isInfeasible(), (int)s.b->isUnbounded(), n, m, ex, (int)rd); dumpProb(*p); return; } }
      if (!fault && rd == SUCCESSFUL_RETURN && twin) { add("only_dense_solved"); info("only dense solved: ret %d %s %s", (int)rv, where, ex); } dead = true; }
    sing0 = linCtl.singular; if (fault && dead) { linCtl.failAt = -1; linCtl.failed = 0; } // the object must be usable again
    if (dead) { s.b->reset(); d.b->reset(); hist.push_back(*p); p = &hist.back(); p->omit = 0; nextVectors(r, *p, o); nw = bigWSR(*p); dw = nw; kind = fault ? "recovered" : "init"; rv = R_.init(s, *p, nw, 0, 0, 0, 0, 0); if (twin) rd = d.init(*p, dw); dead = false; if (fault && rv != SUCCESSFUL_RETURN) { viol("not-recovered", "reset and init after a failure of the linear solver: %d %s", (int)rv, ex); return; } continue; }
    if (k == steps) break;
    if (r.chance(0.08)) { add("copies"); SQProblemSchur* c; if (r.chance(0.5)) c = new SQProblemSchur(*(SQProblemSchur*)s.s); else { c = new SQProblemSchur(r.range(1, 5), r.range(0, 5), HST_UNKNOWN, schurMax(r)); *c = *(SQProblemSchur*)s.s; } if (r.chance(0.5)) { SQProblemSchur* t = (SQProblemSchur*)s.s; s.b = s.q = s.s = c; delete t; } else delete c; }
    bool change = r.chance(0.5); hist.push_back(*p); p = &hist.back(); p->omit = 0; if (change) { { std::vector<int> act; if (cls == 4) { Constraints c; s.q->getConstraints(c); for (int i = 0; i < m; ++i) if (c.getStatus(i) == ST_LOWER || c.getStatus(i) == ST_UPPER) act.push_back(i); } nextMatrices(r, *p, o, cls, act); } genVectors(r, *p, o); } else nextVectors(r, *p, o);
    if (!change && r.chance(0.15)) { p->drop(r.chance(0.7) ? (1 << r.range(0, 3)) : r.range(1, 15)); add("omitted_vectors"); }
    h = mix(h, probSig(*p)); nw = dw = bigWSR(*p); double cpu = 1e3, *cp = r.chance(0.2) ? &cpu : 0;
    if (!p->omit && r.chance(0.1)) { kind = "reinit"; int w = r.range(1, 15); if ((w & 3) == 2) w = 2; Bounds gb; Constraints gc; s.b->getBounds(gb); s.q->getConstraints(gc); s.sol(x, y); s.b->reset(); rv = R_.init(s, *p, nw, cp, w & 1 ? &x[0] : 0, w & 2 ? &y[0] : 0, w & 4 ? &gb : 0, w & 8 ? &gc : 0); if (twin) { d.b->reset(); rd = d.init(*p, dw); } } else if (change) { kind = "changed"; rv = R_.hotM(s, *p, nw, cp); if (twin) rd = d.hotM(*p, dw); } else { kind = "vectors"; bool lim = r.chance(0.2); if (lim) { nw = r.range(0, 3); rv = s.hot(*p, nw, 0); for (int q = 0; q < 400 && rv == RET_MAX_NWSR_REACHED; ++q) { add("interrupted"); coherentSets("interrupted", s); nw = r.range(1, 5); rv = s.hot(*p, nw, 0); } } else rv = s.hot(*p, nw, cp); if (twin) rd = d.hot(*p, dw); }
    if (twin && rd != SUCCESSFUL_RETURN) { twin = false; add("dense_failed"); }
  }
  add("refactorisations", ((SQProblemSchur*)s.s)->getNumFactorizations()); if (changes > 0) sig(h); sample("class=%s preset=%d nS=%d n=%d m=%d steps=%d working-set changes=%d", CL[cls], preset, ns, n, m, steps, changes);
}
// infeasible and unbounded problems, and feasible ones afterwards on the same object
static void verdict(Rng& r) {
  GenOpt o; o.pEq = 0.15; Prob p; genFeasible(r, p, o); p.ht = HST_UNKNOWN; int n = p.n, m = p.m, ns = schurMax(r), preset = r.range(0, 1); Run R_; R_.sparse = r.chance(0.5); R_.r = &r; Solver s; makeSchur(s, n, m, ns); s.b->setOptions(presetOptions(preset)); char ex[96]; snprintf(ex, sizeof ex, "preset %d nS %d", preset, ns); bool hot = r.chance(0.5); int_t nw = bigWSR(p);
  if (hot) { returnValue rv = R_.init(s, p, nw, 0, 0, 0, 0, 0); if (rv != SUCCESSFUL_RETURN) { viol("unsolved-verdict", "ret %d %s", (int)rv, ex); dumpProb(p); return; } }
  Prob q = p; bool inf = m > 0 && r.chance(0.6);
  if (inf) { int c = r.range(0, m - 1); double up = 0; for (int j = 0; j < n; ++j) { q.lb[j] = r.uni(-2, 0); q.ub[j] = q.lb[j] + r.uni(0.5, 2); up += q.A[c * n + j] > 0 ? q.A[c * n + j] * q.ub[j] : q.A[c * n + j] * q.lb[j]; } q.lbA[c] = up + r.uni(0.2, 2); q.ubA[c] = q.lbA[c] + 1; q.omit = 0; add("infeasible"); }
  else { for (size_t i = 0; i < q.H.size(); ++i) q.H[i] = 0; int j = r.range(0, n - 1); for (int i = 0; i < m; ++i) q.A[i * n + j] = 0; q.g[j] = r.chance(0.5) ? 1 : -1; q.lb[j] = -INFTY; q.ub[j] = INFTY; q.omit = 0; for (int i = 0; i < n; ++i) if (i != j) { if (q.lb[i] < -1e3) q.lb[i] = -5; if (q.ub[i] > 1e3) q.ub[i] = 5; if (q.lb[i] > q.ub[i]) std::swap(q.lb[i], q.ub[i]); } for (int i = 0; i < m; ++i) { q.lbA[i] = -INFTY; q.ubA[i] = INFTY; } add("unbounded"); }
  nw = bigWSR(q); returnValue rv = !hot ? R_.init(s, q, nw, 0, 0, 0, 0, 0) : inf && r.chance(0.5) ? s.hot(q, nw) : R_.hotM(s, q, nw, 0); bool fi = s.b->isInfeasible() == BT_TRUE, fu = s.b->isUnbounded() == BT_TRUE; int st = (int)getSimpleStatus(rv);
  if (rv == SUCCESSFUL_RETURN) { viol(inf ? "infeasible-solved" : "unbounded-solved", "success on an %s problem %s", inf ? "infeasible" : "unbounded", ex); dumpProb(q); } else if (inf ? fu : fi) { viol("wrong-verdict", "%s problem reported as the other (ret %d) %s", inf ? "infeasible" : "unbounded", (int)rv, ex); dumpProb(q); } else if (inf ? fi : fu) { add(inf ? "flagged_infeasible" : "flagged_unbounded"); if (st != (inf ? -2 : -3)) viol("simple-status", "flag set, simple status %d of %d %s", st, (int)rv, ex); } else { add(inf ? "inf_numeric_failures" : "unb_numeric_failures"); info("numeric failure %d %s", (int)rv, ex); }
  nw = bigWSR(p); s.b->reset(); rv = R_.init(s, p, nw, 0, 0, 0, 0, 0); if (rv != SUCCESSFUL_RETURN) { viol("unsolved-after-verdict", "ret %d %s", (int)rv, ex); dumpProb(p); } else { add("recovered_verdict"); checkKkt("after-verdict", p, s, 1e-8, ex); } sig(probSig(q)); }
static void run(long idx, Rng& r) { linReset(); linCtl.reversed = r.chance(0.3); linCtl.blocks = r.chance(0.3); int cls = (int)(idx % NCL); tag(cls == 9 ? "faults" : CL[cls]); if (cls == 8) verdict(r); else histories(r, cls); add("lin_factorisations", linCtl.factorCalls); add("lin_solves", linCtl.solveCalls); add("lin_singular", linCtl.singular); add("lin_failed", linCtl.failed); }
int main(int c, char** v) { return runMain(c, v, run); }
