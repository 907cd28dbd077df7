// Random valid call histories over the whole public interface: the sanitizers and the heap balance are the oracle.
#include "reps.hpp"
extern "C" intptr_t __msan_test_shadow(const volatile void*, size_t) __attribute__((weak));
using namespace vf;
static void defined(const char* what, const void* p, size_t n) { if (n == 0) return; add("outputs_checked"); if (__msan_test_shadow && __msan_test_shadow(p, n) >= 0) { char k[96]; snprintf(k, sizeof k, "uninit-output-%s", what); viol(k, "byte %ld of %ld is uninitialised", (long)__msan_test_shadow(p, n), (long)n); } }
struct Slot { Solver* s; Prob* cur; Product* cp; Slot() : s(0), cur(0), cp(0) {} };
struct World { std::vector<Prob*> probs; std::vector<Mats*> mats; std::vector<Product*> prods; Slot sl[4]; uint64_t h; World() : h(1) {}
  ~World() { for (int i = 0; i < 4; ++i) delete sl[i].s; for (size_t i = 0; i < mats.size(); ++i) delete mats[i]; for (size_t i = 0; i < prods.size(); ++i) delete prods[i]; for (size_t i = 0; i < probs.size(); ++i) delete probs[i]; } };
static double odd(Rng& r) { double u = r.u01(); return u < 0.5 ? r.nrm() : (u < 0.8 ? r.nrm() * std::pow(10.0, r.uni(-10, 10)) : (u < 0.9 ? 0.0 : (double)r.range(-2, 2))); }
static Prob* gen(World& w, Rng& r, int n, int m) {
  Prob* p = new Prob(); w.probs.push_back(p); GenOpt o; o.nmin = o.nmax = n; o.mmin = o.mmax = m; int f = r.range(0, 11);
  if (f == 0) { o.integer = true; o.dupRows = true; o.pWeak = 0.3; } if (f == 1) o.pEq = 0.8; if (f == 2) o.hk = HK_SEMI; if (f == 3) o.hk = HK_ZERO; if (f == 4) o.pInf = 0.9;
  if (f == 5) genKnown(r, *p, o); else genFeasible(r, *p, o);
  if (p->n != n || p->m != m) { p->n = n; p->m = m; }
  if (f == 6) for (int q = r.range(1, 3); q > 0; --q) { int i = r.range(0, n + m - 1); double& lo = i < n ? p->lb[i] : p->lbA[i - n]; double& up = i < n ? p->ub[i] : p->ubA[i - n]; if (!isInfLo(lo) && !isInfUp(up)) std::swap(lo, up); else { lo = 5; up = -5; } }         // crossing limits
  if (f == 7) for (int c = 0; c < m; ++c) if (r.chance(0.5)) { p->lbA[c] = 20; p->ubA[c] = INFTY; }                                           // mostly infeasible
  if (f == 8) { for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) p->H[i * n + j] = p->H[j * n + i] = r.nrm(); p->ht = r.chance(0.5) ? HST_UNKNOWN : HST_INDEF; if (r.chance(0.3)) { p->ht = HST_UNKNOWN; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) p->H[i * n + j] = 0; } } // indefinite
  if (f == 9) { for (int i = 0; i < n; ++i) { p->g[i] = odd(r); if (r.chance(0.5)) { p->lb[i] = -std::fabs(odd(r)); p->ub[i] = std::fabs(odd(r)); } } for (int c = 0; c < m; ++c) { for (int j = 0; j < n; ++j) p->A[c * n + j] = odd(r); if (r.chance(0.5)) { p->lbA[c] = -std::fabs(odd(r)); p->ubA[c] = std::fabs(odd(r)); } } double sc = std::pow(10.0, r.uni(-8, 8)); if (p->ht != HST_IDENTITY && p->ht != HST_ZERO) for (size_t i = 0; i < p->H.size(); ++i) p->H[i] *= sc; } // wild magnitudes
  if (f == 10) { for (int c = 0; c < m; ++c) if (r.chance(0.4)) for (int j = 0; j < n; ++j) p->A[c * n + j] = 0; if (r.chance(0.5)) p->g.assign(n, 0.0); if (r.chance(0.3)) { p->H.assign((size_t)n * n, 0.0); p->ht = r.chance(0.5) ? HST_UNKNOWN : (r.chance(0.5) ? HST_ZERO : HST_SEMIDEF); } }                    // zero rows, gradient, matrix
  if (f == 11) { for (int i = 0; i < n; ++i) if (r.chance(0.7)) p->lb[i] = p->ub[i] = 0.5; for (int c = 0; c < m; ++c) if (r.chance(0.5)) p->lbA[c] = p->ubA[c] = (double)r.range(-1, 1); } // many equalities
  if (f < 6 && r.chance(0.15)) p->drop(r.range(1, 15));
  w.h = mix(w.h, probSig(*p)); return p;
}
static void anyOptions(Rng& r, Options& o) {
  int k = r.range(0, 6); o = presetOptions(k); BooleanType* B[] = {&o.enableRamping, &o.enableFarBounds, &o.enableFlippingBounds, &o.enableRegularisation, &o.enableFullLITests, &o.enableNZCTests, &o.enableEqualities, &o.enableInertiaCorrection, &o.enableDropInfeasibles};
  for (int i = 0; i < 9; ++i) if (r.chance(0.25)) *B[i] = r.chance(0.5) ? BT_TRUE : BT_FALSE;
  real_t* D[] = {&o.terminationTolerance, &o.boundTolerance, &o.boundRelaxation, &o.epsNum, &o.epsDen, &o.maxPrimalJump, &o.maxDualJump, &o.initialRamping, &o.finalRamping, &o.initialFarBounds, &o.growFarBounds, &o.epsFlipping, &o.epsRegularisation, &o.epsIterRef, &o.epsLITests, &o.epsNZCTests, &o.rcondSMin};
  for (int i = 0; i < 17; ++i) if (r.chance(0.1)) { if (r.chance(0.2)) *D[i] = -*D[i]; else *D[i] *= std::pow(10.0, r.uni(-3, 3)); }
  if (r.chance(0.2)) o.enableDriftCorrection = r.range(0, 4); if (r.chance(0.3)) o.enableCholeskyRefactorisation = r.range(0, 3); if (r.chance(0.2)) o.numRegularisationSteps = r.range(0, 4); if (r.chance(0.2)) o.numRefinementSteps = r.range(0, 4);
  SubjectToStatus st[] = {ST_LOWER, ST_INACTIVE, ST_UPPER}; if (r.chance(0.3)) o.initialStatusBounds = st[r.range(0, 2)]; if (r.chance(0.3)) { o.dropBoundPriority = r.range(0, 3); o.dropEqConPriority = r.range(0, 3); o.dropIneqConPriority = r.range(0, 3); }
  PrintLevel pl[] = {PL_NONE, PL_NONE, PL_NONE, PL_LOW, PL_MEDIUM, PL_HIGH, PL_TABULAR, PL_DEBUG_ITER}; o.printLevel = pl[r.range(0, 7)];
}
static void query(World& w, Rng& r, Slot& sl) {
  Solver& s = *sl.s; int n = s.n, m = s.m; QProblemB* b = s.b; int k = r.range(0, 15); w.h = mix(w.h, 500 + k); vec a(n), d(n + m), e(m + 1); e.resize(m);
  switch (k) {
    case 0: if (b->getPrimalSolution(a.data()) == SUCCESSFUL_RETURN) defined("primal", a.data(), n * sizeof(double)); break;
    case 1: if (b->getDualSolution(d.data()) == SUCCESSFUL_RETURN) defined("dual", d.data(), (n + m) * sizeof(double)); break;
    case 2: { real_t v = b->getObjVal(); defined("objective", &v, sizeof v); for (int i = 0; i < n; ++i) a[i] = r.nrm(); if (sl.cur) { v = b->getObjVal(a.data()); defined("objective-at", &v, sizeof v); } break; }
    case 3: if (b->getWorkingSet(d.data()) == SUCCESSFUL_RETURN) defined("working-set", d.data(), (n + m) * sizeof(double)); break;
    case 4: if (b->getWorkingSetBounds(a.data()) == SUCCESSFUL_RETURN) defined("ws-bounds", a.data(), n * sizeof(double)); if (s.q && m && s.q->getWorkingSetConstraints(e.data()) == SUCCESSFUL_RETURN) defined("ws-constraints", e.data(), m * sizeof(double)); break;
    case 5: { Bounds B; b->getBounds(B); if (s.q) { Constraints C; s.q->getConstraints(C); Constraints C2(C); C2 = C; } Bounds B2(B); B2 = B; B.print(); break; }
    case 6: { int_t v[] = {b->getNV(), b->getNFR(), b->getNFX(), b->getNFV(), b->getNZ(), (int_t)b->getCount(), (int_t)b->getStatus(), (int_t)b->isSolved(), (int_t)b->isInitialised(), (int_t)b->isInfeasible(), (int_t)b->isUnbounded(), (int_t)b->getHessianType(), (int_t)b->usingRegularisation(), (int_t)b->getPrintLevel()}; defined("counters", v, sizeof v); if (s.q) { int_t u[] = {s.q->getNC(), s.q->getNEC(), s.q->getNAC(), s.q->getNIAC()}; defined("counters-c", u, sizeof u); } break; }
    case 7: b->printProperties(); break;
    case 8: b->printOptions(); break;
    case 9: { Options o = b->getOptions(); o.print(); real_t v[] = {o.terminationTolerance, o.boundTolerance, o.epsNum, o.initialFarBounds, o.epsRegularisation}; defined("options", v, sizeof v); break; }
    case 10: if (s.q && s.n) { std::vector<BooleanType> f(n); if (s.q->getFreeVariablesFlags(f.data()) == SUCCESSFUL_RETURN) defined("free-flags", f.data(), n * sizeof(BooleanType)); } break;
    case 11: if (s.q && sl.cur && b->isSolved() == BT_TRUE) { int q = r.range(1, 3); vec G(n * q), L(n * q), U(n * q), LA(m * q), UA(m * q), X(n * q), Y((n + m) * q); for (int t = 0; t < q; ++t) for (int i = 0; i < n + m; ++i) { double lo = odd(r), up = lo + std::fabs(odd(r)); if (i < n) { G[t * n + i] = odd(r); L[t * n + i] = lo; U[t * n + i] = up; } else { LA[t * m + i - n] = lo; UA[t * m + i - n] = up; } } if (s.q->solveCurrentEQP(q, G.data(), r.chance(0.1) ? 0 : L.data(), r.chance(0.1) ? 0 : U.data(), m && r.chance(0.9) ? LA.data() : 0, m && r.chance(0.9) ? UA.data() : 0, X.data(), Y.data()) == SUCCESSFUL_RETURN) { defined("eqp-x", X.data(), X.size() * sizeof(double)); defined("eqp-y", Y.data(), Y.size() * sizeof(double)); add("eqps"); } } break;
    case 12: { SolutionAnalysis an; real_t x1 = 0, x2 = 0, x3 = 0, v = s.kind == KB ? an.getKktViolation(b, &x1, &x2, &x3) : (s.kind == KQ ? an.getKktViolation(s.q, &x1, &x2, &x3) : an.getKktViolation(s.s, &x1, &x2, &x3)); defined("kkt-violation", &v, sizeof v); break; }
    case 13: if (s.q) { SolutionAnalysis an; int dim = 2 * n + m; vec V((size_t)dim * dim, 0.0), C((size_t)dim * dim, 0.0); for (int i = 0; i < dim; ++i) V[(size_t)i * dim + i] = r.u01(); returnValue rv = s.kind == KQ ? an.getVarianceCovariance(s.q, &V[0], &C[0]) : an.getVarianceCovariance(s.s, &V[0], &C[0]); if (rv == SUCCESSFUL_RETURN) { defined("covariance", &C[0], C.size() * sizeof(double)); add("covariances"); } } break;
    case 14: if (s.kind == KS && b->isSolved() == BT_TRUE && sl.cur) { SolutionAnalysis an; an.checkCurvatureOnStronglyActiveConstraints(s.s); add("curvature_checks"); } break;
    case 15: b->resetCounter(); b->setPrintLevel(r.chance(0.8) ? PL_NONE : PL_MEDIUM); break;
  }
  add("queries");
}
static void run(long idx, Rng& r) {
  World w; tag("history"); bool print = false; int len = r.range(5, R().thorough ? 60 : 30); int nmx = r.chance(0.2) ? 14 : 6; long solves = 0, changes = 0; (void)print; (void)idx;
  for (int step = 0; step < len; ++step) {
    int q = r.range(0, r.chance(0.7) ? 1 : 3); Slot& sl = w.sl[q]; char t[64];
    if (!sl.s) { Kind kd = r.chance(0.25) ? KB : (r.chance(0.5) ? KQ : KS); int n = r.range(1, nmx), m = kd == KB || r.chance(0.15) ? 0 : r.range(1, nmx + 3); HessianType hts[] = {HST_UNKNOWN, HST_UNKNOWN, HST_UNKNOWN, HST_POSDEF, HST_SEMIDEF, HST_ZERO, HST_IDENTITY}; sl.s = new Solver(kd, n, m, hts[r.range(0, 6)]); sl.cur = 0; if (r.chance(0.9)) { Options o = presetOptions(r.range(0, 6)); if (r.chance(0.5)) anyOptions(r, o); sl.s->b->setOptions(o); } else sl.s->b->setPrintLevel(PL_NONE); add("objects"); }
    Solver& s = *sl.s; int n = s.n, m = s.m; int op = r.range(0, 99); w.h = mix(w.h, (uint64_t)op * 8 + q); int_t nw = r.chance(0.7) ? 300 : r.range(0, 6); double cpu = r.chance(0.5) ? 1e3 : (r.chance(0.5) ? 1e-7 : 1e-5); double* cp = r.chance(0.15) ? &cpu : 0; returnValue rv = SUCCESSFUL_RETURN; snprintf(t, sizeof t, "op%d-%s", op < 25 ? 0 : op < 50 ? 1 : op < 60 ? 2 : 3, kindName(s.kind)); tag(t);
    if (op < 25) { // initialisation: arrays, matrix objects or partial data
      Prob* p = gen(w, r, n, m); sl.cur = p; if (r.chance(0.7)) { s.b->reset(); s.b->setHessianType(p->ht); } const double* Hp = p->Hp(); if (p->ht == HST_IDENTITY && s.b->getHessianType() != HST_IDENTITY) Hp = &p->H[0];
      if (r.chance(0.3)) { Mats* M = new Mats(); w.mats.push_back(M); M->random(r, *p, Hp != 0); rv = s.kind == KB ? s.b->init(M->H, &p->g[0], p->lbp(), p->ubp(), nw, cp) : s.q->init(M->H, &p->g[0], M->A, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), nw, cp); add("object_inits"); }
      else if (r.chance(0.6)) rv = s.init(Hp, &p->g[0], p->Ap(), p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), nw, cp);
      else { vec x0(n), y0(n + m), R0((size_t)n * n, 0.0); for (int i = 0; i < n; ++i) x0[i] = odd(r); for (int i = 0; i < n + m; ++i) y0[i] = r.chance(0.5) ? 0 : odd(r); Bounds B(n); Constraints C(m); bool gb = r.chance(0.5), gc = s.kind != KB && m && r.chance(0.5); SubjectToStatus st[] = {ST_LOWER, ST_INACTIVE, ST_UPPER}; for (int i = 0; i < n; ++i) B.setupBound(i, st[r.range(0, 2)]); for (int i = 0; i < m; ++i) C.setupConstraint(i, st[r.range(0, 2)]); bool hr = r.chance(0.2); if (hr) for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) R0[i * n + j] = i == j ? r.uni(0.5, 2) : r.nrm(); rv = s.init(Hp, &p->g[0], p->Ap(), p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), nw, cp, r.chance(0.6) ? &x0[0] : 0, r.chance(0.5) ? y0.data() : 0, gb ? &B : 0, gc ? &C : 0, hr ? &R0[0] : 0); add("guessed_inits"); }
      if (r.chance(0.1) && s.q && m) { Product* pr = new Product(*p); w.prods.push_back(pr); s.q->setConstraintProduct(pr); add("products"); }
      ++solves; add(rv == SUCCESSFUL_RETURN ? "inits_ok" : "inits_failed"); changes += nw; }
    else if (op < 55) { // hotstart, whatever state the object is in
      Prob* p; if (sl.cur && r.chance(0.75)) { p = new Prob(*sl.cur); w.probs.push_back(p); GenOpt o; o.nmin = o.nmax = n; o.mmin = o.mmax = m; double sc = std::pow(10.0, r.uni(-4, 4)); if (r.chance(0.3)) nextVectors(r, *p, o); else for (int i = 0; i < n + m; ++i) { if (i < n) p->g[i] += sc * r.nrm(); if (r.chance(0.4)) { double d1 = sc * r.nrm(); double& lo = i < n ? p->lb[i] : p->lbA[i - n]; double& up = i < n ? p->ub[i] : p->ubA[i - n]; if (!isInfLo(lo)) lo += d1; if (!isInfUp(up)) up += d1; if (r.chance(0.1)) lo = -INFTY; if (r.chance(0.1)) up = INFTY; if (r.chance(0.1)) { lo = up = d1; } } } p->omit = r.chance(0.1) ? r.range(0, 15) : 0; } else p = gen(w, r, n, m);
      bool mats = s.kind == KS && r.chance(0.4);
      if (mats) { Prob* k = gen(w, r, n, m); Prob* use = r.chance(0.5) ? k : p; sl.cur = use; const double* Hp = use->Hp(); if (!Hp && r.chance(0.5)) Hp = &use->H[0]; if (r.chance(0.4)) { Mats* M = new Mats(); w.mats.push_back(M); M->random(r, *use, Hp != 0); rv = s.s->hotstart(M->H, &p->g[0], M->A, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), nw, cp); } else rv = s.s->hotstart(Hp, &p->g[0], use->Ap(), p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), nw, cp); add("matrix_hotstarts"); }
      else if (r.chance(0.2)) { Bounds B(n); Constraints C(m); SubjectToStatus st[] = {ST_LOWER, ST_INACTIVE, ST_UPPER}; for (int i = 0; i < n; ++i) B.setupBound(i, st[r.range(0, 2)]); for (int i = 0; i < m; ++i) C.setupConstraint(i, st[r.range(0, 2)]); rv = s.kind == KB ? s.b->hotstart(&p->g[0], p->lbp(), p->ubp(), nw, cp, &B) : s.q->hotstart(&p->g[0], p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), nw, cp, r.chance(0.8) ? &B : 0, r.chance(0.8) ? &C : 0); add("guessed_hotstarts"); }
      else rv = s.hot(*p, nw, cp);
      ++solves; add(rv == SUCCESSFUL_RETURN ? "hotstarts_ok" : "hotstarts_failed"); changes += nw; }
    else if (op < 78) query(w, r, sl);
    else if (op < 83) { Options o; anyOptions(r, o); s.b->setOptions(o); add("option_sets"); }
    else if (op < 88) { int t2 = r.range(0, 3); if (w.sl[t2].s && t2 != q) delete w.sl[t2].s; if (t2 != q) { w.sl[t2].s = s.clone(); w.sl[t2].cur = sl.cur; add("copies"); } }
    else if (op < 92) { for (int t2 = 0; t2 < 4; ++t2) if (w.sl[t2].s && w.sl[t2].s->kind == s.kind) { w.sl[t2].s->assign(s); w.sl[t2].s->n = n; w.sl[t2].s->m = m; w.sl[t2].cur = sl.cur; add("assignments"); break; } }
    else if (op < 95) { s.b->reset(); sl.cur = 0; add("resets"); }
    else if (op < 97) { delete sl.s; sl.s = 0; sl.cur = 0; add("destroyed"); }
    else query(w, r, sl);
    if (rv != SUCCESSFUL_RETURN) { char nm[32]; snprintf(nm, sizeof nm, "ret_%d", (int)rv); if (getenv("VF_UNS")) add(nm); }
    add("operations"); if (R().verbose) fprintf(stderr, "step %d slot %d %s n=%d m=%d op %d: %d, status %d, Hessian type %d\n", step, q, sl.s ? kindName(s.kind) : "-", n, m, op, (int)rv, sl.s ? (int)s.b->getStatus() : -1, sl.s ? (int)s.b->getHessianType() : -1);
  }
  tag("destroy"); for (int i = 0; i < 4; ++i) { delete w.sl[i].s; w.sl[i].s = 0; }
  if (changes) sig(w.h); sample("%d operations, %ld solver calls, %ld working-set changes", len, solves, changes);
}
int main(int c, char** v) { varyOptions(); return runMain(c, v, run); }
