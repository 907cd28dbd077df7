// Option sets stay consistent; algorithmic options change effort, not answers.
#include "common.hpp"
#include <list>
#include <string>
using namespace vf;
// every field as a named number
struct F { const char* nm; double v; };
static int fields(const Options& o, F* f) { int k = 0; 
#define X(a) f[k].nm = #a; f[k++].v = (double)o.a;
  X(printLevel) X(enableRamping) X(enableFarBounds) X(enableFlippingBounds) X(enableRegularisation) X(enableFullLITests) X(enableNZCTests) X(enableDriftCorrection) X(enableCholeskyRefactorisation) X(enableEqualities) X(terminationTolerance) X(boundTolerance) X(boundRelaxation) X(epsNum) X(epsDen) X(maxPrimalJump) X(maxDualJump) X(initialRamping) X(finalRamping) X(initialFarBounds) X(growFarBounds) X(initialStatusBounds) X(epsFlipping) X(numRegularisationSteps) X(epsRegularisation) X(numRefinementSteps) X(epsIterRef) X(epsLITests) X(epsNZCTests) X(rcondSMin) X(enableInertiaCorrection) X(enableDropInfeasibles) X(dropBoundPriority) X(dropEqConPriority) X(dropIneqConPriority)
#undef X
  return k; }
static const int NF = 35;
static const char* diff(const Options& a, const Options& b, int from = 0) { F x[64], y[64]; int n = fields(a, x); fields(b, y); for (int i = from; i < n; ++i) if (x[i].v != y[i].v) return x[i].nm; return 0; }
// valid: the documented ranges
static const char* invalid(const Options& o) {
  if (o.enableDriftCorrection < 0) return "enableDriftCorrection"; if (o.enableCholeskyRefactorisation < 0) return "enableCholeskyRefactorisation"; if (!(o.terminationTolerance > 0)) return "terminationTolerance"; if (!(o.epsIterRef > 0)) return "epsIterRef"; if (!(o.epsRegularisation > 0)) return "epsRegularisation"; if (!(o.boundTolerance > 0)) return "boundTolerance"; if (!(o.boundRelaxation > 0)) return "boundRelaxation"; if (!(o.maxPrimalJump > 0)) return "maxPrimalJump"; if (!(o.maxDualJump > 0)) return "maxDualJump"; if (!(o.initialRamping >= 0)) return "initialRamping"; if (!(o.finalRamping >= 0)) return "finalRamping"; if (!(o.initialFarBounds > o.boundRelaxation)) return "initialFarBounds"; if (!(o.growFarBounds >= 1.1)) return "growFarBounds"; if (!(o.epsFlipping > 0)) return "epsFlipping"; if (o.numRegularisationSteps < 0) return "numRegularisationSteps"; if (o.numRefinementSteps < 0) return "numRefinementSteps"; if (!(o.epsLITests >= 0)) return "epsLITests"; if (!(o.epsNZCTests >= 0)) return "epsNZCTests"; return 0; }
static double val(Rng& r) { double u = r.u01(); if (u < 0.12) return 0; if (u < 0.3) return -std::pow(10.0, r.uni(-16, 8)); return std::pow(10.0, r.uni(-16, 9)); }
static BooleanType bl(Rng& r) { return r.chance(0.5) ? BT_TRUE : BT_FALSE; }
static void scramble(Rng& r, Options& o, double p) {
  PrintLevel pl[] = {PL_NONE, PL_LOW, PL_MEDIUM, PL_HIGH, PL_TABULAR, PL_DEBUG_ITER}; if (r.chance(p)) o.printLevel = pl[r.range(0, 5)];
#define B(a) if (r.chance(p)) o.a = bl(r);
#define D(a) if (r.chance(p)) o.a = val(r);
#define I(a) if (r.chance(p)) o.a = r.range(-3, 5);
  B(enableRamping) B(enableFarBounds) B(enableFlippingBounds) B(enableRegularisation) B(enableFullLITests) B(enableNZCTests) I(enableDriftCorrection) I(enableCholeskyRefactorisation) B(enableEqualities) D(terminationTolerance) D(boundTolerance) D(boundRelaxation) D(epsNum) D(epsDen) D(maxPrimalJump) D(maxDualJump) D(initialRamping) D(finalRamping) D(initialFarBounds) D(growFarBounds) if (r.chance(p)) o.initialStatusBounds = r.chance(0.5) ? ST_LOWER : (r.chance(0.5) ? ST_UPPER : ST_INACTIVE); D(epsFlipping) I(numRegularisationSteps) D(epsRegularisation) I(numRefinementSteps) D(epsIterRef) D(epsLITests) D(epsNZCTests) D(rcondSMin) B(enableInertiaCorrection) B(enableDropInfeasibles) I(dropBoundPriority) I(dropEqConPriority) I(dropIneqConPriority)
#undef B
#undef D
#undef I
}
static void sets(Rng& r) {
  tag("sets"); uint64_t h = 3; getGlobalMessageHandler()->setWarningVisibilityStatus(VS_HIDDEN); getGlobalMessageHandler()->setErrorVisibilityStatus(VS_HIDDEN);
  for (int q = 0; q < 20; ++q) {
    Options o; if (r.chance(0.5)) r.chance(0.5) ? o.setToReliable() : o.setToMPC(); scramble(r, o, r.chance(0.3) ? 1.0 : r.uni(0.02, 0.4)); Options before(o), as; scramble(r, as, 0.5); as = o; const char* d = diff(before, o); if (d) viol("copy", "copied option set differs in %s", d); d = diff(as, o); if (d) viol("assign", "assigned option set differs in %s", d); as = as; if (diff(as, o)) viol("self-assign", "self assignment"); add("option_copies", 2); F f[64]; fields(o, f); for (int i = 0; i < NF; ++i) h = hbytes(h, &f[i].v, 8);
    const char* bad = invalid(o); returnValue rv = o.ensureConsistency(); add("repairs"); if (bad) add("repaired"); else add("already_consistent");
    if (!bad && (rv != SUCCESSFUL_RETURN || diff(o, before))) viol("consistent-altered", "consistent set: ret %d, field %s altered", (int)rv, diff(o, before) ? diff(o, before) : "(none)");
    if (bad && rv == SUCCESSFUL_RETURN) viol("repair-silent", "invalid %s, success returned", bad); if (bad && rv != SUCCESSFUL_RETURN && rv != RET_OPTIONS_ADJUSTED) viol("repair-code", "ret %d", (int)rv);
    const char* b2 = invalid(o); if (b2) viol("repair-incomplete", "%s still invalid after the repair (%s before); initialFarBounds %.17g boundRelaxation %.17g", b2, bad ? bad : "none", o.initialFarBounds, o.boundRelaxation);
    F x[64], y[64]; fields(before, x); fields(o, y); for (int i = 0; i < NF; ++i) if (x[i].v != y[i].v) { // only fields that had to change
      Options t(o); bool need = false; 
#define T(a) if (!strcmp(x[i].nm, #a)) { t.a = before.a; need = invalid(t) != 0; }
      T(enableDriftCorrection) T(enableCholeskyRefactorisation) T(terminationTolerance) T(epsIterRef) T(epsRegularisation) T(boundTolerance) T(boundRelaxation) T(maxPrimalJump) T(maxDualJump) T(initialRamping) T(finalRamping) T(initialFarBounds) T(growFarBounds) T(epsFlipping) T(numRegularisationSteps) T(numRefinementSteps) T(epsLITests) T(epsNZCTests)
#undef T
      if (!need) viol("repair-too-much", "valid field %s changed from %.6g to %.6g", x[i].nm, x[i].v, y[i].v); }
    Options again(o); rv = o.ensureConsistency(); if (rv != SUCCESSFUL_RETURN || diff(o, again)) viol("repair-not-idempotent", "second repair: ret %d, %s", (int)rv, diff(o, again) ? diff(o, again) : "unchanged");
    // presets do not depend on what was there before
    Options a, b; scramble(r, b, 1.0); int k = r.range(0, 3); switch (k) { case 0: a.setToDefault(); b.setToDefault(); break; case 1: a.setToReliable(); b.setToReliable(); break; case 2: a.setToMPC(); b.setToMPC(); break; default: a.setToFast(); b.setToFast(); } d = diff(a, b); if (d) viol("preset", "preset %d leaves %s untouched", k, d); if (invalid(a)) viol("preset-invalid", "preset %d: %s", k, invalid(a)); add("presets");
    // objects carry every field
    Options w; scramble(r, w, 0.5); QProblem qp(2, 1); getGlobalMessageHandler()->setErrorVisibilityStatus(VS_HIDDEN); getGlobalMessageHandler()->setWarningVisibilityStatus(VS_HIDDEN); qp.setPrintLevel(PL_NONE); qp.setOptions(w); Options g = qp.getOptions(), e(w); getGlobalMessageHandler()->setWarningVisibilityStatus(VS_HIDDEN); e.ensureConsistency(); d = diff(g, e); if (d) viol("object-options", "object reports %s differently from the repaired set", d); QProblem cp(qp); if (diff(cp.getOptions(), e)) viol("object-copy-options", "copy differs in %s", diff(cp.getOptions(), e)); qp.reset(); if (diff(qp.getOptions(), e)) viol("object-reset-options", "reset changes %s", diff(qp.getOptions(), e)); qp.setPrintLevel(PL_NONE); cp.setPrintLevel(PL_NONE);
  }
  sig(h); getGlobalMessageHandler()->reset();
}
// a random consistent combination; strength of the accuracy expected from it in tol
static Options combo(Rng& r, double& tol, std::string& what) {
  Options o; int base = r.range(0, 3); if (base == 1) o.setToReliable(); if (base >= 2) o.setToMPC(); char b[80]; snprintf(b, sizeof b, "base %d", base); what = b; o.printLevel = PL_NONE; double p = r.uni(0.05, 0.7);
#define B(a) if (r.chance(p)) { o.a = bl(r); snprintf(b, sizeof b, " " #a "=%d", (int)o.a); what += b; }
#define D(a, lo, hi) if (r.chance(p)) { o.a = std::pow(10.0, r.uni(lo, hi)); snprintf(b, sizeof b, " " #a "=%.2e", o.a); what += b; }
#define I(a, lo, hi) if (r.chance(p)) { o.a = r.range(lo, hi); snprintf(b, sizeof b, " " #a "=%d", (int)o.a); what += b; }
  B(enableRamping) B(enableFarBounds) B(enableFlippingBounds) B(enableRegularisation) B(enableFullLITests) B(enableNZCTests) B(enableEqualities) B(enableInertiaCorrection) I(enableDriftCorrection, 0, 5) I(enableCholeskyRefactorisation, 0, 5) I(numRegularisationSteps, 0, 3) I(numRefinementSteps, 0, 3)
  D(terminationTolerance, -12, -7) D(boundTolerance, -13, -9) D(boundRelaxation, -1, 4) D(maxPrimalJump, 7, 10) D(maxDualJump, 7, 10) D(initialRamping, -2, 0.5) D(finalRamping, -2, 0.5) D(initialFarBounds, 4.1, 8) D(growFarBounds, 0.1, 4) D(epsFlipping, -14, -11) D(epsRegularisation, -14, -12) D(epsIterRef, -16, -12) D(epsLITests, -13, -10) D(epsNZCTests, -14, -11)
  if (r.chance(p)) { o.initialStatusBounds = r.chance(0.4) ? ST_LOWER : (r.chance(0.5) ? ST_UPPER : ST_INACTIVE); snprintf(b, sizeof b, " status=%d", (int)o.initialStatusBounds); what += b; }
  if (r.chance(p)) { double f = std::pow(10.0, r.uni(-0.5, 1)); o.epsNum *= f; o.epsDen *= f; snprintf(b, sizeof b, " epsNum*=%.2e", f); what += b; }
#undef B
#undef D
#undef I
  if (invalid(o)) o.initialFarBounds = 10 * o.boundRelaxation; tol = 2e-6; return o;
}
static const char* CL[] = {"known", "known-large", "feasible", "bounds", "wide"};
static void answers(long idx, Rng& r) {
  int cls = (int)(idx % 5); tag(CL[cls]); GenOpt o; o.nmax = 8; o.mmax = 10; if (cls == 1) { o.nmin = 5; o.nmax = 16; o.mmax = 20; } if (cls == 3) o.mmax = 0; if (cls == 4) { o.nmin = 4; o.mmin = 8; o.mmax = 20; }
  std::list<Prob> keep; keep.push_back(Prob()); Prob* p = &keep.back(); if (cls == 2 || cls == 4) genFeasible(r, *p, o); else genKnown(r, *p, o); int n = p->n, m = p->m; Kind kd = m == 0 && r.chance(0.6) ? KB : (r.chance(0.6) ? KQ : KS);
  Solver s(kd, n, m, p->ht), ref(kd, n, m, p->ht); double tol; std::string what; Options op = combo(r, tol, what); s.b->setOptions(op); Options rel; rel.setToReliable(); rel.printLevel = PL_NONE; ref.b->setOptions(rel); int_t nw = bigWSR(*p), nr = nw; returnValue rv = s.init(*p, nw), rr = ref.init(*p, nr); add("cold_solves");
  if (rr != SUCCESSFUL_RETURN) { add("reference_unsolved"); return; } int changes = (int)nw; bool ok = true;
  for (int k = 0; ok; ++k) {
    info("step %d rv %d nw %d %s", k, (int)rv, (int)nw, what.c_str());
    if (s.b->isInfeasible() == BT_TRUE || s.b->isUnbounded() == BT_TRUE) { viol("wrong-verdict", "%s step %d %s ret %d infeasible %d unbounded %d: %s", CL[cls], k, kindName(kd), (int)rv, s.b->isInfeasible(), s.b->isUnbounded(), what.c_str()); dumpProb(*p); break; }
    if (rv != SUCCESSFUL_RETURN) { add("unsolved"); if (R().verbose || getenv("VF_UNS")) info("unsolved rv %d", (int)rv); break; }
    add("solved"); if (k) add("hot_solves"); char w2[24]; snprintf(w2, sizeof w2, "%s", k ? "hot" : "cold"); ok = checkKkt(w2, *p, s, tol, what.c_str()); vec x, y, xr, yr; s.sol(x, y); ref.sol(xr, yr); if (p->mu > 0.05) { double d = maxDiff(&x[0], &xr[0], n); smax("x-difference", d); add("compared"); if (!(d <= 2e-4)) { viol("answer", "%s step %d: x differs by %.3e from the reference options: %s", CL[cls], k, d, what.c_str()); dumpProb(*p); ok = false; } ld o1 = objective(*p, &x[0]), o2 = objective(*p, &xr[0]); if (fabsl(o1 - o2) > 1e-5L * (1 + fabsl(o2))) { viol("objective", "%s step %d: %.10Lg versus %.10Lg: %s", CL[cls], k, o1, o2, what.c_str()); ok = false; } }
    if (!ok || k >= (R().thorough ? 12 : 5)) break;
    if (r.chance(0.4)) { op = combo(r, tol, what); s.b->setOptions(op); add("option_changes"); } else tol = std::max(tol, 2e-6);
    keep.push_back(*p); p = &keep.back(); nextVectors(r, *p, o); nw = nr = bigWSR(*p); rv = s.hot(*p, nw); rr = ref.hot(*p, nr); changes += (int)nw; if (rr != SUCCESSFUL_RETURN) { add("reference_unsolved"); break; }
  }
  if (changes) sig(mix(probSig(keep.front()), hbytes(5, what.data(), what.size()))); sample("%s %s n=%d m=%d %s", CL[cls], kindName(kd), n, m, what.c_str());
}
static void run(long idx, Rng& r) { if (idx % 10 == 0) sets(r); else answers(idx, r); }
int main(int c, char** v) { return runMain(c, v, run); }
