// The C interface against the C++ classes: random interleavings of all C calls, each followed by the corresponding C++ call.
#include "common.hpp"
using namespace vf;
extern "C" {
unsigned c_opt_size(void); int c_opt_count(void); const char* c_opt_name(int); double c_opt_get(const void*, int); void c_opt_set(void*, int, double); long c_opt_init(void*, long);
long c_setup(int, long, long, long); long c_cleanup(int);
long c_init(int, const double*, const double*, const double*, const double*, const double*, const double*, const double*, long*, double*, const void*, double*, double*, double*, long*);
long c_hot(int, const double*, const double*, const double*, const double*, const double*, const double*, const double*, long*, double*, double*, double*, double*, long*);
int_t qpOASES_Options_copy(const void*, Options*);
}
// the C++ field of the same name; 0: there is none
static bool field(Options& o, const char* nm, double* v, bool set) {
#define X(a, T) if (!strcmp(nm, #a)) { if (set) o.a = (T)*v; else *v = (double)o.a; return true; }
  X(printLevel, PrintLevel) X(enableRamping, BooleanType) X(enableFarBounds, BooleanType) X(enableFlippingBounds, BooleanType) X(enableRegularisation, BooleanType) X(enableFullLITests, BooleanType) X(enableNZCTests, BooleanType) X(enableDriftCorrection, int_t) X(enableCholeskyRefactorisation, int_t) X(enableEqualities, BooleanType) X(terminationTolerance, real_t) X(boundTolerance, real_t) X(boundRelaxation, real_t) X(epsNum, real_t) X(epsDen, real_t) X(maxPrimalJump, real_t) X(maxDualJump, real_t) X(initialRamping, real_t) X(finalRamping, real_t) X(initialFarBounds, real_t) X(growFarBounds, real_t) X(initialStatusBounds, SubjectToStatus) X(epsFlipping, real_t) X(numRegularisationSteps, int_t) X(epsRegularisation, real_t) X(numRefinementSteps, int_t) X(epsIterRef, real_t) X(epsLITests, real_t) X(epsNZCTests, real_t) X(rcondSMin, real_t) X(enableInertiaCorrection, BooleanType) X(enableDropInfeasibles, BooleanType) X(dropBoundPriority, int_t) X(dropEqConPriority, int_t) X(dropIneqConPriority, int_t)
#undef X
  return false; }
static bool isReal(const char* nm) { return !strncmp(nm, "eps", 3) || strstr(nm, "Tol") || strstr(nm, "Jump") || strstr(nm, "Ramping") ? strcmp(nm, "enableRamping") != 0 : !strcmp(nm, "boundRelaxation") || !strcmp(nm, "initialFarBounds") || !strcmp(nm, "growFarBounds") || !strcmp(nm, "rcondSMin"); }
static Options cppPreset(int mode) { Options o; if (mode == 1) o.setToReliable(); else if (mode == 2) o.setToMPC(); else o.setToDefault(); return o; }
static std::vector<char> poisoned(Rng& r) { std::vector<char> b(c_opt_size()); int f = r.range(0, 255); for (size_t i = 0; i < b.size(); ++i) b[i] = (char)f; return b; }
static bool same(Options& a, Options& b, const char*& nm) { for (int i = 0; i < c_opt_count(); ++i) { nm = c_opt_name(i); double u, v; if (!field(a, nm, &u, false)) continue; field(b, nm, &v, false); if (memcmp(&u, &v, 8) && u != v) return false; } return true; }
// a random value the field can take
static double value(Rng& r, const char* nm, bool wild) {
  if (!strcmp(nm, "printLevel")) return r.range(-2, 3); if (!strcmp(nm, "initialStatusBounds")) return r.range(-1, 1); if (!strncmp(nm, "enable", 6) && !strstr(nm, "Drift") && !strstr(nm, "Cholesky")) return r.range(0, 1); if (!isReal(nm)) return wild ? r.range(-4, 9) : r.range(0, 3);
  if (wild) return (r.chance(0.2) ? -1 : 1) * std::pow(10.0, r.uni(-17, 9)); if (!strcmp(nm, "growFarBounds")) return r.uni(1.2, 1e4); if (!strcmp(nm, "initialFarBounds")) return std::pow(10.0, r.uni(4.5, 8)); if (!strcmp(nm, "boundRelaxation")) return std::pow(10.0, r.uni(0, 4)); if (!strcmp(nm, "epsNum")) return -std::pow(10.0, r.uni(-14, -10)); if (strstr(nm, "Jump")) return std::pow(10.0, r.uni(5, 9)); if (strstr(nm, "Ramping")) return r.uni(0.1, 2); return std::pow(10.0, r.uni(-14, -8)); }
static void options(Rng& r) {
  tag("options"); char key[96]; uint64_t h = 5;
  for (int mode = 0; mode < 3; ++mode) { std::vector<char> b = poisoned(r); if (c_opt_init(&b[0], mode) != 0) viol("preset-ret", "mode %d rejected", mode); Options want = cppPreset(mode); for (int i = 0; i < c_opt_count(); ++i) { double v, g = c_opt_get(&b[0], i); const char* nm = c_opt_name(i); if (!field(want, nm, &v, false)) continue; add("preset_fields"); if (!(g == v)) { snprintf(key, sizeof key, "preset-%d-%s", mode, nm); viol(key, "C preset has %.17g, C++ preset %.17g", g, v); } } }
  { std::vector<char> b = poisoned(r), c(b); long bad[] = {-1, 3, -7, 100, 1000000}; for (int i = 0; i < 5; ++i) { if (c_opt_init(&b[0], bad[i]) == 0) viol("preset-accepted", "mode %ld accepted", bad[i]); } if (b != c) viol("preset-written", "rejected preset wrote the option struct"); if (c_opt_init(0, r.range(0, 2)) == 0) viol("preset-null", "null accepted"); add("bad_presets", 6); Options o; if (qpOASES_Options_copy(0, &o) == 0 || qpOASES_Options_copy(&b[0], 0) == 0) viol("copy-null", "null accepted"); }
  for (int q = 0; q < 12; ++q) { std::vector<char> b = poisoned(r); c_opt_init(&b[0], r.range(0, 2)); bool all = r.chance(0.4); Options want = cppPreset(r.range(0, 2)), got(want); for (int i = 0; i < c_opt_count(); ++i) if (all || r.chance(0.3)) { double v = value(r, c_opt_name(i), true); c_opt_set(&b[0], i, v); h = hbytes(h, &v, 8); }
    std::vector<char> keep(b); if (qpOASES_Options_copy(&b[0], &got) != 0) viol("copy-ret", "conversion failed"); if (b != keep) viol("copy-modified", "conversion modified its input"); for (int i = 0; i < c_opt_count(); ++i) { double v, g = c_opt_get(&b[0], i); const char* nm = c_opt_name(i); if (!field(got, nm, &v, false)) continue; add("converted_fields"); if (!(g == v)) { snprintf(key, sizeof key, "convert-%s", nm); viol(key, "C field %.17g became %.17g", g, v); } } }
  sig(h); }
struct Side { bool alive; Solver* s; int n, m; std::vector<Prob*> keep; GenOpt o; int hk; Side() : alive(false), s(0), n(0), m(0), hk(-1) {} void drop() { delete s; s = 0; for (size_t i = 0; i < keep.size(); ++i) delete keep[i]; keep.clear(); alive = false; } ~Side() { drop(); } };
struct Out { vec x, y; double obj; long st; };
static void cmp(const char* w, Side& S, returnValue rv, long nwC, long nwP, double cpuC, double cpuLim, Out& c, const vec& x0, const vec& y0, bool plainCpu) {
  char key[96]; vec x(x0), y(y0); returnValue a = S.s->b->getPrimalSolution(&x[0]), b = S.s->b->getDualSolution(&y[0]); double obj = S.s->b->getObjVal(); long st = (long)getSimpleStatus(rv); add("calls_compared"); add(rv == SUCCESSFUL_RETURN ? "calls_solved" : rv == RET_MAX_NWSR_REACHED ? "calls_interrupted" : "calls_failed"); if (rv == SUCCESSFUL_RETURN && nwP > 0) add("calls_with_switches");
  snprintf(key, sizeof key, "%s-", w); size_t k = strlen(key);
#define BAD(s) (strcpy(key + k, s), key)
  if (nwC != nwP) viol(BAD("nwsr"), "C %ld, C++ %ld", nwC, nwP); if (c.st != st) viol(BAD("status"), "C %ld, C++ %ld (return value %d)", c.st, st, (int)rv); if (memcmp(&c.obj, &obj, 8) && !(c.obj != c.obj && obj != obj)) viol(BAD("objective"), "C %.17g, C++ %.17g", c.obj, obj);
  if (memcmp(&c.x[0], &x[0], 8 * x.size())) viol(BAD("primal"), "solutions differ (getPrimalSolution returned %d)", (int)a); if (memcmp(&c.y[0], &y[0], 8 * y.size())) viol(BAD("dual"), "multipliers differ (getDualSolution returned %d)", (int)b); if (plainCpu && !(cpuC >= 0 && cpuC <= cpuLim)) viol(BAD("cputime"), "cputime %g with limit %g", cpuC, cpuLim);
#undef BAD
}
static void calls(Rng& r) {
  tag("calls"); Side S[3]; int N = r.range(6, 30); char key[96]; uint64_t h = 9; long solved = 0;
  getGlobalMessageHandler()->setErrorVisibilityStatus(VS_HIDDEN); getGlobalMessageHandler()->setWarningVisibilityStatus(VS_HIDDEN); getGlobalMessageHandler()->setInfoVisibilityStatus(VS_HIDDEN);
  for (int q = 0; q < N; ++q) { int k = r.chance(0.5) ? (int)(r.range(0, 2)) : (q / 4) % 3; Side& T = S[k]; double u = r.u01(); h = mix(h, (uint64_t)(k * 16 + (int)(u * 16)));
    if (!T.alive && u < 0.7 && r.chance(0.9)) u = 0.05; if (T.alive && T.s->b->isInitialised() != BT_TRUE && u >= 0.5 && r.chance(0.85)) u = 0.4; if (T.alive && u < 0.12 && r.chance(0.7)) u = 0.9;
    if (u < 0.12) { // setup with valid dimensions
      T.drop(); T.o = GenOpt(); T.o.nmax = 7; T.o.mmax = 8; if (r.chance(0.15)) T.o.hk = HK_IDENT; if (r.chance(0.1)) T.o.hk = HK_SEMI; if (r.chance(0.1)) T.o.hk = HK_ZERO; Prob* p = new Prob(); genFeasible(r, *p, T.o); T.n = p->n; T.m = k ? p->m : 0; int ht = r.chance(0.5) ? (int)HST_UNKNOWN : T.o.hk == HK_IDENT ? (int)HST_IDENTITY : T.o.hk == HK_ZERO ? (int)HST_ZERO : r.range(0, 6); if (c_setup(k, T.n, T.m, ht) != 0) viol("setup-ret", "%s setup(%d,%d,%d) failed", kindName((Kind)k), T.n, T.m, ht); T.s = new Solver((Kind)k, T.n, T.m, (HessianType)ht); T.alive = true; T.keep.push_back(p); if (!k) { p->m = 0; } add("setups"); }
    else if (u < 0.19) { long n = r.range(1, 5), m = r.range(0, 5), t = r.range(0, 6); int w = r.range(0, k ? 3 : 2); if (w == 0) n = -r.range(0, 4); else if (w == 1) t = -r.range(1, 5); else if (w == 2) t = r.range(7, 40); else m = -r.range(1, 4); if (c_setup(k, n, m, t) == 0) { viol("setup-accepted", "%s setup(%ld,%ld,%ld) accepted", kindName((Kind)k), n, m, t); c_cleanup(k); T.drop(); } add("bad_setups"); }
    else if (u < 0.25) { if (c_cleanup(k) != 0) viol("cleanup-ret", "cleanup failed"); if (r.chance(0.3) && c_cleanup(k) != 0) viol("cleanup-twice", "second cleanup failed"); T.drop(); add("cleanups"); }
    else if (u < 0.3) { std::vector<char> b = poisoned(r); c_opt_init(&b[0], r.range(-1, 3)); add("option_calls"); }
    else {
      bool init = u < 0.5; bool alive = T.alive; int n = alive ? T.n : r.range(1, 4), m = alive ? T.m : k ? r.range(0, 4) : 0; Prob* p = 0;
      if (alive) { p = new Prob(*T.keep.back()); if (T.keep.size() > 1 || T.s->b->isInitialised()) { GenOpt go = T.o; if (r.chance(0.85)) nextVectors(r, *p, go); else genVectors(r, *p, go); if ((init || k == 2) && r.chance(0.6)) { Prob f(*p); f.n = n; f.m = m; genH(r, f, go); p->H = f.H; } if ((init || k == 2) && m && r.chance(0.4)) { Prob f(*p); genA(r, f, go); p->A = f.A; } } p->omit = 0; if (r.chance(0.12)) { int i = r.range(0, n - 1); p->lb[i] = 2; p->ub[i] = -1; } }
      else { p = new Prob(); p->n = n; p->m = m; genH(r, *p, GenOpt()); genA(r, *p, GenOpt()); genVectors(r, *p, GenOpt()); }
      T.keep.push_back(p); Out c; c.x.resize(n); c.y.resize(n + m); for (int i = 0; i < n; ++i) c.x[i] = r.nrm(); for (int i = 0; i < n + m; ++i) c.y[i] = r.nrm(); c.obj = r.nrm(); c.st = 77; Out before(c); long lim = r.chance(0.25) ? r.range(0, 4) : 400; long nwC = lim; int_t nwP = (int_t)lim; int cm = r.range(0, 3); double cpuC = cm == 1 ? 1e6 : 1e3, cpuP = cpuC, cpuL = cpuC; double* pc = cm ? &cpuC : 0; double* pp = cm ? &cpuP : 0;
      const double *H = p->Hp(), *g = &p->g[0], *A = m ? &p->A[0] : 0, *lb = &p->lb[0], *ub = &p->ub[0], *lbA = m ? &p->lbA[0] : 0, *ubA = m ? &p->ubA[0] : 0; double d = r.u01(); if (d < 0.04) H = 0; else if (d < 0.07) lb = 0; else if (d < 0.1) ub = 0; else if (d < 0.12) lbA = 0; else if (d < 0.14) ubA = 0; else if (d < 0.15) g = 0; else if (d < 0.16) A = 0; if ((T.o.hk == HK_IDENT || T.o.hk == HK_ZERO) && alive && r.chance(0.4)) H = 0;
      if (init) { std::vector<char> b = poisoned(r); bool opt = r.chance(0.7); Options want; if (opt) { int mode = r.range(0, 2); c_opt_init(&b[0], mode); want = cppPreset(mode); double pert = r.chance(0.5) ? 0 : r.uni(0.02, 0.2); bool wild = r.chance(0.15); for (int i = 0; i < c_opt_count(); ++i) { const char* nm = c_opt_name(i); if (!strcmp(nm, "printLevel")) { double v = r.chance(0.9) ? (double)PL_NONE : (double)r.range(0, 2); c_opt_set(&b[0], i, v); field(want, nm, &v, true); } else if (r.chance(pert)) { double v = value(r, nm, wild); c_opt_set(&b[0], i, v); field(want, nm, &v, true); add("options_changed"); } } }
        long rc = c_init(k, H, g, A, lb, ub, lbA, ubA, &nwC, pc, opt ? &b[0] : 0, &c.x[0], &c.y[0], &c.obj, &c.st); if (!alive) { if (rc == 0) viol("init-dead", "init without setup succeeded"); if (memcmp(&c.x[0], &before.x[0], 8 * n) || memcmp(&c.y[0], &before.y[0], 8 * (n + m)) || c.obj != before.obj || c.st != 77 || nwC != lim) viol("init-dead-effect", "rejected init wrote outputs"); add("dead_calls"); delete T.keep.back(); T.keep.pop_back(); continue; } if (rc != 0) { viol("init-ret", "init returned %ld", rc); continue; } if (opt) { T.s->b->setOptions(want); add("inits_with_options"); } else add("inits_without_options");
        returnValue rv = T.s->init(H, g, A, lb, ub, lbA, ubA, nwP, pp); cmp("init", T, rv, nwC, nwP, cpuC, cpuL, c, before.x, before.y, cm && rv == SUCCESSFUL_RETURN); if (rv == SUCCESSFUL_RETURN) { ++solved; h = mix(h, probSig(*p)); } continue;
}
      else { long rc = c_hot(k, H, g, A, lb, ub, lbA, ubA, &nwC, pc, &c.x[0], &c.y[0], &c.obj, &c.st); if (alive) { if (rc != 0) { viol("hot-ret", "hotstart returned %ld", rc); continue; } bool was = T.s->b->isInitialised() == BT_TRUE; returnValue rv = k == 2 ? T.s->s->hotstart(H, g, A, lb, ub, lbA, ubA, nwP, pp) : T.s->hot(g, lb, ub, lbA, ubA, nwP, pp); cmp("hot", T, rv, nwC, nwP, cpuC, cpuL, c, before.x, before.y, cm && rv == SUCCESSFUL_RETURN); if (!was) { add("hot_before_init"); if (c.st == 0 || rv == SUCCESSFUL_RETURN) viol("hot-uninitialised", "hotstart before init reported success"); } else add("hotstarts"); if (rv == SUCCESSFUL_RETURN) { ++solved; h = mix(h, probSig(*p)); } }
        else { if (rc == 0) viol("hot-dead", "hotstart without setup succeeded"); if (memcmp(&c.x[0], &before.x[0], 8 * n) || memcmp(&c.y[0], &before.y[0], 8 * (n + m)) || c.obj != before.obj || c.st != 77 || nwC != lim) viol("hot-dead-effect", "rejected hotstart wrote outputs"); add("dead_calls"); delete T.keep.back(); T.keep.pop_back(); } } } }
  (void)key; for (int k = 0; k < 3; ++k) { c_cleanup(k); if (r.chance(0.2)) { long nw = 5, st = 3; double x[1] = {1}, y[1] = {1}, ob = 2, z = 0, H1 = 1; if (c_init(k, &H1, &z, 0, 0, 0, 0, 0, &nw, 0, 0, x, y, &ob, &st) == 0) viol("cleanup-alive", "init after cleanup succeeded"); add("dead_calls"); } }
  if (solved) sig(h); sample("calls %d solved %ld", N, solved); }
static void run(long idx, Rng& r) { if (idx % 5 == 0) options(r); else calls(r); }
int main(int c, char** v) { return runMain(c, v, run); }
