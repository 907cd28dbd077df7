// P29: the documented compile-time configurations keep the guarantees. The same workload runs in every configuration (VF_CFG names it);
// answers are judged by the KKT oracle, and a trace of everything handed out is compared bitwise with that of the standard configuration where arithmetic must not differ.
#define VF_CORE
#include "common.hpp"
#include <list>
#include <string>
#include <time.h>
using namespace vf;
typedef std::vector<real_t> rvec;
static const bool SINGLE = sizeof(real_t) == 4;
#if defined(__SUPPRESSANYOUTPUT__) || defined(__XPCTARGET__) || defined(__DSPACE__)
static const bool MUTE = true;
#else
static const bool MUTE = false;
#endif
static uint64_t H_; static void hb(const void* p, size_t k) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < k; ++i) { H_ ^= c[i]; H_ *= 1099511628211ULL; } }
static void hi(long long v) { hb(&v, sizeof v); }
static void hv(const rvec& v) { for (size_t i = 0; i < v.size(); ++i) { double d = v[i]; if (d == 0) d = 0; hb(&d, sizeof d); } }
static rvec cv(const vec& v) { rvec o(v.size() + 1); for (size_t i = 0; i < v.size(); ++i) o[i] = (real_t)v[i]; return o; }
static void rnd(vec& v) { for (size_t i = 0; i < v.size(); ++i) { if (v[i] <= -1e20) v[i] = -INFTY; else if (v[i] >= 1e20) v[i] = INFTY; else v[i] = (double)(float)v[i]; } }
static void rnd(Prob& p) { if (!SINGLE) return; rnd(p.H); rnd(p.g); rnd(p.A); rnd(p.lb); rnd(p.ub); rnd(p.lbA); rnd(p.ubA); }
struct Obj { int kind; QProblemB* b; QProblem* q; SQProblem* s; int n, m; std::vector<Matrix*> own; std::list<rvec> keep; // the solver refers to matrix data of the caller
  Obj(int k, int n_, int m_) : kind(k), b(0), q(0), s(0), n(n_), m(m_) { if (k == 0) b = new QProblemB(n); else if (k == 1) b = q = new QProblem(n, m); else b = q = s = new SQProblem(n, m); }
  ~Obj() { delete b; for (size_t i = 0; i < own.size(); ++i) delete own[i]; }
  void copy() { if (kind == 0) { QProblemB* c = new QProblemB(*b); delete b; b = c; } else if (kind == 1) { QProblem* c = new QProblem(*q); delete b; b = q = c; } else { SQProblem* c = new SQProblem(*s); delete b; b = q = s = c; } }
  returnValue go(int how, const Prob& p, int_t& nw, bool sparse, Rng& r) { keep.push_back(cv(p.H)); rvec& Hh = keep.back(); keep.push_back(cv(p.A)); rvec& A = keep.back(); rvec g = cv(p.g), lb = cv(p.lb), ub = cv(p.ub), la = cv(p.lbA), ua = cv(p.ubA);
    const real_t *ap = m ? &A[0] : 0, *lap = m ? &la[0] : 0, *uap = m ? &ua[0] : 0; real_t cpu = 1000, *cp = r.chance(0.3) ? &cpu : 0;
    if (how == 0) { if (!sparse) { if (kind == 0) return b->init(&Hh[0], &g[0], &lb[0], &ub[0], nw, cp); return q->init(&Hh[0], &g[0], ap, &lb[0], &ub[0], lap, uap, nw, cp); }
      SymmetricMatrix* Hs; Matrix* As = 0; mats(Hh, A, Hs, As); if (kind == 0) return b->init(Hs, &g[0], &lb[0], &ub[0], nw, cp); return q->init(Hs, &g[0], As, &lb[0], &ub[0], lap, uap, nw, cp); }
    if (how == 1) { if (kind == 0) return b->hotstart(&g[0], &lb[0], &ub[0], nw, cp); return q->hotstart(&g[0], &lb[0], &ub[0], lap, uap, nw, cp); }
    if (!sparse) return s->hotstart(&Hh[0], &g[0], ap, &lb[0], &ub[0], lap, uap, nw, cp);
    SymmetricMatrix* Hs; Matrix* As = 0; mats(Hh, A, Hs, As); return s->hotstart(Hs, &g[0], As, &lb[0], &ub[0], lap, uap, nw, cp); }
  void mats(rvec& Hh, rvec& A, SymmetricMatrix*& Hs, Matrix*& As) { SymSparseMat* S = new SymSparseMat(n, n, n, &Hh[0]); S->createDiagInfo(); Hs = S; own.push_back(S); if (m) { As = new SparseMatrix(m, n, n, &A[0]); own.push_back(As); } }
private: Obj(const Obj&); Obj& operator=(const Obj&); };
static void aux(long idx, Rng& r, const Prob& p) { // files, measures and clock in this configuration
  static std::string dir; if (dir.empty()) { const char* d = getenv("VF_TMP"); char b[600]; snprintf(b, sizeof b, "%s/cfg-%s-%d", d ? d : "/tmp", VF_CFG, (int)getpid()); dir = b; } std::string f = dir + ".a", fm = dir + ".mat"; unlink(f.c_str()); unlink(fm.c_str());
  int n = r.range(1, 6), m = r.range(1, 6); rvec a((size_t)n * m), b((size_t)n * m, (real_t)-7); std::vector<int_t> ia((size_t)n * m), ib((size_t)n * m, -7);
  for (size_t i = 0; i < a.size(); ++i) { int c = r.range(0, 9); a[i] = (real_t)(c == 0 ? 0.0 : (c == 1 ? INFTY : (c == 2 ? -INFTY : (c == 3 ? r.uni(-3, 3) * 1e-30 : (c == 4 ? r.uni(-3, 3) * 1e30 : r.uni(-3, 3)))))); ia[i] = r.range(-1000000, 1000000); }
  returnValue rw = writeIntoFile(&a[0], m, n, f.c_str(), BT_FALSE), rr = readFromFile(&b[0], m, n, f.c_str());
  if (MUTE) { if (rw == SUCCESSFUL_RETURN || rr == SUCCESSFUL_RETURN) viol("file-success-in-silent-build", "write %d read %d", (int)rw, (int)rr); add("file_refusals"); }
  else { if (rw != SUCCESSFUL_RETURN || rr != SUCCESSFUL_RETURN) viol("file-failed", "write %d read %d", (int)rw, (int)rr); else for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) { viol("file-value", "%.17g written, %.17g read", (double)a[i], (double)b[i]); break; }
    unlink(f.c_str()); if (writeIntoFile(&ia[0], m * n, f.c_str(), BT_FALSE) != SUCCESSFUL_RETURN || readFromFile(&ib[0], m * n, f.c_str()) != SUCCESSFUL_RETURN || ia != ib) viol("int-file", "integers %dx%d not read back", m, n);
    FILE* mf = fopen(fm.c_str(), "wb"); returnValue w1 = writeIntoMatFile(mf, &a[0], m, n, "Va"), w2 = writeIntoMatFile(mf, &ia[0], m, n, "Ib"); fclose(mf); mf = fopen(fm.c_str(), "rb");
    if (w1 != SUCCESSFUL_RETURN || w2 != SUCCESSFUL_RETURN) viol("mat-failed", "%d %d", (int)w1, (int)w2);
    else for (int k = 0; k < 2; ++k) { int h[5]; char nm[3] = {0}; bool ok = fread(h, sizeof h, 1, mf) == 1 && h[0] == 0 && h[1] == m && h[2] == n && h[3] == 0 && h[4] == 3 && fread(nm, 3, 1, mf) == 1 && !strcmp(nm, k ? "Ib" : "Va"); for (int j = 0; ok && j < n; ++j) for (int i = 0; ok && i < m; ++i) { double v; ok = fread(&v, 8, 1, mf) == 1 && v == (k ? (double)ia[i * n + j] : (double)a[i * n + j]); } if (!ok) { viol("mat-content", "variable %d of a %dx%d file", k, m, n); break; } }
    fclose(mf); add("files_compared");
  }
  unlink(f.c_str()); unlink(fm.c_str());
  if (r.chance(0.05)) { struct timespec t0, t1, t2, t3; clock_gettime(CLOCK_REALTIME, &t0); double c0 = getCPUtime(); clock_gettime(CLOCK_REALTIME, &t1); do clock_gettime(CLOCK_REALTIME, &t2); while ((t2.tv_sec - t1.tv_sec) * 1e3 + (t2.tv_nsec - t1.tv_nsec) * 1e-6 < 3); double c1 = getCPUtime(); clock_gettime(CLOCK_REALTIME, &t3); double lo = (t2.tv_sec - t1.tv_sec) + (t2.tv_nsec - t1.tv_nsec) * 1e-9, hi2 = (t3.tv_sec - t0.tv_sec) + (t3.tv_nsec - t0.tv_nsec) * 1e-9; add("clocks_compared"); if (!(c1 - c0 >= lo - 1e-3 && c1 - c0 <= hi2 + 1e-3)) viol("clock", "%.4g s measured, %.4g..%.4g s passed", c1 - c0, lo, hi2); }
  (void)idx; (void)p;
}
static void run(long idx, Rng& r) {
  H_ = 1469598103934665603ULL; tag("configs"); GenOpt o; o.nmax = 7; o.mmax = 9; int kind = r.range(0, 2); if (kind == 0) o.mmax = 0; bool integer = r.chance(0.15); if (integer) { o.integer = true; o.pWeak = 0.2; }
  Prob p; if (!integer && r.chance(0.5)) genKnown(r, p, o); else genFeasible(r, p, o); if (p.ht == HST_IDENTITY || p.H.empty()) { p.H.assign((size_t)p.n * p.n, 0.0); for (int i = 0; i < p.n; ++i) p.H[i * p.n + i] = 1; } p.ht = HST_UNKNOWN; p.omit = 0; rnd(p); int n = p.n, m = p.m; sig(probSig(p)); bool must = !integer;
  int preset = r.range(0, 5); Options op; switch (preset) { case 0: break; case 1: op.setToReliable(); break; case 2: op.setToMPC(); break; case 3: op.setToFast(); break; case 4: op.enableFarBounds = BT_FALSE; break; default: op.setToReliable(); op.enableFarBounds = BT_FALSE; } bool mpc = preset == 2 || preset == 3;
  static const PrintLevel PL[] = {PL_NONE, PL_NONE, PL_LOW, PL_MEDIUM, PL_HIGH, PL_TABULAR, PL_DEBUG_ITER}; op.printLevel = PL[r.chance(0.7) ? 0 : r.range(0, 6)];
  FILE* sink = 0; char* mem = 0; size_t memn = 0; MessageHandling* mh = getGlobalMessageHandler(); if (op.printLevel != PL_NONE) sink = open_memstream(&mem, &memn);
  { Obj s(kind, n, m); s.b->setOptions(op); if (sink) mh->setOutputFile(sink); // (the first object resets the handler)
    bool sparse = r.chance(0.35); int steps = r.range(1, 6); bool live = false; char ex[120]; static const char* KN[] = {"QProblemB", "QProblem", "SQProblem"}; long changes = 0; int hopeless = 0;
    for (int k = 0; k < steps; ++k) {
      if (k) { genVectors(r, p, o); p.haveOpt = false; p.omit = 0; if (kind == 2 && r.chance(0.4)) { Prob q; q.n = n; q.m = m; GenOpt o2 = o; genH(r, q, o2); if (q.ht == HST_IDENTITY || q.H.empty()) { q.H.assign((size_t)n * n, 0.0); for (int i = 0; i < n; ++i) q.H[i * n + i] = 1; } p.H = q.H; } rnd(p); }
      int how = (k == 0 || !live || r.chance(0.12)) ? 0 : (kind == 2 ? 2 : 1); Prob bad; bool inf = r.chance(0.12); if (inf) { bad = p; if (m && r.chance(0.6)) { int c = r.range(0, m - 1); double lo = 0, hiV = 0; for (int j = 0; j < n; ++j) { bad.lb[j] = -2; bad.ub[j] = 2; double t = std::fabs(bad.A[c * n + j]); lo -= 2 * t; hiV += 2 * t; } bad.lbA[c] = hiV + 1 + r.uni(0, 2); bad.ubA[c] = bad.lbA[c] + 1; } else { int j = r.range(0, n - 1); bad.lb[j] = r.uni(-1, 1); bad.ub[j] = bad.lb[j] - r.uni(0.5, 2); } rnd(bad); }
      if (how == 0 && live && r.chance(0.5)) { s.b->reset(); s.b->setOptions(op); hi(7); } if (live && r.chance(0.15)) { s.copy(); if (sink) mh->setOutputFile(sink); add("copies"); }
      const Prob& w = inf ? bad : p; int_t nw = 1000 + 20 * (n + m), nw0 = nw; bool tight = !inf && r.chance(0.1); if (tight) nw = nw0 = r.range(0, 3); returnValue rv = s.go(how, w, nw, sparse, r); add(how == 0 ? "inits" : (how == 1 ? "hotstarts" : "matrix_hotstarts")); snprintf(ex, sizeof ex, "%s preset %d step %d how %d %s n=%d m=%d", KN[kind], preset, k, how, sparse ? "sparse" : "dense", n, m);
      rvec x(n + 1, (real_t)0), y(n + m + 1, (real_t)0), ws(n + m + 1, (real_t)0); returnValue r1 = s.b->getPrimalSolution(&x[0]), r2 = s.b->getDualSolution(&y[0]); if (kind == 0) s.b->getWorkingSet(&ws[0]); else s.q->getWorkingSet(&ws[0]); real_t ob = s.b->getObjVal();
      hi(rv); hi(nw); hi(r1); hi(r2); hv(x); hv(y); hv(ws); { double d = ob; hb(&d, sizeof d); } hi(s.b->isSolved()); hi(s.b->isInfeasible()); hi(s.b->isUnbounded()); hi(s.b->getStatus()); hi(s.b->getNFR()); hi(s.b->getNZ()); hi(s.b->getHessianType()); hi(getSimpleStatus(rv)); changes += (long)nw; if (R().verbose) fprintf(stderr, "step %d rv %d nw %d hash %llx %s\n", k, (int)rv, (int)nw, (unsigned long long)H_, ex);
      live = s.b->getStatus() != QPS_NOTINITIALISED;
      if (nw < 0 || nw > nw0) { viol("nwsr-range", "nWSR %d of %d %s", (int)nw, (int)nw0, ex); break; }
      if (inf) { if (rv == SUCCESSFUL_RETURN) { viol("infeasible-solved", "%s", ex); dumpProb(w); break; } if (s.b->isInfeasible() == BT_TRUE) add(SINGLE ? "single_flagged" : "flagged_infeasible"); else { add(SINGLE ? "single_unflagged" : "infeasible_unflagged"); if (!SINGLE && must && !(how && hopeless)) { viol("infeasible-unflagged", "ret %d %s", (int)rv, ex); break; } } hopeless = 1; continue; }
      if (rv == RET_MAX_NWSR_REACHED && tight) { add("interrupted"); continue; }
      if (rv != SUCCESSFUL_RETURN) { add(SINGLE ? "single_unsolved" : "unsolved"); if (s.b->isUnbounded() == BT_TRUE && must) viol("bounded-unbounded", "ret %d %s", (int)rv, ex); if (s.b->isInfeasible() == BT_TRUE && must && !SINGLE) { viol("feasible-infeasible", "ret %d %s", (int)rv, ex); dumpProb(p); } break; }
      add(SINGLE ? "single_solved" : "solved"); hopeless = 0; vec xd(x.begin(), x.end()), yd(y.begin(), y.end()); Kkt q = kkt(p, &xd[0], &yd[0]); double tol = SINGLE ? (mpc ? 2e-2 : 5e-3) : (mpc ? 2e-6 : 1e-7); smax(SINGLE ? (mpc ? "kkt_single_mpc" : "kkt_single") : (mpc ? "kkt_mpc" : "kkt"), must ? q.worst : 0); 
      if (!(q.worst <= tol)) { if ((SINGLE && mpc) || !must) { add(SINGLE ? (mpc ? "single_inexact_mpc" : "single_inexact") : "inexact"); if (SINGLE && R().verbose) fprintf(stderr, "case %ld inexact %.2e mpc %d must %d %s\n", idx, q.worst, mpc, must, ex); if (!(q.worst <= 0.3)) add(SINGLE ? "single_wrong" : "wrong"); } else { viol("kkt", "residuals stat=%.1e feas=%.1e sign=%.1e compl=%.1e %s", q.stat, q.feas, q.sign, q.compl_, ex); dumpProb(p); } break; }
      ld oo = objective(p, &xd[0]), mag = 1; for (int i = 0; i < n; ++i) { mag += std::fabs(p.g[i] * xd[i]); for (int j = 0; j < n; ++j) mag += std::fabs(p.H[i * n + j] * xd[i] * xd[j]); } if (!(fabsl(oo - ob) <= (SINGLE ? 1e-5L : 1e-9L) * mag)) { viol("objval", "%.9g instead of %.9Lg %s", (double)ob, oo, ex); break; }
      { SolutionAnalysis an; real_t ms = 7, mf = 7, mc = 7; real_t ra = kind == 0 ? an.getKktViolation(s.b, &ms, &mf, &mc) : an.getKktViolation(s.q, &ms, &mf, &mc); { double d[4] = {(double)ms, (double)mf, (double)mc, (double)ra}; hb(d, sizeof d); } double lim = SINGLE ? (mpc ? 1 : 1e-2) : (mpc ? 1e-4 : 1e-6); if (!(ra >= 0) || (must && !(SINGLE && mpc) && !((double)ms <= lim && (double)mf <= lim && (double)mc <= lim))) viol("analysis", "%.2e: %.2e %.2e %.2e %s", (double)ra, (double)ms, (double)mf, (double)mc, ex); add("analyses"); }
      if (p.haveOpt) { double dx = maxDiff(&xd[0], &p.xs[0], n); add(SINGLE ? "single_compared" : "compared_with_known"); if (!(dx <= (SINGLE ? 2e-2 : (mpc ? 1e-4 : 1e-6)))) { if (SINGLE && mpc) add("single_off_optimum"); else viol("xopt", "off by %.2e %s", dx, ex); break; } }
    }
    if (changes) add("nontrivial"); if (op.printLevel == PL_HIGH || op.printLevel == PL_MEDIUM) { s.b->printOptions(); s.b->printProperties(); add("printed_properties"); } sample("%s %s: %d steps, %ld working set changes, hash %llx", VF_CFG, KN[kind], steps, changes, (unsigned long long)H_);
  }
  if (sink) { fflush(sink); long written = (long)memn; mh->setOutputFile(0); mh->setOutputFile(stdout); fclose(sink); free(mem); add("printing_cases"); if (MUTE && written > 0) viol("output-not-suppressed", "%ld bytes written in a configuration without output", written); if (written > 0) add("printed_something"); }
  if (r.chance(0.25)) aux(idx, r, p);
  add("cases:" VF_CFG); const char* d = getenv("VF_TRACE"); if (d || getenv("VF_TMP")) { char f[600]; snprintf(f, sizeof f, "%s/trace-%s-%ld", d ? d : getenv("VF_TMP"), VF_CFG, R().from); static int fd = -1; if (fd < 0) fd = ::open(f, O_CREAT | O_WRONLY | O_APPEND, 0644); char l[80]; int k = snprintf(l, sizeof l, "%ld %llx\n", idx, (unsigned long long)H_); ssize_t z = ::write(fd, l, (size_t)k); (void)z; }
}
int main(int c, char** v) { return runMain(c, v, run); }
