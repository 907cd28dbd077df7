// Invalid, incomplete, misordered or failing calls are reported and leave the object usable.
#include "common.hpp"
#include <list>
#include <string>
using namespace vf;
static std::string dir() { const char* d = getenv("VF_TMP"); char b[600]; snprintf(b, sizeof b, "%s/p11.%d", d ? d : "/tmp", (int)getpid()); return b; }
static void putFile(const char* nm, const double* v, int rows, int cols) { std::string f = dir() + nm; FILE* h = fopen(f.c_str(), "w"); if (!h) return; for (int i = 0; i < rows; ++i) { for (int j = 0; j < cols; ++j) fprintf(h, "%.17g ", v[i * cols + j]); fputc('\n', h); } fclose(h); }
struct Env { std::list<Prob> keep; GenOpt o; Prob* cur; int n, m; Kind kd; HessianType ht; int preset; bool files; std::list<Bounds> gb; std::list<Constraints> gc;
  Prob* next(Rng& r, bool mats) { keep.push_back(*cur); Prob* p = &keep.back(); p->omit = 0; if (mats && kd == KS) { if (p->ht == HST_UNKNOWN) { Prob f; f.n = n; GenOpt oo = o; oo.hk = HK_DENSE; genH(r, f, oo); p->H = f.H; } if (m) { Prob f; f.n = n; f.m = m; genA(r, f, o); p->A = f.A; } genVectors(r, *p, o); } else nextVectors(r, *p, o); cur = p; return p; }
  void writeFiles(const Prob& p) { if (p.Hp()) putFile("H", &p.H[0], n, n); putFile("g", &p.g[0], n, 1); putFile("lb", &p.lb[0], n, 1); putFile("ub", &p.ub[0], n, 1); if (m) { putFile("A", &p.A[0], m, n); putFile("lbA", &p.lbA[0], m, 1); putFile("ubA", &p.ubA[0], m, 1); } }
  void wipe() { const char* N[] = {"H", "g", "A", "lb", "ub", "lbA", "ubA", "R"}; for (int i = 0; i < 8; ++i) unlink((dir() + N[i]).c_str()); } };
struct F7 { std::string s[7]; const char* p[7]; F7(const Prob& q) { const char* N[] = {"H", "g", "A", "lb", "ub", "lbA", "ubA"}; for (int i = 0; i < 7; ++i) { s[i] = dir() + N[i]; p[i] = s[i].c_str(); } if (!q.Hp()) p[0] = 0; if (!q.m) p[2] = p[5] = p[6] = 0; } };
struct Mats { std::list<SymDenseMat*> h; std::list<DenseMatrix*> a; ~Mats() { for (std::list<SymDenseMat*>::iterator i = h.begin(); i != h.end(); ++i) delete *i; for (std::list<DenseMatrix*>::iterator i = a.begin(); i != a.end(); ++i) delete *i; }
  SymDenseMat* H(const double* d, int n) { if (!d) return 0; h.push_back(new SymDenseMat(n, n, n, (double*)d)); return h.back(); } DenseMatrix* A(const double* d, int m, int n) { if (!d) return 0; a.push_back(new DenseMatrix(m, n, n, (double*)d)); return a.back(); } };
static int ovl; // 0 arrays, 1 matrix objects, 2 files
static const char* fl(const char* nm, const double* v, int rows, int cols) { static char k[16][700]; static int q = 0; if (!v) return 0; putFile(nm, v, rows, cols); q = (q + 1) % 16; snprintf(k[q], 700, "%s%s", dir().c_str(), nm); return k[q]; }
static returnValue doInit(Solver& s, Mats& mm, const double* H, const double* g, const double* A, const double* lb, const double* ub, const double* lbA, const double* ubA, const double* x, const double* y, const Bounds* gb, const Constraints* gc, const double* R_, int_t& nw, double* cp) {
  int n = s.n, m = s.m; if (ovl == 1) add("object_overload"); if (ovl == 2) add("file_overload");
  if (ovl == 1) return s.kind == KB ? s.b->init(mm.H(H, n), g, lb, ub, nw, cp, x, y, gb, R_) : s.q->init(mm.H(H, n), g, mm.A(A, m, n), lb, ub, lbA, ubA, nw, cp, x, y, gb, gc, R_);
  if (ovl == 2) { const char *fH = fl("H", H, n, n), *fg = fl("g", g, n, 1), *fA = fl("A", A, m, n), *f1 = fl("lb", lb, n, 1), *f2 = fl("ub", ub, n, 1), *f3 = fl("lbA", lbA, m, 1), *f4 = fl("ubA", ubA, m, 1), *fR = fl("R", R_, n, n); return s.kind == KB ? s.b->init(fH, fg, f1, f2, nw, cp, x, y, gb, fR) : s.q->init(fH, fg, fA, f1, f2, f3, f4, nw, cp, x, y, gb, gc, fR); }
  return s.init(H, g, A, lb, ub, lbA, ubA, nw, cp, x, y, gb, gc, R_); }
static returnValue doHot(Solver& s, const double* g, const double* lb, const double* ub, const double* lbA, const double* ubA, const Bounds* gb, const Constraints* gc, int_t& nw, double* cp) {
  int n = s.n, m = s.m; if (ovl == 2) { add("file_overload"); const char *fg = fl("g", g, n, 1), *f1 = fl("lb", lb, n, 1), *f2 = fl("ub", ub, n, 1), *f3 = fl("lbA", lbA, m, 1), *f4 = fl("ubA", ubA, m, 1); return s.kind == KB ? s.b->hotstart(fg, f1, f2, nw, cp, gb) : s.q->hotstart(fg, f1, f2, f3, f4, nw, cp, gb, gc); }
  return s.kind == KB ? s.b->hotstart(g, lb, ub, nw, cp, gb) : s.q->hotstart(g, lb, ub, lbA, ubA, nw, cp, gb, gc); }
static returnValue doHotM(Solver& s, Mats& mm, const double* H, const double* g, const double* A, const double* lb, const double* ub, const double* lbA, const double* ubA, int_t& nw, double* cp) {
  int n = s.n, m = s.m; if (ovl == 1) add("object_overload"); if (ovl == 2) add("file_overload"); if (ovl == 1) return s.s->hotstart(mm.H(H, n), g, mm.A(A, m, n), lb, ub, lbA, ubA, nw, cp);
  if (ovl == 2) { const char *fH = fl("H", H, n, n), *fg = fl("g", g, n, 1), *fA = fl("A", A, m, n), *f1 = fl("lb", lb, n, 1), *f2 = fl("ub", ub, n, 1), *f3 = fl("lbA", lbA, m, 1), *f4 = fl("ubA", ubA, m, 1); return s.s->hotstart(fH, fg, fA, f1, f2, f3, f4, nw, cp); }
  return s.s->hotstart(H, g, A, lb, ub, lbA, ubA, nw, cp); }
// one correct step that must lead to the optimum again
static bool nextStep(const char* after, Solver& s, Env& e, Rng& r, bool mustHot, bool mustInit) {
  bool canHot = s.b->isInitialised() == BT_TRUE; QProblemStatus st = s.b->getStatus(); if (st == QPS_PREPARINGAUXILIARYQP || st == QPS_PERFORMINGHOMOTOPY) canHot = false; if (mustInit) canHot = false;
  if (mustHot && !canHot) { char k[96]; snprintf(k, sizeof k, "object-lost-%s", after); viol(k, "status %d after a rejected call, the object was initialised and solved before", (int)st); }
  int mode = canHot ? r.range(0, e.kd == KS ? 3 : 2) : 0; if (r.chance(0.6) && canHot && mode == 0) mode = 1; int_t nw = 2000; returnValue rv; Prob* p; char w[64]; const char* nm;
  if (mode == 0) { keepIt: nw = 2000; p = e.next(r, true); bool rs = r.chance(0.3) && canHot; if (e.ht != HST_UNKNOWN && s.b->isInitialised() == BT_TRUE) rs = true; if (rs) s.b->reset(); if (e.ht != HST_UNKNOWN) s.b->setHessianType(e.ht); nm = rs ? "reset-init" : "init";
    if (e.files && r.chance(0.2)) { e.writeFiles(*p); F7 f(*p); nm = "file-init"; rv = e.kd == KB ? s.b->init(f.p[0], f.p[1], f.p[3], f.p[4], nw) : s.q->init(f.p[0], f.p[1], f.p[2], f.p[3], f.p[4], f.p[5], f.p[6], nw); } else rv = s.init(*p, nw); add("recovered_by_init"); }
  else if (mode <= 2) { p = e.next(r, false); nm = "hotstart"; rv = s.hot(*p, nw); add("recovered_by_hotstart"); }
  else { p = e.next(r, true); nm = "matrix-hotstart"; rv = s.hotM(*p, nw); add("recovered_by_matrix_hotstart"); }
  snprintf(w, sizeof w, "%s-after-%s", nm, after);
  if (rv != SUCCESSFUL_RETURN) { add("next_step_failed"); viol(w, "returned %d %s n=%d m=%d preset %d status before %d", (int)rv, kindName(e.kd), e.n, e.m, e.preset, (int)st); dumpProb(*p); int_t z = 2000; if (mode == 0) return false; mode = 0; (void)z; goto keepIt; }
  double tol = looseOpts(e.preset) ? 2e-4 : 1e-6; vec x, y; s.sol(x, y); Kkt k = kkt(*p, &x[0], &y[0]); add("kkt_checked"); smax("next-step", k.worst);
  if (k.worst > tol) { viol(w, "success but KKT residuals stat=%.2e feas=%.2e sign=%.2e compl=%.2e preset %d %s n=%d m=%d", k.stat, k.feas, k.sign, k.compl_, e.preset, kindName(e.kd), e.n, e.m); dumpProb(*p); }
  return coherentSets(w, s) == 0;
}
static const char* CL[] = {"generic", "identity", "small", "bounds"};
static void run(long idx, Rng& r) {
  int cls = (int)(idx % 4); Env e; e.files = r.chance(0.15); switch (cls) { case 1: e.o.hk = HK_IDENT; break; case 2: e.o.nmax = 3; e.o.mmax = 4; break; case 3: e.o.mmax = 0; break; } tag(CL[cls]);
  e.keep.push_back(Prob()); e.cur = &e.keep.back(); genFeasible(r, *e.cur, e.o); if (e.cur->ht != HST_IDENTITY) e.cur->ht = HST_UNKNOWN; e.n = e.cur->n; e.m = e.cur->m; e.ht = e.cur->ht; e.kd = e.m == 0 && r.chance(0.6) ? KB : (r.chance(0.5) ? KQ : KS); int n = e.n, m = e.kd == KB ? 0 : e.m; int pr[] = {0, 0, 1, 2, 3, 4, 5, 6}; e.preset = pr[r.range(0, 7)];
  uint64_t h = probSig(*e.cur); Prob saved;
  if (r.chance(0.05)) { // an object without dimensions refuses everything
    SQProblem a; QProblem q; QProblemB b; int_t nw = 100; vec x(n + m + 1, 0.0); add("empty_objects"); const Prob& p = *e.cur; Options o = presetOptions(0); a.setOptions(o); q.setOptions(o); b.setOptions(o); int bad = 0;
    #define MUSTFAIL(c, nm) { nw = 100; returnValue z = (c); add("rejected"); if (z == SUCCESSFUL_RETURN) { viol("empty-object-" nm, "success on an object without dimensions"); ++bad; } }
    MUSTFAIL(a.init(p.Hp(), &p.g[0], p.Ap(), p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw), "init") MUSTFAIL(q.init(p.Hp(), &p.g[0], p.Ap(), p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw), "init") MUSTFAIL(b.init(p.Hp(), &p.g[0], p.lbp(), p.ubp(), nw), "init")
    MUSTFAIL(a.hotstart(&p.g[0], p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw), "hotstart") MUSTFAIL(q.hotstart(&p.g[0], p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw), "hotstart") MUSTFAIL(b.hotstart(&p.g[0], p.lbp(), p.ubp(), nw), "hotstart") MUSTFAIL(a.hotstart(p.Hp(), &p.g[0], p.Ap(), p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw), "matrix-hotstart")
    MUSTFAIL(a.getPrimalSolution(&x[0]), "solution") MUSTFAIL(b.getDualSolution(&x[0]), "solution")
    q = QProblem(n, std::max(1, m)); // becomes usable by assignment
    if (e.kd != KB && m > 0 && e.ht == HST_UNKNOWN) { q.setOptions(o); nw = 2000; if (q.init(p.Hp(), &p.g[0], p.Ap(), p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw) != SUCCESSFUL_RETURN) viol("assigned-empty-object", "init failed"); }
    if (bad) return;
  }
  Mats mm; Solver s(e.kd, n, m, e.ht); s.b->setOptions(presetOptions(e.preset)); bool live = false; int steps = r.range(2, R().thorough ? 20 : 8); const double* NUL = 0; int wrong = 0;
  std::string hist;
  for (int k = 0; k < steps; ++k) {
    bool was = live && k > 0; int nbad = r.range(1, 3); const char* nm = "nothing"; bool hot = false, keeps = true, indef = false; was = false; char nmb[160] = "";
    for (int b = 0; b < nbad; ++b) {
      { QProblemStatus z = s.b->getStatus(); was = z != QPS_NOTINITIALISED && z != QPS_PREPARINGAUXILIARYQP; live = live && was; } bool kept0 = keeps; keeps = true; hot = false; Prob save = *e.cur; Prob* p = e.next(r, false); int_t nw = 1000, *pw = &nw; double cpu = 1e3, *cp = r.chance(0.2) ? &cpu : 0; returnValue rv = SUCCESSFUL_RETURN, want = SUCCESSFUL_RETURN; vec x(n + 1, 0.0), y(n + m + 1, 0.0); bool done = true, flagOnly = false; int u = r.range(0, 35); ovl = e.files && r.chance(0.5) ? 2 : (r.chance(0.4) ? 1 : 0); if (ovl == 2 && (u == 13 || ((u == 21 || (u >= 23 && u <= 25)) && !p->Hp()))) ovl = 0;
      Bounds shortB(r.range(1, n)); Constraints shortC(std::max(1, r.range(0, m))); Bounds gb(n); Constraints gc(m); for (int i = 0; i < n; ++i) gb.setupBound(i, ST_INACTIVE); for (int i = 0; i < m; ++i) gc.setupConstraint(i, ST_INACTIVE); Bounds unset(n); Constraints unsetC(m);
      vec Rf(n * n, 0.0); for (int i = 0; i < n; ++i) Rf[i * n + i] = 1;
      vec lbx(p->lb), ubx(p->ub), lbAx(p->lbA), ubAx(p->ubA);
      #define INIT(H_, g_, A_, lb_, ub_, lbA_, ubA_, x_, y_, gb_, gc_, R_) (keeps = false, e.ht != HST_UNKNOWN ? (s.b->reset(), s.b->setHessianType(e.ht)) : SUCCESSFUL_RETURN, doInit(s, mm, H_, g_, A_, lb_, ub_, lbA_, ubA_, x_, y_, gb_, gc_, R_, nw, cp))
      #define HOT(g_, lb_, ub_, lbA_, ubA_, gb_, gc_) (hot = true, doHot(s, g_, lb_, ub_, lbA_, ubA_, gb_, gc_, nw, cp))
      #define STD p->lbp(), p->ubp(), p->lbAp(), p->ubAp()
      const double* H = p->Hp(); const double* g = &p->g[0]; const double* A = p->Ap();
      switch (u) {
        case 0: nm = "init-no-gradient"; rv = INIT(H, NUL, A, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), NUL, NUL, 0, 0, NUL); break;
        case 1: if (!m) { done = false; break; } nm = "init-no-constraint-matrix"; rv = INIT(H, g, NUL, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), NUL, NUL, 0, 0, NUL); break;
        case 2: { nm = "init-crossed-bounds"; int i = r.range(0, n - 1); lbx[i] = r.uni(-1, 1); ubx[i] = lbx[i] - r.uni(0.01, 2); rv = INIT(H, g, A, &lbx[0], &ubx[0], p->lbAp(), p->ubAp(), NUL, NUL, 0, 0, NUL); flagOnly = true; break; }
        case 3: { if (!m) { done = false; break; } nm = "init-crossed-constraints"; int i = r.range(0, m - 1); lbAx[i] = r.uni(-1, 1); ubAx[i] = lbAx[i] - r.uni(0.01, 2); rv = INIT(H, g, A, p->lbp(), p->ubp(), &lbAx[0], &ubAx[0], NUL, NUL, 0, 0, NUL); flagOnly = true; break; }
        case 4: nm = "init-factor-and-guess"; if (r.chance(0.5)) rv = INIT(H, g, A, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), &x[0], NUL, 0, 0, &Rf[0]); else if (r.chance(0.5)) rv = INIT(H, g, A, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), NUL, &y[0], 0, 0, &Rf[0]); else rv = INIT(H, g, A, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), NUL, NUL, &gb, 0, &Rf[0]); want = RET_NO_CHOLESKY_WITH_INITIAL_GUESS; break;
        case 5: nm = "init-dual-and-sets"; rv = INIT(H, g, A, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), NUL, &y[0], &gb, m && r.chance(0.5) ? &gc : 0, NUL); want = RET_INVALID_ARGUMENTS; break;
        case 6: if (shortB.getNV() >= n) { nm = "init-unset-bounds"; rv = INIT(H, g, A, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), NUL, NUL, &unset, 0, NUL); } else { nm = "init-short-bounds"; for (int i = 0; i < shortB.getNV(); ++i) shortB.setupBound(i, ST_INACTIVE); rv = INIT(H, g, A, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), NUL, NUL, &shortB, 0, NUL); } want = RET_INVALID_ARGUMENTS; break;
        case 7: if (!m) { done = false; break; } if (shortC.getNC() >= m) { nm = "init-unset-constraints"; rv = INIT(H, g, A, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), NUL, NUL, 0, &unsetC, NUL); } else { nm = "init-short-constraints"; for (int i = 0; i < shortC.getNC(); ++i) shortC.setupConstraint(i, ST_INACTIVE); rv = INIT(H, g, A, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), NUL, NUL, &gb, &shortC, NUL); } want = RET_INVALID_ARGUMENTS; break;
        case 8: { nm = "init-missing-file"; if (!e.files) { done = false; break; } e.writeFiles(*p); F7 f(*p); int q; do q = r.range(0, 6); while (!f.p[q] || (e.kd == KB && (q == 2 || q > 4))); unlink(f.p[q]); keeps = false; if (e.ht != HST_UNKNOWN) { s.b->reset(); s.b->setHessianType(e.ht); } rv = e.kd == KB ? s.b->init(f.p[0], f.p[1], f.p[3], f.p[4], nw, cp) : s.q->init(f.p[0], f.p[1], f.p[2], f.p[3], f.p[4], f.p[5], f.p[6], nw, cp); break; }
        case 9: { nm = "init-no-gradient-file"; if (!e.files) { done = false; break; } e.writeFiles(*p); F7 f(*p); keeps = false; if (e.ht != HST_UNKNOWN) { s.b->reset(); s.b->setHessianType(e.ht); } rv = e.kd == KB ? s.b->init(f.p[0], (const char*)0, f.p[3], f.p[4], nw, cp) : s.q->init(f.p[0], m && r.chance(0.5) ? f.p[1] : (const char*)0, (const char*)0, f.p[3], f.p[4], f.p[5], f.p[6], nw, cp); break; }
        case 10: nm = "init-no-hessian-no-gradient"; rv = INIT(NUL, NUL, A, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), NUL, NUL, 0, 0, NUL); break;
        case 11: { nm = "init-infeasible"; if (!m || m < 1) { done = false; break; } int i = r.range(0, m - 1); ld lo = 0; for (int j = 0; j < n; ++j) { lbx[j] = -1; ubx[j] = 1; lo += fabsl(p->A[i * n + j]); } lbAx[i] = (double)lo + 1; ubAx[i] = (double)lo + 3; rv = INIT(H, g, A, &lbx[0], &ubx[0], &lbAx[0], &ubAx[0], NUL, NUL, 0, 0, NUL); flagOnly = true; break; }
        case 12: { nm = "init-negative-limit"; nw = -r.range(1, 5); rv = INIT(H, g, A, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), NUL, NUL, 0, 0, NUL); break; }
        case 13: { nm = "init-indefinite"; if (e.ht != HST_UNKNOWN || e.preset != 0 || n < 2) { done = false; break; } e.keep.push_back(*p); Prob* q = &e.keep.back(); for (int i = 0; i < n; ++i) q->H[i * n + i] = -1 - r.u01(); bool fixed = false; for (int i = 0; i < n; ++i) fixed |= p->lb[i] == p->ub[i]; (void)fixed; INIT(q->Hp(), g, A, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), NUL, NUL, 0, 0, NUL); rv = RET_ERROR_UNDEFINED; break; } // outcome not judged, the object must stay usable
        // ------------------------------------------------------------ hotstarts
        case 14: nm = "hot-no-gradient"; rv = HOT(NUL, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), 0, 0); break;
        case 15: { nm = "hot-crossed-bounds"; int i = r.range(0, n - 1); lbx[i] = r.uni(-1, 1); ubx[i] = lbx[i] - r.uni(0.01, 2); rv = HOT(g, &lbx[0], &ubx[0], p->lbAp(), p->ubAp(), 0, 0); flagOnly = true; break; }
        case 16: { if (!m) { done = false; break; } nm = "hot-crossed-constraints"; int i = r.range(0, m - 1); lbAx[i] = r.uni(-1, 1); ubAx[i] = lbAx[i] - r.uni(0.01, 2); rv = HOT(g, p->lbp(), p->ubp(), &lbAx[0], &ubAx[0], 0, 0); flagOnly = true; break; }
        case 17: if (shortB.getNV() >= n) { nm = "hot-unset-bounds"; rv = HOT(g, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), &unset, 0); } else { nm = "hot-short-bounds"; for (int i = 0; i < shortB.getNV(); ++i) shortB.setupBound(i, ST_INACTIVE); rv = HOT(g, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), &shortB, 0); } break;
        case 18: if (!m) { done = false; break; } if (shortC.getNC() >= m) { nm = "hot-unset-constraints"; rv = HOT(g, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), 0, &unsetC); } else { nm = "hot-short-constraints"; for (int i = 0; i < shortC.getNC(); ++i) shortC.setupConstraint(i, ST_INACTIVE); rv = HOT(g, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), 0, &shortC); } break;
        case 19: if (was) { done = false; break; } nm = "hot-before-init"; rv = HOT(g, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), 0, 0); want = RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED; break;
        case 20: if (was) { done = false; break; } nm = "guessed-hot-before-init"; rv = HOT(g, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), &gb, m ? &gc : 0); break;
        case 21: if (was || e.kd != KS) { done = false; break; } nm = "matrix-hot-before-init"; hot = true; rv = doHotM(s, mm, p->Hp(), &p->g[0], p->Ap(), p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), nw, cp); want = RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED; break;
        case 22: { if (!e.files) { done = false; break; } nm = was ? "hot-missing-file" : "file-hot-before-init"; e.writeFiles(*p); F7 f(*p); if (was) { int q; do q = r.range(1, 6); while (!f.p[q] || q == 2 || (e.kd == KB && q > 4)); unlink(f.p[q]); } hot = true; rv = e.kd == KB ? s.b->hotstart(f.p[1], f.p[3], f.p[4], nw, cp) : s.q->hotstart(f.p[1], f.p[3], f.p[4], f.p[5], f.p[6], nw, cp); break; }
        case 23: if (e.kd != KS || e.ht != HST_UNKNOWN) { done = false; break; } nm = "matrix-hot-no-hessian"; hot = true; rv = doHotM(s, mm, NUL, g, A, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), nw, cp); break;
        case 24: if (e.kd != KS || !m) { done = false; break; } nm = "matrix-hot-no-constraint-matrix"; hot = true; rv = doHotM(s, mm, H, g, NUL, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), nw, cp); break;
        case 25: { if (e.kd != KS) { done = false; break; } nm = "matrix-hot-crossed-bounds"; p = e.next(r, true); int i = r.range(0, n - 1); p->lb[i] = r.uni(-1, 1); p->ub[i] = p->lb[i] - r.uni(0.01, 2); hot = true; rv = doHotM(s, mm, p->Hp(), &p->g[0], p->Ap(), p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), nw, cp); flagOnly = true; break; }
        case 26: { if (e.kd != KS || !e.files || !e.cur->Hp()) { done = false; break; } nm = "matrix-hot-missing-file"; e.writeFiles(*p); F7 f(*p); int q; do q = r.range(0, 6); while (!f.p[q]); unlink(f.p[q]); hot = true; rv = s.s->hotstart(f.p[0], f.p[1], f.p[2], f.p[3], f.p[4], f.p[5], f.p[6], nw, cp); break; }
        case 27: { if (e.kd != KS || !e.files || !e.cur->Hp()) { done = false; break; } nm = "matrix-hot-no-file"; e.writeFiles(*p); F7 f(*p); int q = r.range(0, m ? 2 : 1); f.p[q] = 0; hot = true; rv = s.s->hotstart(f.p[0], f.p[1], f.p[2], f.p[3], f.p[4], f.p[5], f.p[6], nw, cp); break; }
        case 28: nm = "hot-negative-limit"; nw = -r.range(1, 5); rv = HOT(g, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), 0, 0); break;
        case 29: { nm = "hot-infeasible"; if (!m) { done = false; break; } int i = r.range(0, m - 1); ld lo = 0; for (int j = 0; j < n; ++j) { lbx[j] = -1; ubx[j] = 1; lo += fabsl(e.cur->A[i * n + j]); } lbAx[i] = (double)lo + 1; ubAx[i] = (double)lo + 3; rv = HOT(g, &lbx[0], &ubx[0], &lbAx[0], &ubAx[0], 0, 0); flagOnly = true; break; }
        // -------------------------------------------------------------- queries
        case 30: nm = "null-working-set"; rv = s.b->getWorkingSet(0); want = RET_INVALID_ARGUMENTS; if (r.chance(0.5)) rv = s.b->getWorkingSetBounds(0); else if (s.q) rv = s.q->getWorkingSetConstraints(0); break;
        case 31: if (was) { done = false; break; } nm = "solution-before-init"; rv = r.chance(0.5) ? s.b->getPrimalSolution(&x[0]) : s.b->getDualSolution(&y[0]); want = RET_QP_NOT_SOLVED; break;
        case 32: { if (!s.q) { done = false; break; } nm = "eqp-no-output"; rv = s.q->solveCurrentEQP(1, g, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), r.chance(0.5) ? 0 : &x[0], 0); break; }
        case 33: { if (!s.q || was) { done = false; break; } nm = "eqp-before-init"; rv = s.q->solveCurrentEQP(1, g, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), &x[0], &y[0]); break; }
        case 35: if (e.kd != KS) { done = false; break; } nm = "matrix-hot-no-gradient"; hot = true; rv = doHotM(s, mm, H, NUL, A, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), nw, cp); break;
        case 34: { nm = "init-no-limit"; nw = 0; keeps = false; vec lx(p->lb), ux(p->ub); rv = INIT(H, g, A, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), NUL, NUL, 0, 0, NUL); if (rv == SUCCESSFUL_RETURN) { *pw = 0; done = false; add("solved_without_change"); } else if (rv != RET_MAX_NWSR_REACHED) viol("init-no-limit", "returned %d", (int)rv); break; }
      }
      if (!done) { *e.cur = save; keeps = keeps && kept0; continue; }
      ++wrong; add("rejected"); h = mix(h, (uint64_t)u + 100 * (uint64_t)was); char st[64]; snprintf(st, sizeof st, "rejected:%s", nm); add(st); snprintf(nmb, sizeof nmb, "%s%s", nm, was ? "" : "-uninit"); nm = nmb;
      info("%s returned %d status %d", nm, (int)rv, (int)s.b->getStatus());
      if (rv == SUCCESSFUL_RETURN) { viol(nm, "reported success %s n=%d m=%d preset %d", kindName(e.kd), n, m, e.preset); return; }
      if (want != SUCCESSFUL_RETURN && rv != want) { char k2[128]; snprintf(k2, sizeof k2, "code-%s", nm); viol(k2, "returned %d, documented %d", (int)rv, (int)want); }
      if (s.b->isSolved() == BT_TRUE && (!was || (!keeps && !hot)) && u != 13) { char k2[128]; snprintf(k2, sizeof k2, "solved-%s", nm); viol(k2, "object claims to be solved after a rejected call"); }
      if (flagOnly && s.b->isSolved() == BT_TRUE) { char k2[128]; snprintf(k2, sizeof k2, "solved-%s", nm); viol(k2, "object claims to be solved after an infeasible problem"); }
      if (!keeps) live = false;
      if (!hot && keeps && u >= 30 && live && s.b->isSolved() != BT_TRUE && k > 0 && b == 0) { char k2[128]; snprintf(k2, sizeof k2, "unsolved-%s", nm); viol(k2, "a rejected query changed the solved state to %d", (int)s.b->getStatus()); }
      *e.cur = e.cur->ht == save.ht && e.cur->H == save.H && e.cur->A == save.A ? save : *e.cur; e.cur->haveOpt = false; if (u == 25) genVectors(r, *e.cur, e.o); indef = u == 13 ? true : (keeps && indef); keeps = keeps && kept0;
    }
    if (!nextStep(nmb[0] ? nmb : "nothing", s, e, r, live && keeps && k > 0, indef)) return; live = true;
  }
  if (wrong) sig(h); if (e.files) e.wipe(); sample("class=%s kind=%s n=%d m=%d steps=%d rejected calls=%d files=%d preset=%d", CL[cls], kindName(e.kd), n, m, steps, wrong, (int)e.files, e.preset);
}
int main(int c, char** v) { varyOptions(); return runMain(c, v, run); }
