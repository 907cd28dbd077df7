// One problem (sequence), many representations of its data: the answers must be the same.
#include "reps.hpp"
#include <sys/stat.h>
using namespace vf;
static const char* REP[] = {"arrays", "objects", "files", "product", "implicit-type", "objects+product", "mixed"};
enum { NREP = 7 };
static bool usesReg(Solver& s) { return s.b->usingRegularisation() == BT_TRUE; }
static char dir[300];
static void wfile(const char* nm, const double* v, int r, int c, Rng& q) { char p[400]; snprintf(p, sizeof p, "%s/%s", dir, nm); FILE* f = fopen(p, "w"); if (!f) { fprintf(stderr, "cannot write %s\n", p); _exit(3); } for (int i = 0; i < r; ++i) { for (int j = 0; j < c; ++j) fprintf(f, q.chance(0.5) ? "%.17g " : "%.17e\t", v[i * c + j]); fprintf(f, q.chance(0.1) ? " \n\n" : "\n"); } fclose(f); }
struct Files { char nm[7][400]; const char* p[7]; // H g A lb ub lbA ubA
  Files(const Prob& q, bool mats, const double* H, Rng& r) { static const char* N[] = {"H", "g", "A", "lb", "ub", "lbA", "ubA"}; for (int i = 0; i < 7; ++i) { snprintf(nm[i], sizeof nm[i], "%s/%s", dir, N[i]); p[i] = 0; }
    if (mats && H) { wfile("H", H, q.n, q.n, r); p[0] = nm[0]; } wfile("g", &q.g[0], q.n, 1, r); p[1] = nm[1]; if (mats && q.m) { wfile("A", &q.A[0], q.m, q.n, r); p[2] = nm[2]; }
    if (q.lbp()) { wfile("lb", q.lbp(), q.n, 1, r); p[3] = nm[3]; } if (q.ubp()) { wfile("ub", q.ubp(), q.n, 1, r); p[4] = nm[4]; } if (q.lbAp()) { wfile("lbA", q.lbAp(), q.m, 1, r); p[5] = nm[5]; } if (q.ubAp()) { wfile("ubA", q.ubAp(), q.m, 1, r); p[6] = nm[6]; } } };
struct One { Solver* s; int rep; std::vector<Mats*> ms; std::vector<Product*> ps; vec hcopy; std::vector<vec*> arrs; bool alive; One() : s(0), rep(0), alive(true) {} ~One() { delete s; for (size_t i = 0; i < ms.size(); ++i) delete ms[i]; for (size_t i = 0; i < ps.size(); ++i) delete ps[i]; for (size_t i = 0; i < arrs.size(); ++i) delete arrs[i]; }
  long calls() const { long c = 0; for (size_t i = 0; i < ps.size(); ++i) c += ps[i]->calls; return c; } };
static const double* keep(One& o, const vec& v) { if (v.empty()) return 0; o.arrs.push_back(new vec(v)); return &(*o.arrs.back())[0]; }
static const char* CL[] = {"known", "generic", "bounds", "semidefinite", "identity", "zero", "sparse", "integer", "infeasible", "unbounded"};
enum { NCL = 10 };
static void gen(Rng& r, Prob& p, GenOpt& o, int cls, int fn = -1, int fm = -1) {
  o.nmax = 8; o.mmax = 10; switch (cls) { case 0: case 7: break; case 2: o.mmin = o.mmax = 0; break; case 3: o.hk = HK_SEMI; o.pInf = 0; break; case 4: o.hk = HK_IDENT; break; case 5: o.hk = HK_ZERO; o.pInf = 0; break; case 6: o.nmin = 6; o.nmax = 14; o.mmax = 16; o.hk = HK_SPARSE; break; case 8: o.mmin = 1; break; case 9: o.hk = HK_DIAG; break; default: break; }
  if (cls == 7) { o.integer = true; o.nmax = 6; } if (fn >= 0) { o.nmin = o.nmax = fn; o.mmin = o.mmax = fm; } if (cls == 0) genKnown(r, p, o); else genFeasible(r, p, o);
  if (cls == 8) { int c = r.range(0, p.m - 1); // interval sum of a row over the box excludes the demanded value by a margin
    for (int i = 0; i < p.n; ++i) { p.lb[i] = -2; p.ub[i] = 2; } double s = 0; for (int j = 0; j < p.n; ++j) s += 2 * std::fabs(p.A[c * p.n + j]); if (r.chance(0.5)) { p.lbA[c] = s + 1 + s * r.u01(); p.ubA[c] = INFTY; } else { p.ubA[c] = -s - 1; p.lbA[c] = -INFTY; } }
  if (cls == 9) { int i = r.range(0, p.n - 1); p.H[i * p.n + i] = 0; p.ht = r.chance(0.5) ? HST_SEMIDEF : HST_UNKNOWN; p.g[i] = 1 + r.u01(); for (int k = 0; k < p.n; ++k) { p.lb[k] = std::min(p.lb[k], -r.u01()); p.ub[k] = std::max(p.ub[k], r.u01()); } p.lb[i] = -INFTY; p.ub[i] = 2; for (int c = 0; c < p.m; ++c) { p.A[c * p.n + i] = 0; p.lbA[c] = std::min(p.lbA[c], -r.u01()); p.ubA[c] = std::max(p.ubA[c], r.u01()); } }
}
static void run(long idx, Rng& r) {
  int cls = (int)(idx % NCL); GenOpt o; Prob p; gen(r, p, o, cls); int n = p.n, m = p.m; tag(CL[cls]); snprintf(dir, sizeof dir, "%s/p13.%d", getenv("VF_TMP") ? getenv("VF_TMP") : "/tmp", (int)getpid()); mkdir(dir, 0755);
  static const int PR[] = {0, 0, 1, 2, 4}; int preset = PR[r.range(0, 4)]; if ((cls == 3 || cls == 5) && preset == 2) preset = 0; if (cls == 9) preset = r.range(0, 1); Kind kd = m == 0 && r.chance(0.6) ? KB : (r.chance(0.5) ? KQ : KS); bool uniq = cls != 3 && cls != 5 && cls < 8; double tol = 1e-6; long changes = 0; uint64_t h = mix(probSig(p), (uint64_t)preset * 10 + kd);
  std::vector<One*> V; int reps[NREP]; int nr = 0; for (int k = 0; k < NREP; ++k) { if ((k == 3 || k == 5) && (kd == KB || m == 0)) continue; if (k && r.chance(0.4)) continue; reps[nr++] = k; }
  for (int k = 0; k < nr; ++k) { One* v = new One(); v->rep = reps[k]; V.push_back(v); HessianType ht = p.ht; if (v->rep == 4) ht = HST_UNKNOWN; v->s = new Solver(kd, n, m, ht); v->s->b->setOptions(presetOptions(preset)); }
  int steps = r.range(2, R().thorough ? 12 : 6); Prob cur = p; int okAll = 0;
  for (int st = 0; st < steps; ++st) {
    bool mats = st > 0 && kd == KS && r.chance(0.4) && cls < 8; if (st) { if (mats) { Prob f; GenOpt q = o; if (cur.ht == HST_IDENTITY) q.hk = HK_IDENT; else if (cur.ht == HST_ZERO) q.hk = HK_ZERO; gen(r, f, q, cls, n, m); HessianType ht = cur.ht; cur = f; if (ht == HST_IDENTITY || ht == HST_ZERO) cur.ht = ht; else if (cur.ht == HST_IDENTITY || cur.ht == HST_ZERO) cur.ht = HST_UNKNOWN; } else if (cls < 8) nextVectors(r, cur, o); else { for (int i = 0; i < n; ++i) cur.g[i] += cls == 9 && cur.lb[i] <= -INFTY && cur.H[i * n + i] == 0 ? 0.1 * r.u01() : r.nrm(); } if (r.chance(0.1) && cls < 8 && uniq) cur.drop(1 << r.range(0, 3)); h = mix(h, probSig(cur)); }
    returnValue ref = SUCCESSFUL_RETURN; vec x0, y0; double obj0 = 0; bool anyOk = false, inf0 = false, unb0 = false; int first = -1; char what[160];
    for (size_t k = 0; k < V.size(); ++k) { One& v = *V[k]; if (!v.alive) continue; Solver& s = *v.s; int_t nw = 2000; returnValue rv; int rep = v.rep == 6 ? r.range(0, 5) : v.rep; if (v.rep == 6 && rep == 4) rep = 0; if ((rep == 3 || rep == 5) && (kd == KB || m == 0)) rep = 0;
      const double* Hp = cur.Hp(); bool full = !Hp && rep == 4; if (full && st == 0) { Hp = keep(v, cur.H); add("implicit_types"); } else if (full) Hp = keep(v, cur.H);

      snprintf(what, sizeof what, "%s step %d%s kind %s preset %d n=%d m=%d", REP[v.rep], st, mats ? " (matrices)" : "", kindName(kd), preset, n, m);
      if (st == 0 || mats) { bool hot = st > 0; if (rep == 3 || rep == 5 || (v.ps.size() && s.q)) { v.ps.push_back(new Product(cur)); s.q->setConstraintProduct(v.ps.back()); add("products"); }
        if (rep == 1 || rep == 5) { Mats* M = new Mats(); v.ms.push_back(M); M->random(r, cur, Hp != 0); char t[64]; snprintf(t, sizeof t, "H:%s", hkName(M->hk)); add(t); snprintf(t, sizeof t, "A:%s", akName(M->ak)); add(t); rv = hot ? s.s->hotstart(M->H, &cur.g[0], M->A, cur.lbp(), cur.ubp(), cur.lbAp(), cur.ubAp(), nw) : (kd == KB ? s.b->init(M->H, &cur.g[0], cur.lbp(), cur.ubp(), nw) : s.q->init(M->H, &cur.g[0], M->A, cur.lbp(), cur.ubp(), cur.lbAp(), cur.ubAp(), nw)); }
        else if (rep == 2 && !(hot && !Hp)) { Files f(cur, true, Hp, r); add("file_calls"); rv = hot ? s.s->hotstart(f.p[0], f.p[1], f.p[2], f.p[3], f.p[4], f.p[5], f.p[6], nw) : (kd == KB ? s.b->init(f.p[0], f.p[1], f.p[3], f.p[4], nw) : s.q->init(f.p[0], f.p[1], f.p[2], f.p[3], f.p[4], f.p[5], f.p[6], nw)); }
        else { const double *Ha = Hp ? keep(v, cur.H) : 0, *Aa = m ? keep(v, cur.A) : 0; rv = hot ? s.s->hotstart(Ha, &cur.g[0], Aa, cur.lbp(), cur.ubp(), cur.lbAp(), cur.ubAp(), nw) : s.init(Ha, &cur.g[0], Aa, cur.lbp(), cur.ubp(), cur.lbAp(), cur.ubAp(), nw); }
      } else if (rep == 2) { Files f(cur, false, 0, r); add("file_calls"); rv = kd == KB ? s.b->hotstart(f.p[1], f.p[3], f.p[4], nw) : s.q->hotstart(f.p[1], f.p[3], f.p[4], f.p[5], f.p[6], nw); }
      else rv = s.hot(cur, nw);
      changes += nw; add("solves"); bool ok = rv == SUCCESSFUL_RETURN, inf = s.b->isInfeasible() == BT_TRUE, unb = s.b->isUnbounded() == BT_TRUE; char key[96];
      if (getenv("VF_UNS") && !ok) { snprintf(key, sizeof key, "ret%d-%s-%s", (int)rv, CL[cls], REP[v.rep]); add(key); }
      if (ok && cls < 8) { snprintf(key, sizeof key, "%s-%s", CL[cls], REP[v.rep]); checkKkt(key, cur, s, 1e-6, what); }
      vec x, y; s.sol(x, y); double obj = s.b->getObjVal();
      if (ok) { double ow = (double)objective(cur, &x[0]); snprintf(key, sizeof key, "objective-%s-%s", CL[cls], REP[v.rep]); double e = std::fabs(obj - ow) / (1 + std::fabs(ow)); smax("objective", e); if (!(e <= (usesReg(s) ? 1e-6 : 1e-10) * (1 + std::fabs(cur.scale)))) viol(key, "reported objective %.12g, of the returned point %.12g %s", obj, ow, what); }
      if (first < 0) { first = (int)k; ref = rv; x0 = x; y0 = y; obj0 = obj; anyOk = ok; inf0 = inf; unb0 = unb; if (ok) ++okAll; }
      else { add("compared"); snprintf(key, sizeof key, "status-%s-%s", CL[cls], REP[v.rep]); if (ok != anyOk || inf != inf0 || unb != unb0) { if (uniq || cls >= 8) viol(key, "return %d (infeasible %d, unbounded %d) versus %d (%d, %d) for %s; %s", (int)rv, inf, unb, (int)ref, inf0, unb0, REP[V[first]->rep], what); else add("status_differs_degenerate"); }
        else if (ok) { double dx = maxDiff(&x[0], &x0[0], n), dy = maxDiff(&y[0], &y0[0], n + m), dO = std::fabs(obj - obj0) / (1 + std::fabs(obj0)); snprintf(key, sizeof key, "answer-%s-%s", CL[cls], REP[v.rep]); smax(cls == 0 && st == 0 ? "diff-y-known" : "diff-obj", cls == 0 && st == 0 ? dy : dO); if (uniq) smax("diff-x", dx);
          if (!(dO <= 1e-6) || (uniq && !(dx <= tol)) || (cls == 0 && st == 0 && !(dy <= tol))) viol(key, "x differs by %.2e, y by %.2e, objective by %.2e from %s; %s", dx, dy, dO, REP[V[first]->rep], what); } }
      if (cls == 8 && !inf) { snprintf(key, sizeof key, "infeasible-missed-%s", REP[v.rep]); add(key); } if (cls == 9 && !unb) { snprintf(key, sizeof key, "unbounded-missed-%s", REP[v.rep]); add(key); }
      if (!ok && cls < 8) add(uniq ? "unsolved" : "unsolved_degenerate"); else if (ok) add(uniq ? "solved" : "solved_degenerate");
      if (r.chance(0.15)) { Solver* c = s.clone(); delete v.s; v.s = c; add("replaced_by_copy"); } }
    if (cls >= 8) break;
    if (!anyOk) break;
  }
  for (size_t k = 0; k < V.size(); ++k) { if (V[k]->ps.size()) { add("product_evaluations", V[k]->calls()); } }
  // a product routine that reports an error: no success, and the object recovers once the routine works
  if (kd != KB && m > 0 && cls < 3 && r.chance(0.3)) { struct Bad : Product { Bad(const Prob& p) : Product(p) {} int_t operator()(int_t c, const real_t* const x, real_t* const v) const { if (calls >= failAt) { ++calls; return 1; } return Product::operator()(c, x, v); } } bad(p); bad.failAt = r.range(0, 6); Solver s(kd, n, m, p.ht); s.b->setOptions(presetOptions(preset)); s.q->setConstraintProduct(&bad); int_t nw = 2000; returnValue rv = s.init(p, nw); bool failed = bad.calls > bad.failAt; add(failed ? "product_failures" : "product_not_reached");
    if (failed && rv == SUCCESSFUL_RETURN) viol("product-failure-success", "init returned success although the constraint product reported an error (call %d)", bad.failAt); if (!failed && rv != SUCCESSFUL_RETURN && cls != 3) add("unsolved");
    s.b->reset(); s.b->setHessianType(p.ht); Product good(p); s.q->setConstraintProduct(&good); nw = 2000; rv = s.init(p, nw); if (rv == SUCCESSFUL_RETURN) checkKkt("after-product-failure", p, s, 1e-8); else add("unsolved"); }
  if (changes) sig(h); sample("class=%s kind=%s preset=%d n=%d m=%d representations=%d steps=%d changes=%ld", CL[cls], kindName(kd), preset, n, m, nr, steps, changes);
  for (size_t k = 0; k < V.size(); ++k) delete V[k];
  char cmd[7][400]; static const char* N[] = {"H", "g", "A", "lb", "ub", "lbA", "ubA"}; for (int i = 0; i < 7; ++i) { snprintf(cmd[i], 400, "%s/%s", dir, N[i]); unlink(cmd[i]); } rmdir(dir);
}
int main(int c, char** v) { varyOptions(); return runMain(c, v, run); }
