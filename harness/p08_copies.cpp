// Copies behave like the original and are independent of it; reset and re-initialisation start afresh.
#include "common.hpp"
#include <list>
using namespace vf;
struct Res { returnValue rv; int nw; vec x, y, w, wc; double obj; int status, inf, unb, solved, init, nfx, nz, count, ht, r1, r2; };
static void look(Solver& s, Res& a) {
  int n = s.n, m = s.m; a.x.assign(n, 0); a.y.assign(n + m, 0); a.w.assign(n + m + 1, 0); a.r1 = s.b->getPrimalSolution(&a.x[0]); a.r2 = s.b->getDualSolution(&a.y[0]); s.b->getWorkingSet(&a.w[0]); a.obj = s.b->getObjVal(); a.status = s.b->getStatus(); a.inf = s.b->isInfeasible(); a.unb = s.b->isUnbounded(); a.solved = s.b->isSolved(); a.init = s.b->isInitialised(); a.nfx = (int)s.b->getNFX(); a.nz = (int)s.b->getNZ(); a.count = (int)s.b->getCount(); a.ht = s.b->getHessianType();
  a.wc.clear(); for (int i = 0; i < n && i < 3; ++i) { } }
static bool same(const vec& a, const vec& b) { return a.size() == b.size() && (a.empty() || !memcmp(&a[0], &b[0], a.size() * sizeof(double))); }
static bool cmp(const char* key, const Res& a, const Res& b, const char* what, bool withCount = true) {
  add("comparisons"); const char* d = 0; char dd[96] = "";
  if (a.rv != b.rv) { d = "return value"; snprintf(dd, sizeof dd, "%d/%d", (int)a.rv, (int)b.rv); } else if (a.nw != b.nw) { d = "nWSR"; snprintf(dd, sizeof dd, "%d/%d", a.nw, b.nw); } else if (a.r1 != b.r1 || a.r2 != b.r2) d = "solution query"; else if (!same(a.x, b.x)) { d = "x"; double e = maxDiff(&a.x[0], &b.x[0], (int)a.x.size()); snprintf(dd, sizeof dd, "diff %.3e", e); } else if (!same(a.y, b.y)) { d = "y"; snprintf(dd, sizeof dd, "diff %.3e", maxDiff(&a.y[0], &b.y[0], (int)a.y.size())); } else if (!same(a.w, b.w)) d = "working set"; else if (memcmp(&a.obj, &b.obj, sizeof a.obj)) d = "objective"; else if (a.status != b.status || a.inf != b.inf || a.unb != b.unb || a.solved != b.solved || a.init != b.init) { d = "status"; snprintf(dd, sizeof dd, "%d/%d", a.status, b.status); } else if (a.nfx != b.nfx || a.nz != b.nz) d = "counts"; else if (withCount && a.count != b.count) { d = "solve count"; snprintf(dd, sizeof dd, "%d/%d", a.count, b.count); } else if (a.ht != b.ht) { d = "Hessian type"; snprintf(dd, sizeof dd, "%d/%d", a.ht, b.ht); }
  if (!d) return true; viol(key, "%s differs (%s) %s", d, dd, what); return false;
}
struct Op { int type; Prob* p; int lim, preset; bool cpu; const Bounds* gb; const Constraints* gc; };
// 0 init, 1 hot, 2 hotM, 3 reset, 4 options, 5 hot guess, 6 init with primal/dual guess
static Res apply(Solver& s, const Op& o) {
  Res a; a.rv = SUCCESSFUL_RETURN; int_t nw = o.lim; double cpu = 1e4, *cp = o.cpu ? &cpu : 0; const Prob& p = *o.p;
  switch (o.type) { case 0: a.rv = s.init(p, nw, cp); break; case 1: a.rv = s.hot(p, nw, cp); break; case 2: a.rv = s.kind == KS ? s.hotM(p, nw, cp) : s.hot(p, nw, cp); break; case 3: a.rv = s.b->reset(); s.b->setHessianType(p.ht); break; case 4: a.rv = s.b->setOptions(presetOptions(o.preset)); break;
    case 5: a.rv = s.kind == KB ? s.b->hotstart(&p.g[0], p.lbp(), p.ubp(), nw, cp, o.gb) : s.q->hotstart(&p.g[0], p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw, cp, o.gb, o.gc); break;
    case 6: a.rv = s.init(p.Hp(), &p.g[0], p.Ap(), p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw, cp, p.xs.empty() ? 0 : &p.xs[0], p.ys.empty() ? 0 : &p.ys[0]); break; }
  a.nw = (int)nw; look(s, a); return a;
}
struct Gen { std::list<Prob> keep; std::list<Bounds> gbs; std::list<Constraints> gcs; GenOpt o; Prob* cur; int n, m; HessianType ht;
  Prob* fresh(Rng& r, bool matrices) { keep.push_back(*cur); Prob* p = &keep.back(); p->omit = 0; p->xs.clear(); p->ys.clear(); p->haveOpt = false; if (matrices) { Prob f; f.n = n; f.m = m; if (r.chance(0.7) && p->ht == HST_UNKNOWN) { genH(r, f, o); p->H = f.H; } if (m) { genA(r, f, o); p->A = f.A; } genVectors(r, *p, o); } else nextVectors(r, *p, o); cur = p; return p; }
  // a random next operation
  Op next(Rng& r, Kind kd, bool first) {
    Op o2; o2.gb = 0; o2.gc = 0; o2.cpu = r.chance(0.1); o2.preset = r.range(0, 6); o2.p = cur; int u = first ? 0 : r.range(0, 19); o2.lim = r.chance(0.2) ? r.range(0, 3) : 2000;
    if (u <= 1) { o2.type = 0; o2.p = first ? cur : fresh(r, true); } else if (u <= 11) { o2.type = 1; o2.p = fresh(r, false); if (r.chance(0.15)) o2.p->drop(1 << r.range(0, 3)); if (r.chance(0.04)) { o2.p->omit = 0; o2.p->lb[0] = 1; o2.p->ub[0] = -1; } } else if (u <= 15) { o2.type = kd == KS ? 2 : 1; o2.p = fresh(r, kd == KS); } else if (u == 16) o2.type = 3; else if (u == 17) o2.type = 4;
    else if (u == 18) { o2.type = 5; o2.p = fresh(r, false); gbs.push_back(Bounds(n)); for (int i = 0; i < n; ++i) gbs.back().setupBound(i, r.chance(0.5) ? ST_INACTIVE : (r.chance(0.5) ? ST_LOWER : ST_UPPER)); gcs.push_back(Constraints(m)); for (int i = 0; i < m; ++i) gcs.back().setupConstraint(i, r.chance(0.6) ? ST_INACTIVE : (r.chance(0.5) ? ST_LOWER : ST_UPPER)); o2.gb = &gbs.back(); o2.gc = &gcs.back(); }
    else { o2.type = 6; o2.p = fresh(r, true); o2.p->xs.assign(n, 0.0); for (int i = 0; i < n; ++i) o2.p->xs[i] = r.nrm(); if (r.chance(0.5)) { o2.p->ys.assign(n + m, 0.0); for (int i = 0; i < n + m; ++i) o2.p->ys[i] = r.chance(0.6) ? 0.0 : r.nrm(); } }
    return o2; } };
static void setup(Rng& r, Gen& g, int cls) { switch (cls) { case 1: g.o.nmin = 5; g.o.nmax = 14; g.o.mmax = 16; break; case 2: g.o.nmax = 3; g.o.mmax = 3; break; case 3: g.o.integer = true; g.o.nmax = 6; g.o.mmax = 8; g.o.pWeak = 0.2; break; case 4: g.o.dupRows = true; g.o.nmax = 7; break; case 5: g.o.mmax = 0; break; default: break; }
  g.keep.push_back(Prob()); g.cur = &g.keep.back(); genFeasible(r, *g.cur, g.o); if (g.cur->ht == HST_IDENTITY || g.cur->ht == HST_ZERO || g.cur->ht == HST_POSDEF || g.cur->ht == HST_SEMIDEF) { if (r.chance(0.5)) g.cur->ht = HST_UNKNOWN; } g.n = g.cur->n; g.m = g.cur->m; g.ht = g.cur->ht; }
static const char* CL[] = {"generic", "medium", "tiny", "integer", "degenerate", "bounds"};
static void run(long idx, Rng& r) {
  int cls = (int)(idx % 6); Gen g; setup(r, g, cls); tag(CL[cls]); int n = g.n, m = g.m; Kind kd = m == 0 && r.chance(0.7) ? KB : (r.chance(0.6) ? KQ : KS); uint64_t h = probSig(*g.cur); HessianType ht = g.ht;
  if (idx % 3 != 2) { // copies
    Solver* A = new Solver(kd, n, m, ht); Solver* S = new Solver(kd, n, m, ht); Options op = presetOptions(r.range(0, 6)); A->b->setOptions(op); S->b->setOptions(op); Solver* C = 0; Gen* other = 0; Solver* T = 0;
    int steps = r.range(4, R().thorough ? 40 : 16), when = r.range(0, steps - 2), lock = r.range(1, 6), killA = r.chance(0.3) ? r.range(1, 4) : -1; bool first = true, okA = true, okC = true; int changes = 0;
    for (int k = 0; k < steps && (A || C); ++k) {
      char what[64]; snprintf(what, sizeof what, "step %d, copy made at %d, %s %s", k, when, kindName(kd), CL[cls]);
      if (k == when) { int mode = r.range(0, 2); add("copies");
        if (mode == 0) C = A->clone(); else { // assignment over an object with a life of its own (any dimensions)
          other = new Gen(); setup(r, *other, r.range(0, 5)); int on = other->n, om = kd == KB ? 0 : other->m; if (mode == 2 || kd == KB) T = new Solver(kd, on, om, other->ht); else { T = new Solver(kd, n, m, ht); on = -1; }
          if (on > 0) { if (kd == KB) other->m = 0; if (r.chance(0.7)) { int_t nw = r.chance(0.3) ? 1 : 1000; if (kd == KB) T->init(other->cur->Hp(), &other->cur->g[0], 0, other->cur->lbp(), other->cur->ubp(), 0, 0, nw); else T->init(*other->cur, nw); } add(on != n || om != m ? "assigned_other_dimensions" : "assigned_same_dimensions"); } else if (!first && r.chance(0.7)) { int_t nw = 1000; T->init(*g.cur, nw); }
          T->assign(*A); T->n = n; T->m = A->m; if (r.chance(0.2)) T->assign(*T); C = T; T = 0; }
        Res a, c; a.rv = c.rv = SUCCESSFUL_RETURN; a.nw = c.nw = 0; look(*A, a); look(*C, c); okC = cmp("copy-state", a, c, what); if (r.chance(0.3)) { Solver* D = C->clone(); delete C; C = D; add("copies_of_copies"); } if (r.chance(0.3)) { Solver* D = A->clone(); delete A; A = D; } }
      Op op2 = g.next(r, kd, first); if (op2.type == 0 || first) first = false; h = mix(h, (uint64_t)op2.type + probSig(*op2.p));
      Res s = apply(*S, op2); changes += s.nw;
      if (C && k >= when + lock && r.chance(0.5)) { Gen& gg = g; Prob* sv = gg.cur; Op div = gg.next(r, kd, false); gg.cur = sv; apply(*C, div); okC = false; add("diverging_operations"); } // the copy goes its own way: the original must not notice
      if (A) { Res a = apply(*A, op2); add("original_operations"); if (okA) okA = cmp(C ? "original-after-copy" : "replay", a, s, what); }
      if (C && okC) { Res c = apply(*C, op2); add("copy_operations"); okC = cmp(A ? "copy-behaviour" : "copy-after-death-of-original", c, s, what); }
      if (C && killA >= 0 && k == when + killA && A) { delete A; A = 0; add("originals_destroyed"); }
      else if (C && A && !okC && r.chance(0.2)) { delete C; C = 0; add("copies_destroyed"); }
    }
    delete A; delete S; delete C; delete other; if (changes) sig(h); sample("copies: class=%s kind=%s n=%d m=%d steps=%d copy at %d changes=%d", CL[cls], kindName(kd), n, m, steps, when, changes);
  } else { // re-initialisation and reset leave no trace
    Solver A(kd, n, m, ht); int opreset = r.range(0, 6); A.b->setOptions(presetOptions(opreset)); int changes = 0; bool first = true; int rounds = r.range(1, R().thorough ? 8 : 4);
    for (int q = 0; q < rounds; ++q) {
      int steps = r.range(1, 8); for (int k = 0; k < steps; ++k) { Op o2 = g.next(r, kd, first); first = false; if (o2.type == 4) opreset = o2.preset; Res a = apply(A, o2); changes += a.nw; h = mix(h, (uint64_t)o2.type + probSig(*o2.p)); }
      Prob* p = g.fresh(r, true); bool rs = r.chance(0.6); int lim = r.chance(0.15) ? r.range(0, 3) : 2000; HessianType t = rs ? g.ht : HST_UNKNOWN; const double* Hx = rs ? p->Hp() : &p->H[0]; if (!rs && g.ht == HST_ZERO) { continue; }
      if (rs) { A.b->reset(); A.b->setHessianType(t); add("resets"); } else add("reinitialisations"); if (r.chance(0.3)) { opreset = r.range(0, 6); A.b->setOptions(presetOptions(opreset)); }
      if (!rs && A.b->isInitialised() != BT_TRUE) { A.b->reset(); A.b->setHessianType(t); }
      Solver N(kd, n, m, t); N.b->setOptions(presetOptions(opreset)); char what[96]; snprintf(what, sizeof what, "round %d %s preset %d %s %s", q, rs ? "reset" : "re-init", opreset, kindName(kd), CL[cls]); int_t w1 = lim, w2 = lim; Res a, b;
      a.rv = A.init(Hx, &p->g[0], p->Ap(), p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), w1); b.rv = N.init(Hx, &p->g[0], p->Ap(), p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), w2); a.nw = (int)w1; b.nw = (int)w2; look(A, a); look(N, b); bool ok = cmp(rs ? "after-reset" : "after-reinit", a, b, what, false);
      for (int k = 0; ok && k < 3; ++k) { Op o2; do { o2 = g.next(r, kd, false); } while (o2.type == 3 || o2.type == 4 || o2.type == 0 || o2.type == 6); Res c = apply(A, o2), d = apply(N, o2); changes += d.nw; ok = cmp(rs ? "hot-after-reset" : "hot-after-reinit", c, d, what, false); }
    }
    if (changes) sig(h); sample("reset: class=%s kind=%s n=%d m=%d rounds=%d changes=%d", CL[cls], kindName(kd), n, m, rounds, changes);
  }
}
int main(int c, char** v) { varyOptions(); return runMain(c, v, run); }
