// The same calls give bitwise the same results, whatever other objects, the heap, the stack or other threads do; inputs are never written to.
#include "reps.hpp"
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
extern "C" void __msan_unpoison(const volatile void*, size_t) __attribute__((weak));
using namespace vf;
// input arrays live in pages that are read-only while the solver runs
struct Arena { char* p; size_t cap, used; Arena() : cap(1 << 20), used(0) { p = (char*)mmap(0, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == (char*)MAP_FAILED) { fprintf(stderr, "mmap failed\n"); _exit(3); } }
  ~Arena() { munmap(p, cap); }
  const double* put(const vec& v) { if (v.empty()) return 0; size_t b = v.size() * sizeof(double); if (used + b + 64 > cap) return 0; double* d = (double*)(p + used); memcpy(d, &v[0], b); used += (b + 63) / 64 * 64; return d; }
  bool full() const { return used > cap - 200000; }
  void lock() { mprotect(p, cap, PROT_READ); } };
struct Call { int type, lim, preset, k; bool cpu; const double *H, *g, *A, *lb, *ub, *lbA, *ubA, *x0, *y0, *R0; Bounds* gb; Constraints* gc; Mats* M; Options* op; HessianType ht;
  Call() : type(0), lim(0), preset(0), k(0), cpu(false), H(0), g(0), A(0), lb(0), ub(0), lbA(0), ubA(0), x0(0), y0(0), R0(0), gb(0), gc(0), M(0), op(0), ht(HST_UNKNOWN) {}
  ~Call() { delete gb; delete gc; delete M; delete op; } };
static uint64_t hmats(uint64_t h, const Mats* M) { if (!M) return h; h = hvec(h, M->hv); h = hvec(h, M->av); const std::vector<sparse_int_t>* L[4] = {&M->hr, &M->hc, &M->ar, &M->ac}; for (int i = 0; i < 4; ++i) if (!L[i]->empty()) h = hbytes(h, &(*L[i])[0], L[i]->size() * sizeof(sparse_int_t)); vec d; if (M->H) { int n = (int)M->hn; for (int i = 0; i < n; ++i) d.push_back(M->H->diag(i)); } return hvec(h, d); }
static uint64_t hguess(uint64_t h, const Bounds* b, int n, const Constraints* c, int m) { if (b) for (int i = 0; i < n; ++i) h = mix(h, (uint64_t)b->getStatus(i) + 8 * b->getType(i)); if (c) for (int i = 0; i < m; ++i) h = mix(h, (uint64_t)c->getStatus(i) + 8 * c->getType(i)); return h; }
static uint64_t hopt(uint64_t h, const Options& o) { real_t d[] = {o.terminationTolerance, o.boundTolerance, o.boundRelaxation, o.epsNum, o.epsDen, o.maxPrimalJump, o.maxDualJump, o.initialRamping, o.finalRamping, o.initialFarBounds, o.growFarBounds, o.epsFlipping, o.epsRegularisation, o.epsIterRef, o.epsLITests, o.epsNZCTests, o.rcondSMin, (real_t)o.enableRamping, (real_t)o.enableFarBounds, (real_t)o.enableFlippingBounds, (real_t)o.enableRegularisation, (real_t)o.enableFullLITests, (real_t)o.enableNZCTests, (real_t)o.enableEqualities, (real_t)o.enableDriftCorrection, (real_t)o.enableCholeskyRefactorisation, (real_t)o.initialStatusBounds, (real_t)o.numRegularisationSteps, (real_t)o.numRefinementSteps, (real_t)o.enableInertiaCorrection, (real_t)o.enableDropInfeasibles, (real_t)o.dropBoundPriority, (real_t)o.dropEqConPriority, (real_t)o.dropIneqConPriority, (real_t)o.printLevel}; return hbytes(h, d, sizeof d); }
struct Script { Kind kd; int n, m; HessianType ht; int preset; std::vector<Call*> calls; Arena ar; uint64_t h;
  Script() : kd(KB), n(0), m(0), ht(HST_UNKNOWN), preset(0), h(1) {} ~Script() { for (size_t i = 0; i < calls.size(); ++i) delete calls[i]; } };
static void load(Script& s, Call& c, const Prob& p, bool matrices) { if (matrices) { c.H = p.Hp() ? s.ar.put(p.H) : 0; c.A = s.m ? s.ar.put(p.A) : 0; } c.g = s.ar.put(p.g); c.lb = p.lbp() ? s.ar.put(p.lb) : 0; c.ub = p.ubp() ? s.ar.put(p.ub) : 0; c.lbA = p.lbAp() ? s.ar.put(p.lbA) : 0; c.ubA = p.ubAp() ? s.ar.put(p.ubA) : 0; c.ht = p.ht; s.h = mix(s.h, probSig(p)); }
static void genScript(Rng& r, Script& s) {
  GenOpt o; int cls = r.range(0, 7); if (cls == 1) { o.nmin = 5; o.nmax = 12; o.mmax = 14; } else if (cls == 2) { o.integer = true; o.nmax = 6; o.dupRows = true; o.pWeak = 0.3; } else if (cls == 3) o.hk = HK_SEMI; else if (cls == 4) o.hk = HK_ZERO; else if (cls == 5) o.mmax = 0; else o.nmax = 7;
  Prob p; genFeasible(r, p, o); s.n = p.n; s.m = p.m; s.kd = p.m == 0 && r.chance(0.7) ? KB : (r.chance(0.4) ? KQ : KS); s.ht = p.ht; s.preset = r.range(0, 6); int len = r.range(3, R().thorough ? 24 : 12); Prob cur = p;
  for (int k = 0; k < len && !s.ar.full(); ++k) { Call* c = new Call(); s.calls.push_back(c); c->cpu = r.chance(0.1); c->lim = r.chance(0.2) ? r.range(0, 4) : 1000; c->k = r.range(0, 1 << 20); int u = k == 0 ? 0 : r.range(0, 19);
    if (u <= 2) { c->type = 0; if (k) { GenOpt q = o; q.nmin = q.nmax = s.n; q.mmin = q.mmax = s.m; Prob f; genFeasible(r, f, q); HessianType ht = cur.ht; cur = f; (void)ht; } if (r.chance(0.1)) for (int i = 0; i < s.n; ++i) { cur.lb[i] = 1; cur.ub[i] = i ? 2 : -2; } load(s, *c, cur, true); if (r.chance(0.35)) { c->M = new Mats(); c->M->random(r, cur, cur.Hp() != 0); }
      if (r.chance(0.25)) { vec x(s.n); for (int i = 0; i < s.n; ++i) x[i] = r.nrm(); c->x0 = s.ar.put(x); } if (r.chance(0.2)) { vec y(s.n + s.m); for (size_t i = 0; i < y.size(); ++i) y[i] = r.chance(0.6) ? 0 : r.nrm(); c->y0 = s.ar.put(y); } }
    else if (u <= 10) { c->type = 1; if (r.chance(0.9)) nextVectors(r, cur, o); else { cur.lb[0] = 3; cur.ub[0] = -3; } if (r.chance(0.1)) cur.drop(1 << r.range(0, 3)); load(s, *c, cur, false); }
    else if (u <= 13 && s.kd == KS) { c->type = 2; GenOpt q = o; q.nmin = q.nmax = s.n; q.mmin = q.mmax = s.m; Prob f; genFeasible(r, f, q); if (f.ht == HST_IDENTITY && cur.ht != HST_IDENTITY) f.ht = HST_UNKNOWN; cur = f; load(s, *c, cur, true); if (r.chance(0.35)) { c->M = new Mats(); c->M->random(r, cur, cur.Hp() != 0); } }
    else if (u <= 15) { c->type = 3; nextVectors(r, cur, o); load(s, *c, cur, false); }
    else if (u == 16) { c->type = 4; c->op = new Options(presetOptions(r.range(0, 6))); if (r.chance(0.3)) { c->op->enableRegularisation = BT_TRUE; c->op->epsNum = 1e-10 * r.sgn(); } if (r.chance(0.3)) c->op->printLevel = PL_HIGH; }
    else if (u == 17) { c->type = 5; c->k = r.range(0, 3); } else if (u == 18) { c->type = 6; load(s, *c, cur, false); } else { c->type = 7; int d = 2 * s.n + s.m; vec V((size_t)d * d, 0.0); for (int i = 0; i < d; ++i) V[(size_t)i * d + i] = r.u01(); c->g = s.ar.put(V); }
    if (c->type == 0 && r.chance(0.2)) c->gb = new Bounds(s.n); if (c->type == 3) { c->gb = new Bounds(s.n); c->gc = new Constraints(s.m); }
    if (c->gb) for (int i = 0; i < s.n; ++i) c->gb->setupBound(i, r.chance(0.5) ? ST_INACTIVE : (r.chance(0.5) ? ST_LOWER : ST_UPPER)); if (c->gc) for (int i = 0; i < s.m; ++i) c->gc->setupConstraint(i, r.chance(0.6) ? ST_INACTIVE : (r.chance(0.5) ? ST_LOWER : ST_UPPER)); }
  s.ar.lock();
}
struct Exec { Script* s; Solver* o; vec out; std::vector<int> mark; long changes, solved; bool noisy; int inputHit;
  Exec(Script& s_, bool noisy_ = false) : s(&s_), o(0), changes(0), solved(0), noisy(noisy_), inputHit(-1) {} ~Exec() { delete o; }
  bool done() const { return mark.size() == s->calls.size(); }
  void look() { int n = s->n, m = s->m; vec x(n), y(n + m), w(n + m); out.push_back(o->b->getPrimalSolution(&x[0])); out.push_back(o->b->getDualSolution(&y[0])); o->b->getWorkingSet(&w[0]); out.insert(out.end(), x.begin(), x.end()); out.insert(out.end(), y.begin(), y.end()); out.insert(out.end(), w.begin(), w.end()); out.push_back(o->b->getObjVal()); double f[] = {(double)o->b->getStatus(), (double)o->b->isInfeasible(), (double)o->b->isUnbounded(), (double)o->b->getNFX(), (double)o->b->getNZ(), (double)o->b->getHessianType(), (double)o->b->usingRegularisation(), (double)o->b->getCount()}; out.insert(out.end(), f, f + 8); }
  void step() { // performs the next call and records everything it produced
    if (!o) { o = new Solver(s->kd, s->n, s->m, s->ht); Options op = presetOptions(s->preset); if (noisy) op.printLevel = PL_DEBUG_ITER; o->b->setOptions(op); }
    Call& c = *s->calls[mark.size()]; int n = s->n, m = s->m; int_t nw = c.lim; double cpu = 1e6, *cp = c.cpu ? &cpu : 0; returnValue rv = SUCCESSFUL_RETURN; uint64_t before = hmats(hguess(c.op ? hopt(3, *c.op) : 3, c.gb, n, c.gc, m), c.M);
    switch (c.type) {
      case 0: o->b->reset(); o->b->setHessianType(c.ht); if (s->kd == KB) rv = c.M ? o->b->init(c.M->H, c.g, c.lb, c.ub, nw, cp, c.x0, c.y0, c.gb) : o->b->init(c.H, c.g, c.lb, c.ub, nw, cp, c.x0, c.y0, c.gb); else rv = c.M ? o->q->init(c.M->H, c.g, c.M->A, c.lb, c.ub, c.lbA, c.ubA, nw, cp, c.x0, c.y0, c.gb) : o->q->init(c.H, c.g, c.A, c.lb, c.ub, c.lbA, c.ubA, nw, cp, c.x0, c.y0, c.gb); break;
      case 1: rv = o->hot(c.g, c.lb, c.ub, c.lbA, c.ubA, nw, cp); break;
      case 2: rv = c.M ? o->s->hotstart(c.M->H, c.g, c.M->A, c.lb, c.ub, c.lbA, c.ubA, nw, cp) : o->s->hotstart(c.H, c.g, c.A, c.lb, c.ub, c.lbA, c.ubA, nw, cp); break;
      case 3: rv = s->kd == KB ? o->b->hotstart(c.g, c.lb, c.ub, nw, cp, c.gb) : o->q->hotstart(c.g, c.lb, c.ub, c.lbA, c.ubA, nw, cp, c.gb, c.gc); break;
      case 4: { Options op = *c.op; if (noisy) op.printLevel = PL_DEBUG_ITER; rv = o->b->setOptions(noisy ? op : *c.op); nw = 0; break; }
      case 5: { nw = 0; if (c.k == 0) rv = o->b->reset(), o->b->setHessianType(s->ht); else if (c.k == 1) { Solver* t = o->clone(); delete o; o = t; } else if (c.k == 2) rv = o->b->printProperties(); else { SolutionAnalysis an; out.push_back(s->kd == KB ? an.getKktViolation(o->b) : (s->kd == KQ ? an.getKktViolation(o->q) : an.getKktViolation(o->s))); } break; }
      case 6: nw = 0; if (s->kd != KB && o->b->isSolved() == BT_TRUE && c.lb && c.ub && (!m || (c.lbA && c.ubA))) { vec X(n, 0.0), Y(n + m, 0.0); rv = o->q->solveCurrentEQP(1, c.g, c.lb, c.ub, c.lbA, c.ubA, &X[0], &Y[0]); out.insert(out.end(), X.begin(), X.end()); out.insert(out.end(), Y.begin(), Y.end()); } break;
      case 7: nw = 0; if (s->kd == KQ && o->b->isSolved() == BT_TRUE) { SolutionAnalysis an; size_t d = 2 * n + m; vec C(d * d, 0.0); rv = an.getVarianceCovariance(o->q, c.g, &C[0]); out.insert(out.end(), C.begin(), C.end()); } break; }
    if (c.type == 2 && c.cpu) { } changes += nw; if (c.type < 4 && rv == SUCCESSFUL_RETURN) ++solved;
    uint64_t after = hmats(hguess(c.op ? hopt(3, *c.op) : 3, c.gb, n, c.gc, m), c.M); if (after != before && inputHit < 0) inputHit = c.type;
    out.push_back(rv); out.push_back((double)nw); look(); mark.push_back((int)out.size()); }
};
static bool compare(const char* key, Script& s, const Exec& a, const Exec& b) {
  add("comparisons", (long long)b.mark.size()); size_t nb = std::min(a.mark.size(), b.mark.size());
  for (size_t k = 0; k < nb; ++k) { size_t f = k ? (size_t)a.mark[k - 1] : 0, e = (size_t)a.mark[k]; if (a.mark[k] != b.mark[k] || memcmp(&a.out[f], &b.out[f], (e - f) * sizeof(double))) { double d = 0; size_t at = 0; if (a.mark[k] == b.mark[k]) for (size_t i = f; i < e; ++i) if (memcmp(&a.out[i], &b.out[i], 8)) { d = a.out[i] - b.out[i]; at = i - f; break; } viol(key, "call %d (type %d) of %s n=%d m=%d preset %d: entry %d of %d differs by %.3g", (int)k, s.calls[k]->type, kindName(s.kd), s.n, s.m, s.preset, (int)at, (int)(e - f), d); return false; } }
  return true;
}
static void hits(const Exec& e) { if (e.inputHit >= 0) { char k[64]; snprintf(k, sizeof k, "input-modified-call%d", e.inputHit); viol(k, "matrix object, guess or options passed to call type %d was changed", e.inputHit); } add("inputs_checked", (long long)e.mark.size()); }
static void __attribute__((noinline)) smash(unsigned char v) { volatile unsigned char b[40000]; for (size_t i = 0; i < sizeof b; ++i) b[i] = v; if (__msan_unpoison) { } (void)b[v]; }
static void churn(Rng& r) { std::vector<char*> b; for (int i = 0; i < 20; ++i) { size_t k = (size_t)r.range(8, 4000); b.push_back(new char[k]); memset(b.back(), r.range(1, 255), k); } for (int i = 0; i < 20; ++i) delete[] b[(i * 7) % 20]; }
struct Job { Script* s; Exec* e; uint64_t seed; pthread_barrier_t* bar; };
static void* work(void* a) { Job* j = (Job*)a; Rng r(j->seed); pthread_barrier_wait(j->bar); while (!j->e->done()) { j->e->step(); if (r.chance(0.3)) sched_yield(); if (r.chance(0.02)) usleep((unsigned)r.range(1, 60)); } delete j->e->o; j->e->o = 0; return 0; }
static void run(long idx, Rng& r) {
  bool thr = !strcmp(R().variant, "tsan") || idx % 4 == 3; int N = thr ? r.range(2, 6) : r.range(2, 3); std::vector<Script*> S; std::vector<Exec*> ref; long changes = 0; uint64_t h = (uint64_t)thr;
  for (int i = 0; i < N; ++i) { S.push_back(new Script()); genScript(r, *S[i]); ref.push_back(new Exec(*S[i])); h = mix(h, S[i]->h); }
  tag(thr ? "threads" : "interleaved");
  for (int i = 0; i < N; ++i) { if (idx % 2) smash(0); while (!ref[i]->done()) ref[i]->step(); changes += ref[i]->changes; hits(*ref[i]); add("solved", ref[i]->solved); delete ref[i]->o; ref[i]->o = 0; add("scripts"); add("calls", (long long)ref[i]->mark.size()); }
  if (!thr) {
    mallopt(M_PERTURB, r.range(1, 255)); std::vector<Exec*> ex; std::vector<Script*> own; for (int i = 0; i < N; ++i) ex.push_back(new Exec(*S[i], i > 0 && r.chance(0.1))); int left = 0; for (int i = 0; i < N; ++i) left += (int)S[i]->calls.size(); int switches = 0, last = -1;
    while (left > 0) { int q = r.range(0, N - 1); if (ex[q]->done()) { if (ex[q]->o && r.chance(0.5)) { delete ex[q]->o; ex[q]->o = 0; } continue; } if (r.chance(0.5)) smash((unsigned char)r.range(0, 255)); if (r.chance(0.3)) churn(r); if (q != last) ++switches; last = q; h = mix(h, (uint64_t)q); ex[q]->step(); --left; }
    mallopt(M_PERTURB, 0); add("interleavings"); add("switches", switches);
    for (int i = 0; i < N; ++i) { compare("interleaved-differs", *S[i], *ref[i], *ex[i]); hits(*ex[i]); delete ex[i]; }
  } else {
    std::vector<Exec*> ex; std::vector<Job> jobs(N + 2); std::vector<pthread_t> th(N + 2); pthread_barrier_t bar; int T = N, same = r.chance(0.3) ? r.range(0, N - 1) : -1; bool noM = true; if (same >= 0) for (size_t k = 0; k < S[same]->calls.size(); ++k) noM &= S[same]->calls[k]->M == 0; if (same >= 0 && noM) T = N + 1; // one script twice: the threads share their (constant) input arrays
    pthread_barrier_init(&bar, 0, (unsigned)T); std::vector<uint64_t> seeds; for (int i = 0; i < T; ++i) { Script* s = S[i < N ? i : same]; ex.push_back(new Exec(*s)); jobs[i].s = s; jobs[i].e = ex[i]; jobs[i].seed = r.next(); jobs[i].bar = &bar; }
    int ok = 0; for (int i = 0; i < T; ++i) if (pthread_create(&th[i], 0, work, &jobs[i]) != 0) { fprintf(stderr, "pthread_create failed\n"); _exit(3); } else ++ok; for (int i = 0; i < T; ++i) pthread_join(th[i], 0); pthread_barrier_destroy(&bar); add("thread_groups"); add("threads", T); if (T > N) add("shared_input_threads");
    for (int i = 0; i < T; ++i) { compare("threads-differ", *jobs[i].s, *ref[i < N ? i : same], *ex[i]); hits(*ex[i]); delete ex[i]; }
  }
  if (changes) sig(h); sample("%s: %d objects, %ld working-set changes", thr ? "threads" : "interleaved", N, changes);
  for (int i = 0; i < N; ++i) { delete ref[i]; delete S[i]; }
}
int main(int c, char** v) { varyOptions(); return runMain(c, v, run); }
