// The Scilab interface: calls as a script makes them, each judged on its own data.
#include "common.hpp"
#include <stdarg.h>
#include <deque>
#include "simmock/scilab/stack-c.h"
#include "simmock/scilab/Scierror.h"
using namespace vf;
extern "C" int qpOASESgateway_();
typedef int (*Gate)(char*);
struct Var { int m, n; char type; void* data; Var() : m(-1), n(-1), type(0), data(0) {} };
static Var var[64]; static int nvars = 0; static char err[160]; static int errs = 0; static char called[40];
extern "C" { int vf_rhs, vf_lhs, vf_fin, vf_lhsvar[64];
int Scierror(int, const char* f, ...) { va_list ap; va_start(ap, f); vsnprintf(err, sizeof err, f, ap); va_end(ap); ++errs; return 0; }
int vf_checkrhs(const char* fn, int lo, int hi) { if (vf_rhs < lo || vf_rhs > hi) { Scierror(77, "%s: wrong number of rhs arguments", fn); return 0; } return 1; }
int vf_checklhs(const char* fn, int lo, int hi) { int l = vf_lhs; if (l < lo && !(lo == 1 && l == 0)) { Scierror(78, "%s: wrong number of lhs arguments", fn); return 0; } if (l > hi) { Scierror(78, "%s: wrong number of lhs arguments", fn); return 0; } return 1; }
int vf_getrhsvar(int k, const char* t, int* m, int* n, int* l) { if (k < 1 || k > vf_rhs) { viol("stack-protocol", "argument %d of %d requested in %s", k, vf_rhs, called); Scierror(1, "bad argument number"); return 0; } Var& v = var[k]; if (*t != v.type) { if (*t == 'i' && v.type == 'd') { int c = v.m * v.n; int* q = (int*)malloc(sizeof(int) * (c > 0 ? c : 1)); for (int i = 0; i < c; ++i) { double d = ((double*)v.data)[i]; q[i] = d >= -2147483647.0 && d <= 2147483647.0 ? (int)d : -2147483647; } free(v.data); v.data = q; v.type = 'i'; } else { Scierror(2, "wrong type"); return 0; } } *m = v.m; *n = v.n; *l = k; return 1; }
int vf_createvar(int k, const char* t, int* m, int* n, int* l) { if (k != nvars + 1) { viol("stack-protocol", "variable %d created behind variable %d in %s", k, nvars, called); Scierror(3, "bad variable number"); return 0; } if (*m < 0 || *n < 0) { viol("stack-protocol", "variable of size %d x %d", *m, *n); Scierror(4, "bad size"); return 0; } ++nvars; Var& v = var[k]; v.m = *m; v.n = *n; v.type = *t; size_t c = (size_t)v.m * v.n; v.data = malloc((*t == 'd' ? sizeof(double) : sizeof(int)) * (c ? c : 1)); *l = k; return 1; }
double* vf_stk(int l) { if (l < 1 || l > nvars || var[l].type != 'd') { viol("stack-protocol", "real access to variable %d in %s", l, called); return 0; } return (double*)var[l].data; }
int* vf_istk(int l) { if (l < 1 || l > nvars || var[l].type != 'i') { viol("stack-protocol", "integer access to variable %d in %s", l, called); return 0; } return (int*)var[l].data; }
int sci_gateway(char* name, Gate f) { snprintf(called, sizeof called, "%s", name); f(name); return 0; } }
enum { F_QP = 1, F_INIT, F_INITSB, F_INITVM, F_HOT, F_HOTSB, F_HOTVM, F_CLEAN, F_CLEANSB, F_CLEANVM };
static const char* FN[] = {"", "qpOASES", "qpOASES_init", "qpOASES_initSB", "qpOASES_initVM", "qpOASES_hotstart", "qpOASES_hotstartSB", "qpOASES_hotstartVM", "qpOASES_cleanup", "qpOASES_cleanupSB", "qpOASES_cleanupVM"};
struct Arg { int m, n; vec v; Arg(int a, int b, const vec& c) : m(a), n(b), v(c) {} };
struct Out { bool err; vec x, y; double obj; int status, nwsr; int got; bool shape; };
static void release() { for (int i = 1; i <= nvars; ++i) { free(var[i].data); var[i] = Var(); } nvars = 0; }
static void call(int fin, int lhs, const std::deque<Arg>& a, int n, int m, Out& o) {
  release(); errs = 0; err[0] = 0; vf_fin = fin; vf_rhs = (int)a.size(); vf_lhs = lhs; for (int i = 0; i < 64; ++i) vf_lhsvar[i] = 0;
  for (size_t i = 0; i < a.size(); ++i) { Var& v = var[++nvars]; v.m = a[i].m; v.n = a[i].n; v.type = 'd'; size_t c = (size_t)v.m * v.n; v.data = malloc(8 * (c ? c : 1)); if (c) memcpy(v.data, &a[i].v[0], 8 * c); }
  qpOASESgateway_(); o.err = errs > 0; o.got = 0; o.shape = true; if (strcmp(called, FN[fin])) viol("dispatch", "Fin=%d calls %s", fin, called);
  if (!o.err && fin < F_CLEAN) { int k = lhs > 0 ? lhs : 1; int want[5][2] = {{n, 1}, {1, 1}, {1, 1}, {1, 1}, {n + m, 1}}; static const char ty[] = "ddiid";
    for (int i = 0; i < k; ++i) { int q = vf_lhsvar[i]; if (q < 1 || q > nvars || var[q].type != ty[i] || var[q].m != want[i][0] || var[q].n != want[i][1]) { viol("result-shape", "%s: result %d is variable %d, %d x %d (%c), expected %d x %d", FN[fin], i + 1, q, q >= 1 && q <= nvars ? var[q].m : -1, q >= 1 && q <= nvars ? var[q].n : -1, q >= 1 && q <= nvars ? var[q].type : '?', want[i][0], want[i][1]); o.shape = false; break; } ++o.got;
      if (i == 0) o.x.assign((double*)var[q].data, (double*)var[q].data + n); else if (i == 1) o.obj = *(double*)var[q].data; else if (i == 2) o.status = *(int*)var[q].data; else if (i == 3) o.nwsr = *(int*)var[q].data; else o.y.assign((double*)var[q].data, (double*)var[q].data + n + m); } }
  release(); }
static vec colMajor(const Prob& p) { vec a(p.A.size()); for (int i = 0; i < p.m; ++i) for (int j = 0; j < p.n; ++j) a[j * p.m + i] = p.A[i * p.n + j]; return a; }
static vec one(double d) { return vec(1, d); }
static void args(Rng& r, const Prob& p, int fin, double nw, std::deque<Arg>& a) {
  bool sb = fin == F_INITSB || fin == F_HOTSB, mats = fin <= F_INITVM || fin == F_HOTVM; const vec none; bool row = r.chance(0.3);
  if (mats) a.push_back(Arg(p.n, p.n, p.H)); a.push_back(Arg(row ? 1 : p.n, row ? p.n : 1, p.g)); if (mats && !sb) a.push_back(Arg(p.m, p.n, colMajor(p)));
  if (p.omit & 1) a.push_back(Arg(0, 0, none)); else a.push_back(Arg(p.n, 1, p.lb)); if (p.omit & 2) a.push_back(Arg(0, 0, none)); else a.push_back(Arg(p.n, 1, p.ub));
  if (!sb) { if (p.omit & 4) a.push_back(Arg(0, 0, none)); else a.push_back(Arg(p.m, 1, p.lbA)); if (p.omit & 8) a.push_back(Arg(0, 0, none)); else a.push_back(Arg(p.m, 1, p.ubA)); }
  a.push_back(Arg(1, 1, one(nw))); }
struct Obj { bool live, solved; Prob p; GenOpt o; Obj() : live(false), solved(false) {} };
static bool finite(const vec& v) { for (size_t i = 0; i < v.size(); ++i) if (!(std::fabs(v[i]) <= 1e25)) return false; return true; }
static void judge(int fin, const Prob& p, const Out& o, bool infeasible, int lim, const char* ex) {
  if (!o.shape) return; if (o.got < 5) { add("short_calls"); if (o.got >= 1 && !finite(o.x)) viol("garbage", "%s: x is not finite %s", FN[fin], ex); return; }
  if (!finite(o.x) || !finite(o.y)) { viol("garbage", "%s: x or y not finite (status %d) %s", FN[fin], o.status, ex); return; }
  if (o.nwsr < 0 || o.nwsr > lim) { viol("nwsr", "%s: nWSR %d with limit %d %s", FN[fin], o.nwsr, lim, ex); return; }
  if (o.status == 1) { if (o.nwsr < lim || lim >= 1000) viol("limit-status", "%s: status 1 after %d of %d iterations %s", FN[fin], o.nwsr, lim, ex); else add("limit_results"); return; }
  if (infeasible) { if (o.status != -2) viol("infeasible-status", "%s: status %d for a QP without feasible point %s", FN[fin], o.status, ex); else { add("infeasible_results"); for (int i = 0; i < p.n; ++i) if (o.x[i] != 0) { add("nonzero_x_when_infeasible"); break; } } return; }
  if (o.status != 0) { viol("feasible-status", "%s: status %d nWSR %d for a feasible strictly convex QP %s", FN[fin], o.status, o.nwsr, ex); dumpProb(p); return; }
  Kkt k = kkt(p, &o.x[0], &o.y[0]); smax("worst_kkt", k.worst); add("optimal_results"); if (o.nwsr > 0) add("results_with_iterations"); if (!(k.worst <= 1e-8)) { viol("kkt", "%s: stat %.2e feas %.2e sign %.2e compl %.2e %s", FN[fin], k.stat, k.feas, k.sign, k.compl_, ex); dumpProb(p); return; }
  double f = (double)objective(p, &o.x[0]); if (!(std::fabs(f - o.obj) <= 1e-9 * (1 + std::fabs(f)))) viol("objective", "%s: obj %.12g, value at x %.12g %s", FN[fin], o.obj, f, ex); }
static void spoil(Rng& r, Prob& p) { if (p.m && r.chance(0.6)) { int c = r.range(0, p.m - 1); double lo = 0, up = 0; for (int j = 0; j < p.n; ++j) { p.lb[j] = -1; p.ub[j] = 1; lo -= std::fabs(p.A[c * p.n + j]); } up = -lo; if (r.chance(0.5)) { p.lbA[c] = up + 1; p.ubA[c] = up + 3; } else { p.ubA[c] = lo - 1; p.lbA[c] = lo - 2; } p.omit = 0; } else { int i = r.range(0, p.n - 1); p.omit = 0; p.lb[i] = 2; p.ub[i] = 1; } }
// spoil the shape of one argument: must be refused, and nothing must change
static bool misfit(Rng& r, int fin, const Prob& p, std::deque<Arg>& a) {
  int w = r.range(0, (int)a.size()), n = p.n, m = p.m; vec z((n + 3) * (n + 3) + (m + 3) * (n + 3), 1.0); if (w == (int)a.size()) { if (r.chance(0.5)) a.pop_back(); else a.push_back(Arg(1, 1, one(1))); return true; }
  Arg& q = a[w]; int om = q.m, on = q.n; if (w == (int)a.size() - 1) { q = Arg(r.range(0, 2), r.range(1, 2), z); if (q.m == 1 && q.n == 1) q.n = 2; return true; }
  if (om == 0) return false; int d = r.range(0, 4); switch (d) { case 0: q.m += 1; break; case 1: if (q.m > 1) q.m -= 1; else q.m += 1; break; case 2: q.n += 1; break; case 3: if (q.n > 1) q.n -= 1; else q.n += 1; break; default: q.m = 0; q.n = 0; }
  q.v = z; bool sb = fin == F_INITSB || fin == F_HOTSB, mats = fin <= F_INITVM || fin == F_HOTVM; int gi = mats ? 1 : 0; if (w == gi && (q.m * q.n == n) && (q.m == 1 || q.n == 1)) return false; if (w > gi && !(mats && !sb && w == 2) && q.m == 0 && q.n == 0) return false; if (mats && !sb && w == 2 && q.n == n && q.m >= 1 && (p.omit & 12) == 12 && (fin < F_HOT || q.m == m)) return false; if (mats && w == 0 && q.m == q.n && q.m == n) return false; (void)om; (void)on; return true; }
static void run(long idx, Rng& r) {
  tag("script"); Obj ob[3]; uint64_t h = mix(5, idx); int len = r.range(6, R().thorough ? 60 : 30); char ex[96]; Out o; std::deque<Arg> a; int solved = 0;
  for (int k = 0; k < 3; ++k) { a.clear(); if (r.chance(0.5)) call(F_CLEAN + k, 0, a, 0, 0, o); else { call(F_CLEAN + k, r.range(0, 1), a, 0, 0, o); } if (o.err) viol("cleanup", "cleanup reports: %s", err); }
  for (int s = 0; s < len; ++s) { a.clear(); int k = r.range(0, 2), lhs = r.chance(0.8) ? 5 : r.range(0, 4); double u = r.u01(); Obj& b = ob[k]; snprintf(ex, sizeof ex, "call %d", s); int limit = r.chance(0.85) ? 2000 : r.range(0, 3); h = mix(h, (uint64_t)(u * 1000) + 7 * k);
    if (u < 0.12) { // one-off QP
      Prob p; GenOpt g; g.mmin = 1; g.nmax = 6; g.mmax = 8; g.pEq = 0.1; g.hk = r.chance(0.7) ? HK_DENSE : HK_SPARSE; genFeasible(r, p, g); if (r.chance(0.2)) p.drop(r.range(1, 15)); bool bad = r.chance(0.15); if (bad) spoil(r, p); args(r, p, F_QP, limit, a);
      if (r.chance(0.15)) { if (misfit(r, F_QP, p, a)) { call(F_QP, lhs, a, p.n, p.m, o); add("misfit_calls"); if (!o.err) viol("misfit-accepted", "%s accepts arguments of wrong shape", FN[F_QP]); continue; } a.clear(); args(r, p, F_QP, limit, a); }
      call(F_QP, lhs, a, p.n, p.m, o); add("qp_calls"); if (o.err) viol("refused", "%s: %s", FN[F_QP], err); else judge(F_QP, p, o, bad, limit, ex); }
    else if (u < 0.18) { call(F_CLEAN + k, r.range(0, 1), a, 0, 0, o); if (o.err) viol("cleanup", "%s: %s", FN[F_CLEAN + k], err); b.live = b.solved = false; add("cleanup_calls"); }
    else if (u < 0.38 || (!b.live && r.chance(0.7))) { // new object
      Prob p; GenOpt g; g.mmin = 1; g.nmax = 8; g.mmax = 10; g.pEq = 0.1; if (k == 1) g.mmin = g.mmax = 0; static const int HK[] = {HK_DENSE, HK_DIAG, HK_SPARSE}; g.hk = HK[r.range(0, 2)]; genFeasible(r, p, g); if (r.chance(0.2)) p.drop(r.range(1, k == 1 ? 3 : 15)); bool bad = r.chance(0.1); Prob good = p; if (bad) spoil(r, p);
      args(r, p, F_INIT + k, limit, a); if (r.chance(0.12)) { if (misfit(r, F_INIT + k, p, a)) { call(F_INIT + k, lhs, a, p.n, p.m, o); add("misfit_calls"); if (!o.err) { viol("misfit-accepted", "%s accepts arguments of wrong shape", FN[F_INIT + k]); return; } continue; } a.clear(); args(r, p, F_INIT + k, limit, a); }
      call(F_INIT + k, lhs, a, p.n, p.m, o); add("init_calls"); if (o.err) { viol("refused", "%s: %s", FN[F_INIT + k], err); return; } judge(F_INIT + k, p, o, bad, limit, ex); b.live = true; b.p = good; b.o = g; b.solved = !bad && limit >= 2000; if (b.solved) ++solved; }
    else { // hotstart
      int fin = F_HOT + k; if (!b.live) { Prob p; GenOpt g; g.mmin = 1; if (k == 1) g.mmin = g.mmax = 0; g.hk = HK_DENSE; genFeasible(r, p, g); args(r, p, fin, limit, a); call(fin, lhs, a, p.n, p.m, o); add("premature_hotstarts"); if (!o.err) viol("premature-hotstart", "%s without an object: no error", FN[fin]); continue; }
      int om = b.p.omit; Prob prev = b.p; nextVectors(r, b.p, b.o); if (k == 2 && r.chance(0.5)) { genH(r, b.p, b.o); genA(r, b.p, b.o); genVectors(r, b.p, b.o); add("matrix_changes"); } if (om) b.p.drop(om); Prob good = b.p; bool bad = r.chance(0.08); if (bad) spoil(r, b.p);
      args(r, b.p, fin, limit, a); if (r.chance(0.12)) { if (misfit(r, fin, b.p, a)) { call(fin, lhs, a, b.p.n, b.p.m, o); add("misfit_calls"); if (!o.err) { viol("misfit-accepted", "%s accepts arguments of wrong shape", FN[fin]); return; } b.p = prev; continue; } a.clear(); args(r, b.p, fin, limit, a); }
      call(fin, lhs, a, b.p.n, b.p.m, o); add("hotstart_calls"); if (o.err) { viol("refused", "%s: %s", FN[fin], err); return; }
      if (b.solved) { judge(fin, b.p, o, bad, limit, ex); if (!bad && limit >= 2000) ++solved; } else { add("hotstarts_after_failure"); if (o.got >= 1 && !finite(o.x)) viol("garbage", "%s: x not finite %s", FN[fin], ex); if (o.got == 5 && o.status == 0 && !bad) judge(fin, b.p, o, bad, limit, ex); }
      b.solved = b.solved ? !bad && limit >= 2000 : (o.got >= 3 && o.status == 0); b.p = good; } }
  if (solved) sig(h); sample("script of %d calls, %d solved", len, solved); for (int k = 0; k < 3; ++k) { a.clear(); call(F_CLEAN + k, 0, a, 0, 0, o); } release(); }
int main(int c, char** v) { return runMain(c, v, run); }
