// The Simulink blocks: every time step's outputs belong to that step's inputs.
#include "common.hpp"
#include "p27.hpp"
#include "mexmock.hpp"
#include <deque>
using namespace vf;
enum { BB, BQ, BS };
static const Block* BL[] = {&block_QProblemB, &block_QProblem, &block_SQProblem}; static const char* BN[] = {"QProblemB", "QProblem", "SQProblem"};
// port numbers as in the blocks' mask: H, g, A, lb, ub, lbA, ubA
static const int PORT[3][7] = {{-1, 0, -1, 1, 2, -1, -1}, {-1, 0, -1, 1, 2, 3, 4}, {0, 1, 2, 3, 4, 5, 6}};
struct Inst { int kind; SimStruct S; std::vector<std::vector<double*> > own; std::vector<int> style; std::vector<const mxArray*> par; bool started; Prob p; GenOpt o; int steps; bool big, lastBad; double big0;
  Inst() : kind(0), started(false), steps(0), big(false), lastBad(false), big0(0) {} };
static void feed(Rng& r, Inst& b, int port, const vec& v) {
  SimPort& q = b.S.in[port]; std::vector<double*>& own = b.own[port]; for (size_t i = 0; i < own.size(); ++i) free(own[i]); own.clear(); int n = (int)v.size(); q.el.assign(n, (double*)0); int st = (q.feed & 2) ? 0 : b.style[port];
  if (st == 0) { double* d = (double*)malloc(sizeof(double) * (n ? n : 1)); own.push_back(d); for (int i = 0; i < n; ++i) { d[i] = v[i]; q.el[i] = d + i; } }
  else if (st == 1) { for (int i = 0; i < n; ++i) { double* d = (double*)malloc(sizeof(double)); *d = v[i]; own.push_back(d); q.el[i] = d; } add("scattered_ports"); } // elements of several sources (Mux)
  else { std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i; r.shuffle(perm); double* d = (double*)malloc(sizeof(double) * (n ? n : 1)); own.push_back(d); for (int i = 0; i < n; ++i) { d[perm[i]] = v[i]; q.el[i] = d + perm[i]; } add("permuted_ports"); } // elements of one vector in another order (Selector)
}
static vec colMajor(const Prob& p) { vec a(p.A.size()); for (int i = 0; i < p.m; ++i) for (int j = 0; j < p.n; ++j) a[j * p.m + i] = p.A[i * p.n + j]; return a; }
static void feedAll(Rng& r, Inst& b) {
  const Prob& p = b.p; vec cm = colMajor(p); const vec none; const vec* v[7] = {&p.H, &p.g, &cm, (p.omit & 1) ? &none : &p.lb, (p.omit & 2) ? &none : &p.ub, (p.omit & 4) ? &none : &p.lbA, (p.omit & 8) ? &none : &p.ubA};
  for (int k = 0; k < 7; ++k) if (PORT[b.kind][k] >= 0) feed(r, b, PORT[b.kind][k], *v[k]); }
static bool guarded(void (*f)(SimStruct*), SimStruct* S, char* msg) { try { f(S); return true; } catch (MexError& e) { snprintf(msg, 120, "%s", e.msg); return false; } }
static void widths(Inst& b) { const Prob& p = b.p; int w[7] = {p.n * p.n, p.n, p.n * p.m, (p.omit & 1) ? 0 : p.n, (p.omit & 2) ? 0 : p.n, (p.omit & 4) ? 0 : p.m, (p.omit & 8) ? 0 : p.m}; for (int k = 0; k < 7; ++k) if (PORT[b.kind][k] >= 0) b.S.in[PORT[b.kind][k]].width = w[k]; }
static void drop(Inst& b) { for (size_t q = 0; q < b.own.size(); ++q) for (size_t i = 0; i < b.own[q].size(); ++i) free(b.own[q][i]); b.own.clear(); for (size_t i = 0; i < b.par.size(); ++i) delete b.par[i]; b.par.clear(); for (size_t i = 0; i < b.S.out.size(); ++i) free(b.S.out[i].out); free(b.S.pwork); b.S.pwork = 0; }
static bool make(Rng& r, Inst& b) {
  const Prob& p = b.p; if (b.kind != BS) { b.par.push_back(mxDense(p.n, p.n, &p.H[0])); if (b.kind == BQ) { vec cm = colMajor(p); b.par.push_back(p.m ? mxDense(p.m, p.n, &cm[0]) : mxDense(r.range(0, 2), 0, 0)); } } b.S.param = b.par;
  BL[b.kind]->sizes(&b.S); int ni = b.kind == BB ? 3 : (b.kind == BQ ? 5 : 7);
  if (b.S.nParamsWanted != (int)b.par.size() || (int)b.S.in.size() != ni || b.S.out.size() != 4 || b.S.nContStates != 0 || b.S.nDiscStates != 0) { viol("block-layout", "%s: %d parameters, %d input and %d output ports", BN[b.kind], b.S.nParamsWanted, (int)b.S.in.size(), (int)b.S.out.size()); return false; }
  static const int ow[4] = {2, 1, 1, 1}; for (int i = 0; i < ni; ++i) if (b.S.in[i].width != DYNAMICALLY_SIZED || !(b.S.in[i].feed & 1)) { viol("block-layout", "%s: input port %d width %d feedthrough %d", BN[b.kind], i, b.S.in[i].width, b.S.in[i].feed); return false; }
  for (int i = 0; i < 4; ++i) { if (b.S.out[i].width != ow[i]) { viol("block-layout", "%s: output port %d has width %d", BN[b.kind], i, b.S.out[i].width); return false; } b.S.out[i].out = (double*)malloc(sizeof(double) * ow[i]); }
  BL[b.kind]->times(&b.S); if (b.S.nSampleTimes != 1 || b.S.ts != -1 || b.S.off != 0) viol("sample-time", "%s: sample time %g offset %g", BN[b.kind], b.S.ts, b.S.off);
  b.S.pwork = (void**)calloc(b.S.nPWork > 0 ? b.S.nPWork : 1, sizeof(void*)); b.own.resize(ni); b.style.resize(ni); for (int i = 0; i < ni; ++i) b.style[i] = r.range(0, 2); widths(b); return true; }
static void matrices(Rng& r, Inst& b) { int n = b.p.n, m = b.p.m; genH(r, b.p, b.o); if (b.o.hk == HK_SEMI && b.p.ht == HST_ZERO) b.p.H.assign(n * n, 0.0); (void)m; genA(r, b.p, b.o); }
static void spoil(Rng& r, Prob& p) { // no feasible point
  if (p.m && r.chance(0.6)) { int c = r.range(0, p.m - 1); double lo = 0, up = 0; for (int j = 0; j < p.n; ++j) { p.lb[j] = -1; p.ub[j] = 1; lo -= std::fabs(p.A[c * p.n + j]); } up = -lo; p.omit &= ~3; if (r.chance(0.5)) { p.lbA[c] = up + 1; p.ubA[c] = up + 3; } else { p.ubA[c] = lo - 1; p.lbA[c] = lo - 2; } p.omit &= ~12; }
  else { int i = r.range(0, p.n - 1); p.omit &= ~3; p.lb[i] = 2; p.ub[i] = 1; } }
static void step(Rng& r, Inst& b, bool infeasible) {
  Prob& p = b.p; for (int i = 0; i < 4; ++i) { for (int k = 0; k < (i ? 1 : 2); ++k) b.S.out[i].out[k] = 4711.25 + k; }
  feedAll(r, b); BL[b.kind]->outputs(&b.S, 0); const double *u = b.S.out[0].out, f = b.S.out[1].out[0], st = b.S.out[2].out[0], it = b.S.out[3].out[0]; ++b.steps; add("block_steps");
  char ex[96]; snprintf(ex, sizeof ex, "%s step %d n=%d m=%d after %s", BN[b.kind], b.steps, p.n, p.m, b.lastBad ? "a failure" : "success"); bool fin = true; for (int k = 0; k < 2; ++k) fin = fin && u[k] >= -INFTY && u[k] <= INFTY; fin = fin && f >= -INFTY && f <= INFTY;
  if (!fin) { viol("output-range", "u=(%g %g) fval=%g %s", u[0], u[1], f, ex); return; }
  if (!(it >= 0 && it <= 100 && it == std::floor(it))) { viol("iteration-output", "iter=%g %s", it, ex); return; }
  if (infeasible) { add("infeasible_steps"); b.lastBad = true; if (b.big && st == 1 && it == 100) add("limit_steps"); else if (st != -2) viol("infeasible-status", "exitflag=%g for a QP without feasible point %s", st, ex); else add("infeasible_reported"); return; }
  if (st == 1) { if (b.big && it == 100) { add("limit_steps"); b.lastBad = true; return; } viol("limit-status", "exitflag=1 iter=%g %s", it, ex); return; }
  if (st != 0) { if (b.big && it >= 90) { add("limit_steps"); b.lastBad = true; return; } viol("feasible-status", "exitflag=%g iter=%g for a feasible strictly convex QP %s", st, it, ex); dumpProb(p); return; }
  Solver ref(p.m ? KQ : KB, p.n, p.m, HST_UNKNOWN); ref.b->setOptions(presetOptions(1)); int_t nw = bigWSR(p); if (ref.init(&p.H[0], &p.g[0], p.Ap(), p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), nw, 0) != SUCCESSFUL_RETURN) { add("reference_failed"); return; }
  vec x, y; ref.sol(x, y); Kkt k = kkt(p, &x[0], &y[0]); if (!(k.worst < 1e-8)) { add("reference_failed"); return; }
  double fr = (double)objective(p, &x[0]), d = std::fabs(u[0] - x[0]) / (1 + std::fabs(x[0])); d = std::max(d, std::fabs(u[1] - x[1]) / (1 + std::fabs(x[1]))); double df = std::fabs(f - fr) / (1 + std::fabs(fr)); smax("worst_control_error", d); smax("worst_objective_error", df); add("optimal_steps"); if (b.steps > 1) add("hot_steps"); if (b.lastBad) add("recovered_steps"); b.lastBad = false; if (it > 0) add("steps_with_iterations");
  if (!(d <= 1e-6)) { viol("control-output", "u=(%.9g %.9g), optimum (%.9g %.9g) %s", u[0], u[1], x[0], x[1], ex); dumpProb(p); } else if (!(df <= 1e-7)) viol("objective-output", "fval=%.9g, optimal value %.9g %s", f, fr, ex);
}
static void wrong(Rng& r) { // blocks whose parameters or signals do not fit together are refused
  Inst* b = new Inst(); b->kind = r.range(0, 2); b->o.nmin = 2; b->o.nmax = 5; b->o.mmin = 1; b->o.mmax = 5; b->o.hk = HK_DENSE; if (b->kind == BB) b->o.mmin = b->o.mmax = 0; genFeasible(r, b->p, b->o); if (!make(r, *b)) { drop(*b); delete b; return; }
  Prob& p = b->p; SimStruct& S = b->S; const int* P = PORT[b->kind]; int n = p.n, m = p.m, w = r.range(0, 9); const char* what = 0; vec z(n * n + n * m + 40, 1.0);
  if (r.chance(0.3)) S.in[P[4]].width = 0; if (r.chance(0.3)) S.in[P[3]].width = 0; if (m && r.chance(0.3)) S.in[P[5]].width = 0; if (m && r.chance(0.3)) S.in[P[6]].width = 0; // some vectors omitted: no excuse for the others
  switch (w) {
    case 0: S.in[P[3]].width = n + (r.chance(0.5) ? 1 : -1); what = "lb"; break; case 1: S.in[P[4]].width = n + (r.chance(0.5) ? 1 : -1); what = "ub"; break;
    case 2: if (m) { S.in[P[5]].width = m > 1 && r.chance(0.5) ? m - 1 : m + 1; what = "lbA"; } break; case 3: if (m) { S.in[P[6]].width = m > 1 && r.chance(0.5) ? m - 1 : m + 1; what = "ubA"; } break;
    case 4: if (b->kind == BS) { S.in[0].width = n * n + (r.chance(0.5) ? 1 : -1); what = "H"; } else { int a = n + r.range(-1, 1), c = n + r.range(-1, 1); if (a != n || c != n) { delete b->par[0]; b->par[0] = mxDense(a, c, &z[0]); what = "H"; } } break;
    case 5: if (b->kind == BQ) { delete b->par[1]; b->par[1] = mxDense(m, n + (r.chance(0.5) ? 1 : -1), &z[0]); what = "A columns"; } else if (b->kind == BS) { S.in[P[2]].width = n * m + r.range(1, n - 1); what = "A entries"; } break;
    case 6: S.in[P[1]].width = n + 1; what = "g"; break;
    case 7: S.in[P[1]].width = n - 1; what = "g"; break;
    case 8: { S.in[P[1]].width = 1; S.in[P[3]].width = S.in[P[4]].width = 1; if (b->kind == BS) { S.in[0].width = 1; S.in[2].width = m; } else { delete b->par[0]; b->par[0] = mxDense(1, 1, &z[0]); if (b->kind == BQ) { delete b->par[1]; b->par[1] = mxDense(m, 1, &z[0]); } } what = "fewer variables than controls"; } break;
    default: if (b->kind != BS) { delete b->par[0]; b->par[0] = mxDense(0, 0, 0); what = "empty H"; } break; }
  S.param = b->par; char msg[120] = ""; bool ok = guarded(BL[b->kind]->start, &S, msg); if (what) { add("misfit_blocks"); if (ok) viol("misfit-accepted", "%s: wrong %s accepted (n=%d m=%d)", BN[b->kind], what, n, m); } else { add("fitting_blocks"); if (!ok) viol("fitting-rejected", "%s: %s", BN[b->kind], msg); }
  BL[b->kind]->terminate(&S); drop(*b); delete b; }
static void run(long idx, Rng& r) {
  if (idx % 5 == 4) { tag("misfit"); for (int k = 0; k < 6; ++k) wrong(r); sig(mix(77, idx)); return; }
  tag("steps"); int ni = r.range(1, 3); std::deque<Inst> in; uint64_t h = 1;
  for (int k = 0; k < ni; ++k) { in.push_back(Inst()); Inst& b = in.back(); b.kind = r.range(0, 2); b.o.nmin = 2; b.o.nmax = 7; b.o.mmax = 9; if (r.chance(0.15)) { b.o.nmin = 8; b.o.nmax = 14; b.o.mmax = 18; } if (idx % 40 == 7 && k == 0) { b.kind = b.kind == BB ? BQ : b.kind; b.big = true; b.o.nmin = 90; b.o.nmax = 120; b.o.mmin = 40; b.o.mmax = 80; b.o.pInf = 0.05; } b.o.pEq = 0.1; static const int HK[] = {HK_DENSE, HK_DIAG, HK_SPARSE}; b.o.hk = HK[r.range(0, 2)]; if (b.kind == BB) b.o.mmax = 0; genFeasible(r, b.p, b.o);
    if (r.chance(0.3)) { b.p.drop(r.range(1, b.p.m ? 15 : 3)); } int om = b.p.omit; b.p.omit = om; if (!make(r, b)) { for (std::deque<Inst>::iterator i = in.begin(); i != in.end(); ++i) drop(*i); return; } char msg[120] = "";
    if (!guarded(BL[b.kind]->start, &b.S, msg)) viol("fitting-rejected", "%s n=%d m=%d: %s", BN[b.kind], b.p.n, b.p.m, msg); else { b.started = true; add("blocks_started"); } }
  int steps = r.range(3, R().thorough ? 40 : 14);
  for (int k = 0; k < steps; ++k) for (std::deque<Inst>::iterator i = in.begin(); i != in.end(); ++i) { Inst& b = *i; if (!b.started || (b.big && b.steps > 3)) continue; int om = b.p.omit; bool bad = false; Prob keep;
      if (b.steps || k) { nextVectors(r, b.p, b.o); if (b.kind == BS && r.chance(0.4)) { matrices(r, b); genVectors(r, b.p, b.o); add("matrix_changes"); } if (om) b.p.drop(om); }
      if (r.chance(0.12) && (om & 3) == 0 && (om & 12) == 0) { keep = b.p; spoil(r, b.p); bad = true; } h = mix(h, probSig(b.p)); step(r, b, bad); if (bad) b.p = keep; }
  for (std::deque<Inst>::iterator i = in.begin(); i != in.end(); ++i) { Inst& b = *i; BL[b.kind]->terminate(&b.S); add("blocks_terminated"); sample("block %s n=%d m=%d steps=%d omitted=%d", BN[b.kind], b.p.n, b.p.m, b.steps, b.p.omit); drop(b); }
  sig(h);
}
int main(int c, char** v) { return runMain(c, v, run); }
