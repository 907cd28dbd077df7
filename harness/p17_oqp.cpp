// Benchmark collections: data read exactly, every member solved, figures are those of the solutions, broken collections rejected.
#include "files.hpp"
#include <qpOASES/extras/OQPinterface.hpp>
#include <time.h>
using namespace vf;
static char dir[300];
static const char* FN[] = {"dims", "H", "g", "lb", "ub", "A", "lbA", "ubA", "x_opt", "y_opt", "obj_opt"};
enum { NF = 11 };
static const char* fname(int k, char* b) { snprintf(b, 420, "%s/%s.oqp", dir, FN[k]); return b; }
static void wdata(Rng& r, int k, const vec& v, int rows, int cols) { char b[420]; FILE* f = fopen(fname(k, b), "w"); if (!f) { fprintf(stderr, "cannot write %s\n", b); _exit(3); } const char* F = r.chance(0.5) ? "%.17g" : "%.16e"; for (int i = 0; i < rows; ++i) { for (int j = 0; j < cols; ++j) { fprintf(f, F, v[(size_t)i * cols + j]); fputc(r.chance(0.8) ? ' ' : '\t', f); } fputs(r.chance(0.9) ? "\n" : " \n\n", f); } fclose(f); }
struct Coll { int nQP, n, m, nec; vec H, g, lb, ub, A, lbA, ubA, x, y, o; };
static void app(vec& a, const vec& b) { a.insert(a.end(), b.begin(), b.end()); }
struct Fig { double nmax, navg, st, fe, co; returnValue rv; double mag; };
static void score(const Prob& p, const vec& x, const vec& y, double& st, double& fe, double& co, double& mag) { int n = p.n, m = p.m; ld S = 0, F = 0, C = 0, M = 1; for (int i = 0; i < n; ++i) { ld s = (ld)p.g[i] - y[i], a = fabsl((ld)p.g[i]) + std::fabs(y[i]); for (int j = 0; j < n; ++j) { ld t = (ld)p.H[i * n + j] * x[j]; s += t; a += fabsl(t); } for (int c = 0; c < m; ++c) { ld t = (ld)p.A[c * n + i] * y[n + c]; s -= t; a += fabsl(t); } S = std::max(S, fabsl(s)); M = std::max(M, a); }
  for (int i = 0; i < n + m; ++i) { ld v, a; double lo, up; if (i < n) { v = x[i]; a = fabsl(v); lo = p.lb[i]; up = p.ub[i]; } else { v = a = 0; for (int j = 0; j < n; ++j) { ld t = (ld)p.A[(i - n) * n + j] * x[j]; v += t; a += fabsl(t); } lo = p.lbA[i - n]; up = p.ubA[i - n]; } F = std::max(F, std::max((ld)lo - v, v - (ld)up)); ld q = 0; if (y[i] > 1e3 * EPS) q = (v - lo) * y[i]; else if (y[i] < -1e3 * EPS) q = (v - up) * y[i]; C = std::max(C, fabsl(q)); M = std::max(M, a * (1 + std::fabs(y[i]))); }
  st = (double)S; fe = (double)F; co = (double)C; mag = (double)M; }
static const double* P_(const vec& v) { return v.empty() ? 0 : &v[0]; }
// the same sequence driven by hand
static Fig byHand(const std::vector<Prob*>& P, const Options& op, bool sparse, bool hot, int limit, bool general = false) {
  const Prob& p = *P[0]; int n = p.n, m = p.m; Solver s(m || general ? KQ : KB, n, m); s.b->setOptions(op); Fig f; f.nmax = f.navg = f.st = f.fe = f.co = 0; f.mag = 1; f.rv = SUCCESSFUL_RETURN; SymmetricMatrix* H; Matrix* A = 0; vec h(p.H), a(p.A); if (sparse) { SymSparseMat* q = new SymSparseMat(n, n, n, P[0]->H.empty() ? 0 : &h[0]); q->createDiagInfo(); H = q; if (m) A = new SparseMatrixRow(m, n, n, &a[0]); } else { H = new SymDenseMat(n, n, n, &h[0]); if (m) A = new DenseMatrix(m, n, n, &a[0]); }
  vec x(n, 0.0), y(n + m, 0.0); for (size_t k = 0; k < P.size(); ++k) { const Prob& q = *P[k]; int_t nw = limit; returnValue rv = (k == 0 || !hot) ? (s.q ? s.q->init(H, &q.g[0], A, &q.lb[0], &q.ub[0], P_(q.lbA), P_(q.ubA), nw) : s.b->init(H, &q.g[0], &q.lb[0], &q.ub[0], nw)) : s.hot(&q.g[0], &q.lb[0], &q.ub[0], m ? &q.lbA[0] : 0, m ? &q.ubA[0] : 0, nw); if (rv != SUCCESSFUL_RETURN && rv != RET_MAX_NWSR_REACHED) { f.rv = rv; break; } if (rv == SUCCESSFUL_RETURN) add("members_solved"); else add("members_interrupted"); s.b->getPrimalSolution(&x[0]); s.b->getDualSolution(&y[0]); double st, fe, co, mg; score(q, x, y, st, fe, co, mg); f.st = std::max(f.st, st); f.fe = std::max(f.fe, fe); f.co = std::max(f.co, co); f.mag = std::max(f.mag, mg); f.nmax = std::max(f.nmax, (double)nw); f.navg += (double)nw; }
  f.navg /= (double)P.size(); delete H; delete A; return f; }
static bool near(double a, double b, double mag) { return std::fabs(a - b) <= 1e-13 * mag * 50 + 1e-9 * std::fabs(b); }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void run(long idx, Rng& r) {
  snprintf(dir, sizeof dir, "%s/p17.%d", getenv("VF_TMP") ? getenv("VF_TMP") : "/tmp", (int)getpid()); mkdir(dir, 0755); char path[320]; snprintf(path, sizeof path, "%s/", dir); char key[96], fb[420];
  int mode = (int)(idx % 4); // 0,1 well-posed collection, 2 broken collection, 3 member that cannot be solved / iteration limit
  tag(mode < 2 ? "wellposed" : mode == 2 ? "broken" : "unsolvable"); GenOpt o; o.nmax = 7; o.mmax = r.chance(0.4) ? 0 : 8; int hk = r.range(0, 5); if (hk == 0) o.hk = HK_IDENT; bool semi = hk == 1; if (semi) { o.hk = r.chance(0.5) ? HK_SEMI : HK_ZERO; o.pInf = 0; }
  Coll c; c.nQP = r.range(1, 6); std::vector<Prob*> P; for (int k = 0; k < c.nQP; ++k) { Prob* p = k ? new Prob(*P[k - 1]) : new Prob(); if (k) nextVectors(r, *p, o); else genFeasible(r, *p, o); P.push_back(p); } c.n = P[0]->n; c.m = P[0]->m; int n = c.n, m = c.m; c.nec = 0; int badAt = -1;
  if (mode == 3 && r.chance(0.5) ) { badAt = r.range(0, c.nQP - 1); Prob& p = *P[badAt]; int i = r.range(0, n - 1); p.lb[i] = 1 + r.u01(); p.ub[i] = -1; for (int k = badAt + 1; k < c.nQP; ++k) {} }
  for (int i = 0; i < m; ++i) if (P[0]->lbA[i] == P[0]->ubA[i]) c.nec++;
  c.H = P[0]->H; c.A = P[0]->A; for (int k = 0; k < c.nQP; ++k) { app(c.g, P[k]->g); app(c.lb, P[k]->lb); app(c.ub, P[k]->ub); if (m) { app(c.lbA, P[k]->lbA); app(c.ubA, P[k]->ubA); } for (int i = 0; i < n; ++i) c.x.push_back(r.nrm()); for (int i = 0; i < n + m; ++i) c.y.push_back(r.nrm()); c.o.push_back(r.nrm()); }
  uint64_t h = mix(probSig(*P[0]), c.nQP); for (size_t i = 0; i < c.g.size(); ++i) h = mix(h, bits(c.g[i]));
  { FILE* f = fopen(fname(0, fb), "w"); fprintf(f, r.chance(0.5) ? "%d\n%d\n%d\n%d\n" : "%d %d %d %d", c.nQP, n, m, c.nec); fclose(f); } bool opts = r.chance(0.6);
  wdata(r, 1, c.H, n, n); wdata(r, 2, c.g, c.nQP, n); wdata(r, 3, c.lb, c.nQP, n); wdata(r, 4, c.ub, c.nQP, n); if (m) { wdata(r, 5, c.A, m, n); wdata(r, 6, c.lbA, c.nQP, m); wdata(r, 7, c.ubA, c.nQP, m); } if (opts) { wdata(r, 8, c.x, c.nQP, n); wdata(r, 9, c.y, c.nQP, n + m); wdata(r, 10, c.o, c.nQP, 1); }
  int broken = -1, how = 0; bool bx = opts && r.chance(0.7), by = opts && r.chance(0.7), bo = opts && r.chance(0.7); bool skipA = m == 0 && r.chance(0.4);
  if (mode == 2) { int q = 0; do broken = r.range(0, NF - 1); while ((!m && broken >= 5 && broken <= 7) || (!opts && broken >= 8) || (broken == 8 && !bx) || (broken == 9 && !by) || (broken == 10 && !bo) || ++q > 500); how = r.range(0, BRK - 1); if (broken == 0 && r.chance(0.5)) { int v[4] = {c.nQP, n, m, c.nec}; int w = r.range(0, 3); v[w] = w < 2 ? -r.range(0, 3) : -r.range(1, 3); FILE* f = fopen(fname(0, fb), "w"); fprintf(f, "%d %d %d %d\n", v[0], v[1], v[2], v[3]); fclose(f); how = BRK; add("broken:dimensions"); } else breakFile(r, fname(broken, fb), how); }
  // reading
  { int_t a[4] = {-7, -7, -7, -7}; returnValue rv = readOqpDimensions(path, a[0], a[1], a[2], a[3]); add("dims_read"); if (broken == 0) { if (rv == SUCCESSFUL_RETURN) viol("dims-broken-accepted", "readOqpDimensions accepted a broken file (%d)", how); } else if (rv != SUCCESSFUL_RETURN || a[0] != c.nQP || a[1] != n || a[2] != m || a[3] != c.nec) viol("dims", "ret %d: %d %d %d %d instead of %d %d %d %d", (int)rv, (int)a[0], (int)a[1], (int)a[2], (int)a[3], c.nQP, n, m, c.nec);
    real_t* D[11]; for (int k = 0; k < 11; ++k) D[k] = 0; rv = readOqpData(path, a[0], a[1], a[2], a[3], &D[1], &D[2], skipA ? 0 : &D[5], &D[3], &D[4], skipA ? 0 : &D[6], skipA ? 0 : &D[7], bx ? &D[8] : 0, by ? &D[9] : 0, bo ? &D[10] : 0); add("data_read");
    if (broken >= 0) { add("broken_reads"); if (rv == SUCCESSFUL_RETURN) { snprintf(key, sizeof key, "data-broken-accepted-%s", FN[broken]); viol(key, "readOqpData accepted broken %s (%s)", FN[broken], how == BRK ? "dimensions" : brkName(how)); for (int k = 1; k < 11; ++k) delete[] D[k]; } }
    else if (rv != SUCCESSFUL_RETURN) viol("data", "readOqpData returned %d for a complete collection", (int)rv);
    else { const vec* W[11] = {0, &c.H, &c.g, &c.lb, &c.ub, &c.A, &c.lbA, &c.ubA, &c.x, &c.y, &c.o}; for (int k = 1; k < 11; ++k) { bool want = k < 5 || (k < 8 ? m > 0 : k == 8 ? bx : k == 9 ? by : bo); if (!want) { if (D[k]) viol("data-null", "%s returned although there is none", FN[k]); continue; } size_t sz = k == 5 ? (size_t)m * n : W[k]->size(); add("values_compared", (long)sz); for (size_t i = 0; i < sz; ++i) if (bits(D[k][i]) != bits((*W[k])[i])) { snprintf(key, sizeof key, "data-%s", FN[k]); viol(key, "entry %d is %.17g, stored %.17g", (int)i, D[k][i], (*W[k])[i]); break; } delete[] D[k]; } }
    real_t* Z = 0; if (readOqpData(path, a[0], a[1], a[2], a[3], 0, &Z, &Z, &Z, &Z, &Z, &Z, 0, 0, 0) == SUCCESSFUL_RETURN) viol("data-null-accepted", "readOqpData accepted a missing output"); }
  // solving
  int runs = mode == 2 ? 1 : 2; for (int q = 0; q < runs; ++q) {
    bool sparse = r.chance(0.5), hot = r.chance(0.6), wrap = hot && r.chance(0.3), mem = r.chance(0.4); int pr = semi ? r.range(0, 1) : r.range(0, 2); Options op = presetOptions(pr); int limit = mode == 3 && badAt < 0 ? r.range(0, 6) : 3000; Fig f = broken >= 0 ? Fig() : byHand(P, op, sparse, hot, limit);
    real_t nmax = -5, navg = -5, tmax = 1e4, tavg = -5, st = -5, fe = -5, co = -5; returnValue rv; int_t nw = limit; double t0 = now();
    if (mem && broken < 0) { vec hh(c.H), aa(c.A); const double* Hq = &hh[0]; bool noc = m == 0; if (noc && r.chance(0.5)) { rv = wrap ? solveOqpBenchmark(c.nQP, n, 0, 0, Hq, &c.g[0], 0, &c.lb[0], &c.ub[0], 0, 0, sparse ? BT_TRUE : BT_FALSE, op, nw, tmax, st, fe, co) : solveOqpBenchmark(c.nQP, n, 0, 0, Hq, &c.g[0], 0, &c.lb[0], &c.ub[0], 0, 0, sparse ? BT_TRUE : BT_FALSE, hot ? BT_TRUE : BT_FALSE, op, limit, nmax, navg, tmax, tavg, st, fe, co); add("empty_constraints"); f = byHand(P, op, sparse, hot, limit, true); }
      else if (noc) rv = wrap ? solveOqpBenchmark(c.nQP, n, Hq, &c.g[0], &c.lb[0], &c.ub[0], sparse ? BT_TRUE : BT_FALSE, op, nw, tmax, st, fe, co) : solveOqpBenchmark(c.nQP, n, Hq, &c.g[0], &c.lb[0], &c.ub[0], sparse ? BT_TRUE : BT_FALSE, hot ? BT_TRUE : BT_FALSE, op, limit, nmax, navg, tmax, tavg, st, fe, co);
      else rv = wrap ? solveOqpBenchmark(c.nQP, n, m, c.nec, Hq, &c.g[0], &aa[0], &c.lb[0], &c.ub[0], &c.lbA[0], &c.ubA[0], sparse ? BT_TRUE : BT_FALSE, op, nw, tmax, st, fe, co) : solveOqpBenchmark(c.nQP, n, m, c.nec, Hq, &c.g[0], &aa[0], &c.lb[0], &c.ub[0], &c.lbA[0], &c.ubA[0], sparse ? BT_TRUE : BT_FALSE, hot ? BT_TRUE : BT_FALSE, op, limit, nmax, navg, tmax, tavg, st, fe, co);
      add("solved_from_memory"); if (memcmp(&hh[0], &c.H[0], c.H.size() * 8) || (m && memcmp(&aa[0], &c.A[0], c.A.size() * 8))) viol("input-modified", "solveOqpBenchmark modified its matrices"); }
    else { rv = wrap ? runOqpBenchmark(path, sparse ? BT_TRUE : BT_FALSE, op, nw, tmax, st, fe, co) : runOqpBenchmark(path, sparse ? BT_TRUE : BT_FALSE, hot ? BT_TRUE : BT_FALSE, op, limit, nmax, navg, tmax, tavg, st, fe, co); add("solved_from_files"); }
    double el = now() - t0; add("benchmarks"); char cfg[120]; snprintf(cfg, sizeof cfg, "%s %s preset %d nQP=%d n=%d m=%d limit %d", sparse ? "sparse" : "dense", hot ? "hot" : "cold", pr, c.nQP, n, m, limit);
    if (broken >= 0) { if (rv == SUCCESSFUL_RETURN && broken < 8) { snprintf(key, sizeof key, "run-broken-accepted-%s", FN[broken]); viol(key, "runOqpBenchmark returned success with broken %s", FN[broken]); } else if (rv != SUCCESSFUL_RETURN && broken >= 8) viol("run-optional", "runOqpBenchmark returned %d although only %s is broken", (int)rv, FN[broken]); if (broken < 8) continue; f = byHand(P, op, sparse, hot, limit); }
    if ((rv == SUCCESSFUL_RETURN) != (f.rv == SUCCESSFUL_RETURN)) { viol("outcome", "returned %d, by hand %d; %s", (int)rv, (int)f.rv, cfg); continue; }
    if (badAt >= 0) { add("unsolvable"); if (rv == SUCCESSFUL_RETURN) viol("infeasible-success", "success although member %d is infeasible; %s", badAt, cfg); continue; }
    if (rv != SUCCESSFUL_RETURN) { add(semi ? "unsolved_degenerate" : "unsolved"); continue; }
    add("compared"); if (limit == 3000) add("fully_solved"); if (wrap) nmax = (double)nw; if (nmax != f.nmax || (!wrap && std::fabs(navg - f.navg) > 1e-9 * (1 + f.navg))) viol("iterations", "max %g avg %g, by hand %g %g; %s", nmax, navg, f.nmax, f.navg, cfg); if (nmax > limit) viol("limit", "%g iterations with limit %d", nmax, limit);
    if (!near(st, f.st, f.mag)) viol("stationarity", "reported %.6e, of the solutions %.6e; %s", st, f.st, cfg); if (!near(fe, f.fe, f.mag)) viol("feasibility", "reported %.6e, of the solutions %.6e; %s", fe, f.fe, cfg); if (!near(co, f.co, f.mag)) viol("complementarity", "reported %.6e, of the solutions %.6e; %s", co, f.co, cfg);
    if (limit == 3000 && std::max(st, std::max(fe, co)) > 1e-6 * f.mag) viol("accuracy", "figures %.2e %.2e %.2e for solved members; %s", st, fe, co, cfg); if (limit == 3000) smax("figures", std::max(st, std::max(fe, co)) / f.mag);
    if (!(tmax >= 0 && tmax <= el + 0.01) || (!wrap && !(tavg >= 0 && tavg <= tmax + 1e-9))) viol("cputime", "max %.3e avg %.3e elapsed %.3e; %s", tmax, tavg, el, cfg); sig(mix(h, sparse * 2 + hot)); }
  sample("mode=%d nQP=%d n=%d m=%d broken=%s", mode, c.nQP, n, m, broken < 0 ? "-" : FN[broken]);
  for (size_t k = 0; k < P.size(); ++k) delete P[k]; for (int k = 0; k < NF; ++k) wipe(fname(k, fb)); rmdir(dir);
}
int main(int c, char** v) { return runMain(c, v, run); }
