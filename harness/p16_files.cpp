// Files: what the library writes is read back exactly, QPs read from files are solved as from arrays, exported binary files hold the QP, broken files are rejected without a trace.
#include "files.hpp"
#include <limits.h>
using namespace vf;
static char dir[300]; static char pathbuf[64][400]; static int pathn;
static const char* path(const char* nm) { char* p = pathbuf[pathn++ % 64]; snprintf(p, 400, "%s/%s", dir, nm); return p; }
static double val(Rng& r) { switch (r.range(0, 9)) { case 0: return 0; case 1: return -0.0; case 2: return r.sgn() * 1e300 * r.u01(); case 3: return r.sgn() * 4.9e-324 * r.range(1, 1000); case 4: return r.sgn() * INFTY; case 5: return r.range(-1000, 1000); case 6: return r.sgn() * 1.7976931348623157e308; case 7: return r.sgn() * exp(r.uni(-600, 600)); default: return r.nrm(); } }
// 1: the text holds at least N complete numbers in front, 0: fewer than N tokens or a non-number among the first N, -1: unclear (number with a tail)
static int numbers(const char* s, int N, bool ints, vec* out) { for (int k = 0; k < N; ++k) { while (isws(*s)) ++s; if (!*s) return 0; const char* e = s; while (*e && !isws(*e)) ++e; if (ints) { const char* q = s; if (*q == '+' || *q == '-') ++q; if (*q < '0' || *q > '9') return 0; while (*q >= '0' && *q <= '9') ++q; if (q != e || e - s > 18) return -1; if (out) out->push_back((double)atol(s)); }
    else { const char* q = s; if (*q == '+' || *q == '-') ++q; bool dig = (*q >= '0' && *q <= '9') || (*q == '.' && q[1] >= '0' && q[1] <= '9'); if (!dig) { if (*q == 'i' || *q == 'I' || *q == 'n' || *q == 'N' || *q == '.') return -1; return 0; } char* f; double v = strtod(s, &f); if (f != e) return -1; if (out) out->push_back(v); } s = e; } return 1; }
//------------------------------------------------------------------ utilities
static void utils(Rng& r) {
  const char* f = path("u"); int nr = r.range(0, 6), nc = r.range(0, 6), blocks = r.range(1, 3); if (r.chance(0.05)) { nr = 40; nc = 30; } tag("utils"); std::vector<vec> B; bool vecform = r.chance(0.3); uint64_t h = nr * 100 + nc;
  for (int b = 0; b < blocks; ++b) { vec v((size_t)nr * nc + 1); for (size_t i = 0; i < v.size(); ++i) { v[i] = val(r); h = mix(h, bits(v[i])); } vec c(v); returnValue rv = vecform ? writeIntoFile(P(v), nr * nc, f, b ? BT_TRUE : BT_FALSE) : writeIntoFile(P(v), nr, nc, f, b ? BT_TRUE : BT_FALSE); if (rv != SUCCESSFUL_RETURN) viol("write-failed", "writeIntoFile returned %d", (int)rv); if (memcmp(P(v), P(c), v.size() * 8)) viol("write-modifies", "writeIntoFile modified its input"); B.push_back(v); }
  int tot = nr * blocks; vec w((size_t)tot * nc + 1, 5.5); returnValue rv = vecform ? readFromFile(P(w), tot * nc, f) : readFromFile(P(w), tot, nc, f); add("roundtrips");
  if (rv != SUCCESSFUL_RETURN) viol("read-failed", "readFromFile returned %d for a file written by the library (%d x %d, %d blocks)", (int)rv, nr, nc, blocks); else for (int b = 0; b < blocks; ++b) for (int i = 0; i < nr * nc; ++i) if (bits(w[(size_t)b * nr * nc + i]) != bits(B[b][i])) { viol("roundtrip", "block %d entry %d: wrote %.17g, read %.17g", b, i, B[b][i], w[(size_t)b * nr * nc + i]); break; }
  if (w[(size_t)tot * nc] != 5.5) viol("read-overrun", "readFromFile wrote behind its output"); add("values", tot * nc);
  // integers
  { int n = r.range(0, 12); std::vector<int_t> v(n + 1), w2(n + 1, 77), v2(n + 1); for (int i = 0; i < n; ++i) { switch (r.range(0, 5)) { case 0: v[i] = r.range(-5, 5); break; case 1: v[i] = (int_t)((r.u01() - 0.5) * 8e9); break; case 2: v[i] = sizeof(int_t) == 8 ? (int_t)LONG_MAX : (int_t)INT_MAX; break; case 3: v[i] = sizeof(int_t) == 8 ? (int_t)LONG_MIN : (int_t)INT_MIN; break; default: v[i] = r.range(-1000000, 1000000); } v2[i] = v[i] / -3; }
    const char* g = path("i"); bool app = r.chance(0.3) && n; if (writeIntoFile(&v[0], (int_t)n, g, BT_FALSE) != SUCCESSFUL_RETURN || (app && writeIntoFile(&v2[0], (int_t)n, g, BT_TRUE) != SUCCESSFUL_RETURN)) viol("write-failed", "writeIntoFile(int) failed"); rv = readFromFile(&w2[0], (int_t)n, g); add("int_roundtrips");
    if (rv != SUCCESSFUL_RETURN) viol("read-failed", "readFromFile(int) returned %d", (int)rv); else for (int i = 0; i < n; ++i) if (w2[i] != v[i]) { viol("int-roundtrip", "entry %d: wrote %ld, read %ld", i, (long)v[i], (long)w2[i]); break; } if (w2[n] != 77) viol("read-overrun", "readFromFile(int) wrote behind its output");
    if (app) { std::vector<int_t> w3(2 * n + 1, 77); rv = readFromFile(&w3[0], (int_t)(2 * n), g); if (rv != SUCCESSFUL_RETURN || memcmp(&w3[0], &v[0], n * sizeof(int_t)) || memcmp(&w3[n], &v2[0], n * sizeof(int_t))) viol("int-append", "appended integers differ (ret %d)", (int)rv); }
    if (n) { int how = r.range(0, BRK - 1); breakFile(r, g, how); rv = readFromFile(&w2[0], (int_t)n, g); if (rv == SUCCESSFUL_RETURN && !(how == 2 && app) && !(how == 3 && app)) viol("int-broken-accepted", "readFromFile(int) accepted a %s file", brkName(how)); } wipe(g); }
  // mutated text against a reference tokenizer
  if (nr * nc > 0) { Buf b; b.load(f); int muts = r.range(1, 3); for (int k = 0; k < muts; ++k) { long i = r.range(0, (int)b.n - 1); if (r.chance(0.4)) b.n = i, b.p[b.n] = 0; else b.p[i] = "0123456789.eE+- \n\tx#"[r.range(0, 20)]; if (!b.n) break; } if (b.n) b.p[b.n] = 0; for (long i = 0; i < b.n; ++i) if (!b.p[i]) b.p[i] = ' '; put(f, b.p, b.n); vec ref; int want = numbers(b.n ? b.p : "", tot * nc, false, &ref); vec w4((size_t)tot * nc + 1, 5.5); rv = readFromFile(P(w4), tot, nc, f); add("mutated"); char key[40]; if (want >= 0) { snprintf(key, sizeof key, "mutated-%s", want ? "valid" : "invalid"); add(key); }
    if (want == 1) { if (rv != SUCCESSFUL_RETURN) viol("valid-rejected", "readFromFile returned %d for valid text", (int)rv); else for (int i = 0; i < tot * nc; ++i) if (bits(w4[i]) != bits(ref[i])) { viol("misread", "entry %d: text says %.17g, read %.17g", i, ref[i], w4[i]); break; } } else if (want == 0 && rv == SUCCESSFUL_RETURN) viol("broken-accepted", "readFromFile accepted text with fewer than %d numbers", tot * nc); if (w4[(size_t)tot * nc] != 5.5) viol("read-overrun", "readFromFile wrote behind its output"); }
  wipe(f);
  { int how = r.range(0, BRK - 1); vec v(4, 1.5), w5(4); writeIntoFile(&v[0], 4, f, BT_FALSE); breakFile(r, f, how); if (readFromFile(&w5[0], 4, f) == SUCCESSFUL_RETURN) viol("broken-accepted", "readFromFile accepted a %s file", brkName(how)); wipe(f); char q[420]; snprintf(q, sizeof q, "%s/none/x", dir); if (writeIntoFile(&v[0], 2, 2, q, r.chance(0.5) ? BT_TRUE : BT_FALSE) == SUCCESSFUL_RETURN || writeIntoFile(&v[0], 4, dir, BT_FALSE) == SUCCESSFUL_RETURN) viol("unwritable-accepted", "writeIntoFile reported success for an unwritable path"); int_t iv[2] = {1, 2}; if (writeIntoFile(iv, (int_t)2, q, r.chance(0.5) ? BT_TRUE : BT_FALSE) == SUCCESSFUL_RETURN) viol("unwritable-accepted", "writeIntoFile(int) reported success for an unwritable path"); }
  // binary export of single arrays
  { FILE* h = fopen(f, "wb+"); int a = r.range(0, 4), b = r.range(1, 4); vec v((size_t)a * b + 1); for (size_t i = 0; i < v.size(); ++i) v[i] = val(r); std::vector<int_t> iv(a * b + 1); for (size_t i = 0; i < iv.size(); ++i) iv[i] = r.range(-1000, 1000); const char* nm = r.chance(0.5) ? "x" : "long_name_7"; returnValue r1 = writeIntoMatFile(h, P(v), a, b, nm), r2 = writeIntoMatFile(h, &iv[0], (int_t)a, (int_t)b, "idx"); if (r1 != SUCCESSFUL_RETURN || r2 != SUCCESSFUL_RETURN) viol("mat-failed", "writeIntoMatFile returned %d, %d", (int)r1, (int)r2);
    if (writeIntoMatFile(h, P(v), -1, b, nm) == SUCCESSFUL_RETURN || writeIntoMatFile(h, (const real_t*)0, a, b, nm) == SUCCESSFUL_RETURN || writeIntoMatFile((FILE*)0, P(v), a, b, nm) == SUCCESSFUL_RETURN || writeIntoMatFile(h, P(v), a, b, 0) == SUCCESSFUL_RETURN) viol("mat-invalid-accepted", "writeIntoMatFile accepted invalid arguments");
    fclose(h); Buf m; m.load(f); long o = 0; for (int k = 0; k < 2; ++k) { const char* want = k ? "idx" : nm; int32_t hd[5]; if (o + 20 > m.n) { viol("mat-format", "file ends in header %d", k); break; } memcpy(hd, m.p + o, 20); o += 20; if (hd[0] != 0 || hd[1] != a || hd[2] != b || hd[3] != 0 || hd[4] != (int)strlen(want) + 1 || o + hd[4] > m.n || strcmp(m.p + o, want)) { viol("mat-format", "header %d: %d %d %d %d %d", k, hd[0], hd[1], hd[2], hd[3], hd[4]); break; } o += hd[4]; bool bad = false; for (int j = 0; j < b && !bad; ++j) for (int i = 0; i < a && !bad; ++i) { double d = 0; if (o + 8 > m.n) bad = true; else { memcpy(&d, m.p + o, 8); o += 8; } double w6 = k ? (double)iv[i * b + j] : v[i * b + j]; if (bad || bits(d) != bits(w6)) { viol("mat-value", "variable %d entry (%d,%d) is %.17g, not %.17g", k, i, j, d, w6); bad = true; } } if (bad) break; if (k == 1 && o != m.n) viol("mat-format", "trailing bytes"); } add("mat_arrays"); wipe(f); }
  sig(h);
}
//------------------------------------------------------------- QP from files
struct Set { const char* f[8]; int cnt[8]; bool req[8]; }; // H g A lb ub lbA ubA R
static void writeSet(Set& S, const Prob& p, bool mats, const vec* Rf, int tagno) { static const char* N[] = {"H", "g", "A", "lb", "ub", "lbA", "ubA", "R"}; int n = p.n, m = p.m; const double* D[8] = {mats ? p.Hp() : 0, &p.g[0], mats && m ? &p.A[0] : 0, p.lbp(), p.ubp(), p.lbAp(), p.ubAp(), Rf ? &(*Rf)[0] : 0}; int R_[8] = {n, n, m, n, n, m, m, n}, C[8] = {n, 1, n, 1, 1, 1, 1, n};
  for (int i = 0; i < 8; ++i) { S.f[i] = 0; S.cnt[i] = R_[i] * C[i]; S.req[i] = i == 1 || (i == 2 && mats && m > 0); if (D[i] && S.cnt[i]) { char nm[40]; snprintf(nm, sizeof nm, "%s%d", N[i], tagno); S.f[i] = path(nm); returnValue rv = writeIntoFile(D[i], R_[i], C[i], S.f[i], BT_FALSE); if (rv != SUCCESSFUL_RETURN) viol("write-failed", "writeIntoFile returned %d", (int)rv); } } }
static void wipeSet(Set& S) { for (int i = 0; i < 8; ++i) if (S.f[i]) wipe(S.f[i]); }
static returnValue initF(Solver& s, const Set& S, int_t& nw, double* cpu) { if (s.kind == KB) return s.b->init(S.f[0], S.f[1], S.f[3], S.f[4], nw, cpu, 0, 0, 0, S.f[7]); return s.q->init(S.f[0], S.f[1], S.f[2], S.f[3], S.f[4], S.f[5], S.f[6], nw, cpu, 0, 0, 0, 0, S.f[7]); }
static returnValue hotF(Solver& s, const Set& S, int_t& nw, double* cpu) { if (s.kind == KB) return s.b->hotstart(S.f[1], S.f[3], S.f[4], nw, cpu); return s.q->hotstart(S.f[1], S.f[3], S.f[4], S.f[5], S.f[6], nw, cpu); }
static returnValue hotMF(Solver& s, const Set& S, int_t& nw, double* cpu) { return s.s->hotstart(S.f[0], S.f[1], S.f[2], S.f[3], S.f[4], S.f[5], S.f[6], nw, cpu); }
static bool chol(const Prob& p, vec& U) { int n = p.n; U.assign((size_t)n * n, 0.0); for (int j = 0; j < n; ++j) for (int i = 0; i <= j; ++i) { double s = p.H[i * n + j]; for (int k = 0; k < i; ++k) s -= U[k * n + i] * U[k * n + j]; if (i == j) { if (!(s > 1e-10)) return false; U[i * n + i] = sqrt(s); } else U[i * n + j] = s / U[i * n + i]; } return true; }
struct Mat { char name[16]; int r, c; vec v; };
static bool parseMat(const char* f, std::vector<Mat>& M) { Buf b; b.load(f); long o = 0; while (o < b.n) { int32_t hd[5]; if (o + 20 > b.n) return false; memcpy(hd, b.p + o, 20); o += 20; if (hd[0] || hd[3] || hd[1] < 0 || hd[2] < 0 || hd[4] < 1 || hd[4] > 15 || o + hd[4] > b.n) return false; Mat m; memset(m.name, 0, 16); memcpy(m.name, b.p + o, hd[4]); o += hd[4]; m.r = hd[1]; m.c = hd[2]; if (o + 8L * m.r * m.c > b.n) return false; m.v.assign((size_t)m.r * m.c + 1, 0.0); for (int j = 0; j < m.c; ++j) for (int i = 0; i < m.r; ++i) { memcpy(&m.v[(size_t)i * m.c + j], b.p + o, 8); o += 8; } M.push_back(m); } return true; }
static const Mat* find(const std::vector<Mat>& M, const char* n) { for (size_t i = 0; i < M.size(); ++i) if (!strcmp(M[i].name, n)) return &M[i]; return 0; }
static void exports(Rng& r, Solver& s, const Prob& p, bool reg) {
  const char* f = path("mat"); int n = s.n, m = s.m; (void)r; returnValue rv = s.q->writeQpDataIntoMatFile(f); std::vector<Mat> M; add("exports"); if (rv != SUCCESSFUL_RETURN) { viol("export-failed", "writeQpDataIntoMatFile returned %d", (int)rv); return; } if (!parseMat(f, M)) { viol("export-format", "data file is not a level 4 MAT file"); wipe(f); return; }
  const char* N[] = {"H", "g", "A", "lb", "ub", "lbA", "ubA"}; const double* D[] = {&p.H[0], &p.g[0], p.Ap(), &p.lb[0], &p.ub[0], P(p.lbA), P(p.ubA)}; int Rr[] = {n, n, m, n, n, m, m}, Cc[] = {n, 1, n, 1, 1, 1, 1};
  for (int k = 0; k < 7; ++k) { const Mat* x = find(M, N[k]); if (!x) { if (Rr[k]) viol("export-missing", "variable %s is not in the file", N[k]); continue; } if (x->r != Rr[k] || x->c != Cc[k]) { viol("export-size", "variable %s is %d x %d", N[k], x->r, x->c); continue; } for (int i = 0; i < Rr[k] * Cc[k]; ++i) { double w = D[k][i], v = x->v[i]; bool inf = k >= 3 && (isInfLo(w) || isInfUp(w)); bool ok = k == 2 ? v == w : inf ? (w > 0 ? v >= 1e5 : v <= -1e5) : std::fabs(v - w) <= (reg && k == 0 ? 1e-6 : k == 0 ? 0 : 1e-9) * (1 + std::fabs(w)); if (!ok) { viol("export-value", "%s entry %d is %.17g, the problem has %.17g", N[k], i, v, w); break; } } }
  wipe(f); rv = s.q->writeQpWorkspaceIntoMatFile(f); if (rv != SUCCESSFUL_RETURN) { viol("export-failed", "writeQpWorkspaceIntoMatFile returned %d", (int)rv); return; } M.clear(); if (!parseMat(f, M)) { viol("export-format", "workspace file is not a level 4 MAT file"); wipe(f); return; }
  vec x, y; s.sol(x, y); const Mat* Q = find(M, "Q"); const Mat* Ax = find(M, "Ax"); vec w(n + m + 1); s.b->getWorkingSet(&w[0]); int seen = 0; const char* L[] = {"FR_idx", "FX_idx", "AC_idx", "IAC_idx"};
  for (int k = 0; k < 4; ++k) { const Mat* l = find(M, L[k]); if (!l) { viol("export-missing", "%s missing", L[k]); continue; } for (int i = 0; i < l->r; ++i) { int ix = (int)l->v[i], lim = k < 2 ? n : m; ++seen; if (ix < 0 || ix >= lim) { viol("export-index", "%s entry %d is %d", L[k], i, ix); break; } bool act = w[k < 2 ? ix : n + ix] != 0; if (act != (k == 1 || k == 2)) { viol("export-index", "%s contains %d against the working set", L[k], ix); break; } } } if (seen != n + m) viol("export-index", "index lists have %d entries for %d", seen, n + m);
  if (m) { if (!Ax) viol("export-missing", "Ax missing"); else for (int c = 0; c < m; ++c) { ld v = rowDot(p, c, x), mag = 1; for (int j = 0; j < n; ++j) mag += fabsl((ld)p.A[c * n + j] * x[j]); if (!(fabsl(v - Ax->v[c]) <= 1e-6 * mag)) { viol("export-value", "Ax entry %d is %.12g, not %.12g", c, Ax->v[c], (double)v); break; } } }
  const Mat* FR = find(M, "FR_idx"); if (Q && FR) { int nf = FR->r; double worst[2] = {0, 0}; for (int tr = 0; tr < 2; ++tr) for (int a = 0; a < nf; ++a) for (int b = 0; b <= a; ++b) { double t = 0; for (int i = 0; i < nf; ++i) { int ii = (int)FR->v[i]; if (ii < 0 || ii >= n) continue; t += tr ? Q->v[(size_t)ii * n + a] * Q->v[(size_t)ii * n + b] : Q->v[(size_t)a * n + ii] * Q->v[(size_t)b * n + ii]; } worst[tr] = std::max(worst[tr], std::fabs(t - (a == b))); } if (!(std::min(worst[0], worst[1]) <= 1e-8)) viol("export-workspace", "exported Q is not orthogonal on the free variables: %.3e", std::min(worst[0], worst[1])); } else viol("export-missing", "Q or FR_idx missing");
  wipe(f); char q[420]; snprintf(q, sizeof q, "%s/none/x", dir); if (s.q->writeQpDataIntoMatFile(q) == SUCCESSFUL_RETURN || s.q->writeQpWorkspaceIntoMatFile(q) == SUCCESSFUL_RETURN) viol("unwritable-accepted", "export to an unwritable path reported success");
}
static const char* FN[] = {"H", "g", "A", "lb", "ub", "lbA", "ubA", "R"};
static void qp(Rng& r) {
  GenOpt o; o.nmax = 7; o.mmax = 8; Prob cur; int t = r.range(0, 5); o.hk = t == 0 ? HK_IDENT : t == 1 ? HK_ZERO : t == 2 ? HK_SEMI : -1; if (t == 1 || t == 2) o.pInf = 0; genFeasible(r, cur, o); int n = cur.n, m = cur.m; HessianType ht = cur.ht; bool uniq = t != 1 && t != 2; Kind kd = m == 0 && r.chance(0.6) ? KB : (r.chance(0.4) ? KQ : KS); int preset = r.range(0, 2); if (!uniq && preset == 2) preset = 0; Solver F(kd, n, m, ht), V(kd, n, m, ht); F.b->setOptions(presetOptions(preset)); V.b->setOptions(presetOptions(preset)); tag(kindName(kd));
  bool live = false; vec Hs, As; std::vector<vec*> keepv; int steps = r.range(2, R().thorough ? 14 : 8); uint64_t h = mix(probSig(cur), (uint64_t)preset * 8 + kd); long changes = 0; char key[96];
  for (int st = 0; st < steps; ++st) {
    bool doInit = !live || r.chance(0.1), mats = !doInit && kd == KS && r.chance(0.45), broken = r.chance(0.35);
    Prob before = cur; if (doInit || mats) { Prob f; GenOpt q = o; q.nmin = q.nmax = n; q.mmin = q.mmax = m; if (ht == HST_IDENTITY) q.hk = HK_IDENT; if (st) { genFeasible(r, f, q); if (f.ht == HST_IDENTITY && ht != HST_IDENTITY) f.ht = HST_UNKNOWN; cur = f; if (ht == HST_IDENTITY || ht == HST_ZERO) cur.ht = ht; } } else nextVectors(r, cur, o);
    if (r.chance(0.15) && uniq) cur.drop(1 << r.range(0, 3)); h = mix(h, probSig(cur) + (uint64_t)broken); vec U; bool rf = doInit && uniq && cur.Hp() && r.chance(0.25) && chol(cur, U); Set S; writeSet(S, cur, doInit || mats, rf ? &U : 0, st);
    int which = -1, how = 0; if (broken) { do which = r.range(0, 7); while (!S.f[which]); how = r.range(0, BRK + (S.req[which] ? 0 : -1)); if (how == BRK) { wipe(S.f[which]); S.f[which] = 0; add("broken:omitted"); } else breakFile(r, S.f[which], how); }
    int_t n1 = 2000, n2 = 2000; double c1 = 1e6, c2 = 1e6; returnValue rF, rV;
    snprintf(key, sizeof key, "%s-%s", doInit ? "init" : mats ? "hotM" : "hot", kindName(kd));
    bool wasLive = live; if (doInit && wasLive) { F.b->reset(); V.b->reset(); F.b->setHessianType(ht); V.b->setHessianType(ht); if (r.chance(0.5)) {} }
    rF = doInit ? initF(F, S, n1, r.chance(0.2) ? &c1 : 0) : mats ? hotMF(F, S, n1, r.chance(0.2) ? &c1 : 0) : hotF(F, S, n1, r.chance(0.2) ? &c1 : 0); add("file_calls");
    if (broken) { add("broken_calls"); char k2[96]; snprintf(k2, sizeof k2, "broken-%s-%s-%s", doInit ? "init" : mats ? "hotM" : "hot", FN[which], how == BRK ? "omitted" : brkName(how)); if (rF == SUCCESSFUL_RETURN) viol(k2, "success although file %s is %s", FN[which], how == BRK ? "omitted" : brkName(how));
      if (doInit) { live = false; if (F.b->isInitialised() == BT_TRUE || F.b->isSolved() == BT_TRUE) viol("broken-init-state", "object claims to be initialised after an initialisation from broken files (ret %d)", (int)rF); if (getenv("VF_NORESET")) F.b->reset(); if (rF == SUCCESSFUL_RETURN) { F.b->reset(); F.b->setHessianType(ht); } }
      else if (F.b->isSolved() != BT_TRUE) viol("broken-hot-state", "object is no longer solved after a hotstart with broken files (ret %d)", (int)rF);
      if (rF == SUCCESSFUL_RETURN) { wipeSet(S); break; } wipeSet(S); if (!doInit) cur = before; // the reference never sees the broken call
      continue; }
    if (doInit || mats) { Hs = cur.H; As = cur.A; keepv.push_back(new vec(Hs)); const double* Hp = cur.Hp() ? &(*keepv.back())[0] : 0; const double* Ap = 0; if (m) { keepv.push_back(new vec(As)); Ap = &(*keepv.back())[0]; } rV = doInit ? V.init(Hp, &cur.g[0], Ap, cur.lbp(), cur.ubp(), cur.lbAp(), cur.ubAp(), n2, 0, 0, 0, 0, 0, rf ? &U[0] : 0) : V.s->hotstart(Hp, &cur.g[0], Ap, cur.lbp(), cur.ubp(), cur.lbAp(), cur.ubAp(), n2); } else rV = V.hot(cur, n2);
    (void)c2; changes += n1; if (rf) add("factor_files"); wipeSet(S); add("compared"); if (F.b->isInitialised() != V.b->isInitialised() || F.b->isInfeasible() != V.b->isInfeasible() || F.b->isUnbounded() != V.b->isUnbounded() || F.b->getStatus() != V.b->getStatus() || rF != rV || n1 != n2) { viol("differs", "%s: files give ret %d nWSR %d status %d, arrays ret %d nWSR %d status %d", key, (int)rF, (int)n1, (int)F.b->getStatus(), (int)rV, (int)n2, (int)V.b->getStatus()); break; }
    vec x, y, a, b; F.sol(x, y); V.sol(a, b); bool same = true; for (int i = 0; i < n; ++i) same = same && bits(x[i]) == bits(a[i]); for (int i = 0; i < n + m; ++i) same = same && bits(y[i]) == bits(b[i]); if (!same || bits(F.b->getObjVal()) != bits(V.b->getObjVal())) { viol("differs-solution", "%s: solutions from files and arrays differ by %.3e", key, maxDiff(&x[0], &a[0], n)); break; }
    if (rF == SUCCESSFUL_RETURN) { live = true; add(uniq ? "solved" : "solved_degenerate"); checkKkt("files", cur, F, 1e-6, key); if (kd != KB && r.chance(0.4)) exports(r, F, cur, F.b->usingRegularisation() == BT_TRUE || !uniq); } else { add(uniq ? "unsolved" : "unsolved_degenerate"); break; }
  }
  if (changes) sig(h); sample("qp kind=%s preset=%d n=%d m=%d steps=%d", kindName(kd), preset, n, m, steps); for (size_t i = 0; i < keepv.size(); ++i) delete keepv[i]; // (shallow references end with the objects, which only release their own memory)
}
static void run(long idx, Rng& r) { snprintf(dir, sizeof dir, "%s/p16.%d", getenv("VF_TMP") ? getenv("VF_TMP") : "/tmp", (int)getpid()); mkdir(dir, 0755); if (idx % 4 == 0) utils(r); else qp(r); rmdir(dir); }
int main(int c, char** v) { return runMain(c, v, run); }
