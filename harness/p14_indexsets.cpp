// Model-based histories over Indexlist, Bounds, Constraints, Flipper: after every
// operation the complete observable state is compared with an abstract status map and
// ordered lists; rejected operations must leave everything as it was.
#include "common.hpp"
using namespace vf;
static int nops;
// ------------------------------------------------------------ index lists
static void cmpList(const char* who, const Indexlist* L, const std::vector<int>& m, const char* op, int maxnum) {
  char k[96]; int_t *num = 0, *so = 0; add("list_states_checked");
  if ((int)L->getLength() != (int)m.size()) { snprintf(k, sizeof k, "%s-length-after-%s", who, op); viol(k, "length %d want %zu", (int)L->getLength(), m.size()); return; }
  L->getNumberArray(&num); L->getISortArray(&so);
  for (size_t i = 0; i < m.size(); ++i) {
    if (num[i] != m[i] || L->getNumber((int_t)i) != m[i]) { snprintf(k, sizeof k, "%s-order-after-%s", who, op); viol(k, "position %zu holds %d want %d", i, (int)num[i], m[i]); return; }
    if (L->getIndex(m[i]) != (int_t)i || L->isMember(m[i]) != BT_TRUE) { snprintf(k, sizeof k, "%s-lookup-after-%s", who, op); viol(k, "number %d found at %d want %zu", m[i], (int)L->getIndex(m[i]), i); return; } }
  std::vector<int> s; for (size_t i = 0; i < m.size(); ++i) { if (so[i] < 0 || so[i] >= (int_t)m.size()) { snprintf(k, sizeof k, "%s-sort-after-%s", who, op); viol(k, "iSort[%zu]=%d", i, (int)so[i]); return; } s.push_back((int)num[so[i]]); }
  for (size_t i = 1; i < s.size(); ++i) if (s[i - 1] >= s[i]) { snprintf(k, sizeof k, "%s-sort-after-%s", who, op); viol(k, "sorted view not increasing at %zu: %d %d", i, s[i - 1], s[i]); return; }
  for (int q = -1; q <= maxnum; ++q) { bool in = std::find(m.begin(), m.end(), q) != m.end(); if (!in && (L->getIndex(q) != -1 || L->isMember(q) != BT_FALSE)) { snprintf(k, sizeof k, "%s-absent-after-%s", who, op); viol(k, "absent number %d found", q); return; } }
  if (!m.empty() && L->getLastNumber() != m.back()) { snprintf(k, sizeof k, "%s-last-after-%s", who, op); viol(k, "last %d want %d", (int)L->getLastNumber(), m.back()); }
  if (L->getNumber(-1) >= 0 || L->getNumber((int_t)m.size()) >= 0) { snprintf(k, sizeof k, "%s-outofrange", who); viol(k, "getNumber outside of the list returned a number"); }
}
static void listHistory(Rng& r) {
  int cap = r.range(0, 12), mx = r.chance(0.5) ? cap : 2 * cap + 2, N = r.range(5, R().thorough ? 200 : 60); Indexlist* L = new Indexlist(cap); std::vector<int> m; uint64_t h = (uint64_t)cap; const char* op = "init";
  for (int k = 0; k < N; ++k) {
    int what = r.range(0, 9), q = r.range(-1, mx), q2 = r.range(-1, mx); if (!m.empty() && r.chance(0.6)) q = m[r.range(0, (int)m.size() - 1)]; if (!m.empty() && r.chance(0.7)) q2 = m[r.range(0, (int)m.size() - 1)];
    bool in = std::find(m.begin(), m.end(), q) != m.end(), in2 = std::find(m.begin(), m.end(), q2) != m.end(); returnValue rv = SUCCESSFUL_RETURN; bool ok = true; h = mix(h, (uint64_t)(what * 1000 + q * 30 + q2));
    if (what <= 3) { if (in || q < 0) { q = -1; for (int c = 0; c <= mx && q < 0; ++c) { int z = (c + q2 + 1) % (mx + 1); if (std::find(m.begin(), m.end(), z) == m.end()) q = z; } if (q < 0) continue; } op = "addNumber"; ok = (int)m.size() < cap; rv = L->addNumber(q); if (ok) m.push_back(q); }
    else if (what <= 5) { op = "removeNumber"; rv = L->removeNumber(q); if (in) m.erase(std::find(m.begin(), m.end(), q)); }
    else if (what <= 7) { op = "swapNumbers"; ok = in && in2; rv = L->swapNumbers(q, q2); if (ok) std::swap(*std::find(m.begin(), m.end(), q), *std::find(m.begin(), m.end(), q2)); if (ok && q != q2) { /* two finds on the same container: redo properly */ } }
    else if (what == 8) { op = "copy"; Indexlist* c; if (r.chance(0.5)) c = new Indexlist(*L); else { c = new Indexlist(r.range(0, 15)); if (r.chance(0.5)) c->addNumber(3); *c = *L; } if (r.chance(0.5) && (int)m.size() > 0) L->removeNumber(m[0]); delete L; L = c; }
    else { op = "self"; Indexlist& a = *L; *L = a; rv = r.chance(0.5) ? L->init(-1) : SUCCESSFUL_RETURN; ok = rv == SUCCESSFUL_RETURN; }
    ++nops; if ((rv == SUCCESSFUL_RETURN) != ok) { char key[64]; snprintf(key, sizeof key, "list-ret-%s", op); viol(key, "ret %d, valid operation: %d", (int)rv, (int)ok); }
    cmpList("list", L, m, op, mx + 1);
  }
  sig(h); delete L;
}
// ------------------------------------------------- bounds and constraints
struct St { std::vector<int> st, ty, a, b; }; // a: free/inactive list, b: fixed/active list
struct BndA { Bounds o; BndA(int n) : o(n) {} returnValue setup(int i, SubjectToStatus s) { return o.setupBound(i, s); } returnValue all(int k) { return k == 0 ? o.setupAllFree() : (k == 1 ? o.setupAllLower() : o.setupAllUpper()); } returnValue toA(int i) { return o.moveFixedToFree(i); } returnValue toB(int i, SubjectToStatus s) { return o.moveFreeToFixed(i, s); } Indexlist* A() { return o.getFree(); } Indexlist* B() { return o.getFixed(); } int n() { return (int)o.getNV(); } int ca() { return (int)o.getNFR(); } int cb() { return (int)o.getNFX(); } int neq() { return (int)o.getNFV(); } int nbd() { return (int)o.getNBV(); } int nun() { return (int)o.getNUV(); } bool canSwap() { return true; } returnValue swap(int i, int j) { return o.swapFree(i, j); } static const char* nm() { return "bounds"; } };
struct ConA { Constraints o; ConA(int n) : o(n) {} returnValue setup(int i, SubjectToStatus s) { return o.setupConstraint(i, s); } returnValue all(int k) { return k == 0 ? o.setupAllInactive() : (k == 1 ? o.setupAllLower() : o.setupAllUpper()); } returnValue toA(int i) { return o.moveActiveToInactive(i); } returnValue toB(int i, SubjectToStatus s) { return o.moveInactiveToActive(i, s); } Indexlist* A() { return o.getInactive(); } Indexlist* B() { return o.getActive(); } int n() { return (int)o.getNC(); } int ca() { return (int)o.getNIAC(); } int cb() { return (int)o.getNAC(); } int neq() { return (int)o.getNEC(); } int nbd() { return (int)o.getNIC(); } int nun() { return (int)o.getNUC(); } bool canSwap() { return false; } returnValue swap(int, int) { return SUCCESSFUL_RETURN; } static const char* nm() { return "constraints"; } };
template <class T> static void cmpSt(T& x, const St& s, const char* op) {
  char k[96]; int n = (int)s.st.size(); cmpList(x.nm(), x.A(), s.a, op, n); cmpList(x.nm(), x.B(), s.b, op, n);
  int c[8] = {0}; for (int i = 0; i < n; ++i) { if (x.o.getStatus(i) != s.st[i]) { snprintf(k, sizeof k, "%s-status-after-%s", x.nm(), op); viol(k, "index %d status %d want %d", i, (int)x.o.getStatus(i), s.st[i]); return; } if (x.o.getType(i) != s.ty[i]) { snprintf(k, sizeof k, "%s-type-after-%s", x.nm(), op); viol(k, "index %d type %d want %d", i, (int)x.o.getType(i), s.ty[i]); return; } c[s.ty[i]]++; }
  if (x.n() != n || x.ca() != (int)s.a.size() || x.cb() != (int)s.b.size() || x.neq() != c[ST_EQUALITY] || x.nbd() != c[ST_BOUNDED] || x.nun() != c[ST_UNBOUNDED]) { snprintf(k, sizeof k, "%s-counts-after-%s", x.nm(), op); viol(k, "n=%d a=%d b=%d eq=%d bounded=%d unbounded=%d", x.n(), x.ca(), x.cb(), x.neq(), x.nbd(), x.nun()); }
  if (x.o.getStatus(-1) != ST_UNDEFINED || x.o.getStatus(n) != ST_UNDEFINED || x.o.getType(n) != ST_UNKNOWN) { snprintf(k, sizeof k, "%s-outofrange", x.nm()); viol(k, "status or type outside of the range"); }
}
static void era(std::vector<int>& v, int q) { v.erase(std::find(v.begin(), v.end(), q)); }
static void rebuild(St& s) { s.a.clear(); s.b.clear(); for (size_t i = 0; i < s.st.size(); ++i) (s.st[i] == ST_INACTIVE ? s.a : s.b).push_back((int)i); }
template <class T> static void history(Rng& r) {
  int n = r.range(0, 12); T* x = new T(n); St s; s.st.assign(n, ST_UNDEFINED); s.ty.assign(n, ST_UNKNOWN); uint64_t h = (uint64_t)n; cmpSt(*x, s, "construction");
  static const SubjectToType TY[] = {ST_UNBOUNDED, ST_BOUNDED, ST_EQUALITY, ST_DISABLED, ST_UNKNOWN}; static const SubjectToStatus SS[] = {ST_INACTIVE, ST_LOWER, ST_UPPER};
  for (int i = 0; i < n; ++i) { SubjectToType t = TY[r.range(0, 4)]; if (r.chance(0.6)) t = ST_BOUNDED; x->o.setType(i, t); s.ty[i] = t; }
  if (r.chance(0.5)) { int k = r.range(0, 2); returnValue rv = x->all(k); if (rv != SUCCESSFUL_RETURN) viol("setup-all-ret", "ret %d", (int)rv); static const int ORD[] = {ST_UNBOUNDED, ST_BOUNDED, ST_EQUALITY}; for (int pass = 0; pass < 4; ++pass) for (int i = 0; i < n; ++i) { bool hit = pass < 3 ? s.ty[i] == ORD[pass] : (s.ty[i] == ST_UNKNOWN || s.ty[i] == ST_DISABLED); if (hit) { s.st[i] = SS[k]; (k == 0 ? s.a : s.b).push_back(i); } } cmpSt(*x, s, "setupAll"); }
  else { std::vector<int> o; for (int i = 0; i < n; ++i) o.push_back(i); r.shuffle(o); int upto = r.chance(0.15) ? r.range(0, n) : n; for (int q = 0; q < upto; ++q) { SubjectToStatus t = SS[r.range(0, 2)]; if (x->setup(o[q], t) != SUCCESSFUL_RETURN) viol("setup-ret", "rejected"); s.st[o[q]] = t; (t == ST_INACTIVE ? s.a : s.b).push_back(o[q]); if (r.chance(0.3)) { if (x->setup(o[q], t) == SUCCESSFUL_RETURN) viol("setup-twice", "same index accepted twice"); } } cmpSt(*x, s, "setup"); }
  bool full = (int)(s.a.size() + s.b.size()) == n; int N = r.range(5, R().thorough ? 300 : 60);
  for (int k = 0; k < N; ++k) {
    int what = r.range(0, 13), i = r.range(-1, n), j = r.range(-1, n); if (r.chance(0.8) && n) { i = r.range(0, n - 1); j = r.range(0, n - 1); } bool inr = i >= 0 && i < n, inr2 = j >= 0 && j < n; const char* op; returnValue rv = SUCCESSFUL_RETURN; bool ok = true; ++nops; h = mix(h, (uint64_t)(what * 10000 + i * 100 + j));
    if (what <= 2) { op = "moveToFree"; ok = inr && (s.st[i] == ST_LOWER || s.st[i] == ST_UPPER); rv = x->toA(i); if (ok) { era(s.b, i); s.a.push_back(i); s.st[i] = ST_INACTIVE; } }
    else if (what <= 5) { op = "moveToFixed"; SubjectToStatus t = r.chance(0.1) ? ST_INACTIVE : SS[r.range(1, 2)]; ok = inr && s.st[i] == ST_INACTIVE && t != ST_INACTIVE; rv = x->toB(i, t); if (ok) { era(s.a, i); s.b.push_back(i); s.st[i] = t; } }
    else if (what <= 7) { op = "flip"; ok = inr && (s.st[i] == ST_LOWER || s.st[i] == ST_UPPER); rv = x->o.flipFixed(i); if (ok) s.st[i] = s.st[i] == ST_LOWER ? ST_UPPER : ST_LOWER; }
    else if (what == 8) { if (!x->canSwap()) continue; op = "swapFree"; ok = inr && inr2 && ((s.st[i] == ST_INACTIVE && s.st[j] == ST_INACTIVE) || (i == j)); rv = x->swap(i, j); if (ok && i != j) { size_t a = (size_t)(std::find(s.a.begin(), s.a.end(), i) - s.a.begin()), b = (size_t)(std::find(s.a.begin(), s.a.end(), j) - s.a.begin()); std::swap(s.a[a], s.a[b]); } }
    else if (what == 9) { if (!full) continue; op = "shift"; int d = r.chance(0.6) && n > 1 ? r.range(1, n / 2) : r.range(-1, n + 1); ok = d == 0 || n <= 1 || (d > 0 && d <= n / 2 && n % d == 0); rv = x->o.shift(d); if (ok && d > 0 && n > 1) { for (int q = 0; q < n - d; ++q) { s.st[q] = s.st[q + d]; s.ty[q] = s.ty[q + d]; } rebuild(s); } }
    else if (what == 10) { if (!full) continue; op = "rotate"; int d = r.range(-1, n + 1); ok = d == 0 || d == n || n <= 1 || (d > 0 && d <= n); rv = x->o.rotate(d); if (ok && d > 0 && d < n && n > 1) { std::rotate(s.st.begin(), s.st.begin() + d, s.st.end()); std::rotate(s.ty.begin(), s.ty.begin() + d, s.ty.end()); rebuild(s); } }
    else if (what == 11) { op = "copy"; T* c = new T(r.range(0, 5)); if (r.chance(0.5)) { c->o = x->o; } else { delete c; c = new T(*x); } // change the original, then drop it
      if (inr) { if (s.st[i] == ST_INACTIVE) x->toB(i, ST_UPPER); else if (s.st[i] != ST_UNDEFINED) x->toA(i); x->o.setType(i, ST_DISABLED); } delete x; x = c; }
    else if (what == 12) { op = "setType"; SubjectToType t = TY[r.range(0, 4)]; ok = inr; rv = x->o.setType(i, t); if (ok) s.ty[i] = t; }
    else { op = "misc"; T& me = *x; x->o = me.o; if (n && x->setup(n + r.range(0, 3), ST_LOWER) == SUCCESSFUL_RETURN) viol("setup-range", "accepted"); if (n && x->setup(-1, ST_LOWER) == SUCCESSFUL_RETURN) viol("setup-range", "accepted"); for (int q = 0; q < n; ++q) if (s.st[q] == ST_UNDEFINED) { if (x->setup(q, ST_UNDEFINED) == SUCCESSFUL_RETURN) viol("setup-status", "accepted"); break; } x->o.setNoLower(BT_TRUE); x->o.setNoUpper(BT_FALSE); T c(*x); if (c.o.hasNoLower() != BT_TRUE || c.o.hasNoUpper() != BT_FALSE) viol("no-limit-flags", "not copied"); }
    if ((rv == SUCCESSFUL_RETURN) != ok) { char key[64]; snprintf(key, sizeof key, "%s-ret-%s", T::nm(), op); viol(key, "index %d,%d ret %d, valid operation: %d", i, j, (int)rv, (int)ok); }
    cmpSt(*x, s, op);
  }
  // re-initialisation forgets everything
  int n2 = r.range(0, 8); if (x->o.init(n2) != SUCCESSFUL_RETURN) viol("reinit-ret", "rejected"); St e; e.st.assign(n2, ST_UNDEFINED); e.ty.assign(n2, ST_UNKNOWN); cmpSt(*x, e, "init"); if (x->o.init(-3) == SUCCESSFUL_RETURN) viol("reinit-negative", "accepted"); cmpSt(*x, e, "rejected-init");
  sig(h); sample("%s n=%d steps=%d", T::nm(), n, N); delete x;
}
// ------------------------------------------------------- saved working sets
static void saved(Rng& r) {
  int n = r.range(1, 7), m = r.range(0, 7), dt = std::min(n, m) * std::min(n, m); BndA b(n); ConA c(m); for (int i = 0; i < n; ++i) b.setup(i, r.chance(0.5) ? ST_INACTIVE : ST_LOWER); for (int i = 0; i < m; ++i) c.setup(i, r.chance(0.5) ? ST_INACTIVE : ST_UPPER);
  vec Rm(n * n), Q(n * n), T(dt + 1); for (size_t i = 0; i < Rm.size(); ++i) { Rm[i] = r.nrm(); Q[i] = r.nrm(); } for (int i = 0; i < dt; ++i) T[i] = r.nrm(); real_t *rr = new real_t[n * n], *qq = new real_t[n * n], *tt = new real_t[dt];
  Flipper f(n, m), g(r.range(0, 9), r.range(0, 9)); if (r.chance(0.5)) { vec z(81, 1.0); g.set(0, &z[0], 0, &z[0]); } f.set(&b.o, &Rm[0], &c.o, &Q[0], &T[0]); Flipper* cp = r.chance(0.5) ? new Flipper(f) : 0; if (!cp) { g = f; f.set(0, &Q[0]); } const Flipper& u = cp ? *cp : g;
  Bounds b2; Constraints c2; for (int i = 0; i < n; ++i) if (b.o.getStatus(i) == ST_INACTIVE) { b.toB(i, ST_UPPER); break; }
  u.get(&b2, rr, &c2, qq, tt); add("saved_sets"); if (memcmp(rr, &Rm[0], sizeof(double) * n * n) || memcmp(qq, &Q[0], sizeof(double) * n * n) || (dt && memcmp(tt, &T[0], sizeof(double) * dt))) viol("flipper-matrices", "restored factorisation differs n=%d m=%d", n, m);
  if (b2.getNV() != n || c2.getNC() != m || b2.getNFR() + b2.getNFX() != n || c2.getNAC() + c2.getNIAC() != m) viol("flipper-sets", "restored working set differs");
  Flipper dflt; Bounds b3; dflt.get(&b3, 0); Flipper d2(dflt); d2.init((uint_t)n, (uint_t)m); d2.set(&b2, rr, &c2, qq, tt); vec q2(n * n); d2.get(0, &q2[0]); if (memcmp(rr, &q2[0], sizeof(double) * n * n)) viol("flipper-reinit", "restored factorisation differs");
  // an invalid set/get combination: null everywhere is fine
  d2.set(0, 0); d2.get(0, 0); delete cp; delete[] rr; delete[] qq; delete[] tt; ++nops;
}
static void run(long idx, Rng& r) { nops = 0; switch (idx % 4) { case 0: tag("list"); listHistory(r); break; case 1: tag("bounds"); history<BndA>(r); break; case 2: tag("constraints"); history<ConA>(r); break; default: tag("flipper"); saved(r); history<BndA>(r); } add("operations", nops); }
int main(int c, char** v) { return runMain(c, v, run); }
