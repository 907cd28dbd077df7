// Printing and messages never influence results; codes, texts and simple status are well-formed.
#include "common.hpp"
#include <list>
#include <string>
#include <sys/stat.h>
using namespace vf;
// everything the library prints goes to this memory stream
struct Sink { FILE* f; char* buf; size_t len; Sink() : f(0), buf(0), len(0) { f = open_memstream(&buf, &len); } ~Sink() { fclose(f); free(buf); }
  std::string take() { fflush(f); std::string s(buf, len); rewind(f); fflush(f); return s; } };
static long stdoutSize() { fflush(stdout); fflush(stderr); struct stat st; return fstat(1, &st) == 0 ? (long)st.st_size : -1; }
static bool printable(const std::string& s) { for (size_t i = 0; i < s.size(); ++i) { unsigned char c = (unsigned char)s[i]; if (!(c == '\n' || c == '\t' || (c >= 32 && c < 127))) return false; } return true; }
static int lastCode() { static int n = -1; if (n < 0) { n = 0; while (strcmp(MessageHandling::getErrorCodeMessage((returnValue)(n + 1)), "Unknown error code")) ++n; } return n; }

static void messages(Rng& r) {
  tag("messages"); Sink s; FILE* old = stdFile; MessageHandling* mh = getGlobalMessageHandler(); bool useGlobal = r.chance(0.5); MessageHandling* own = 0;
  if (useGlobal) mh->setOutputFile(s.f); else { own = new MessageHandling(VS_VISIBLE, VS_VISIBLE, VS_VISIBLE); mh->setOutputFile(s.f); }
  MessageHandling* h = own ? own : mh; int N = lastCode(); uint64_t hs = 7; bool mid = false;
  for (int k = 0; k < 60; ++k) {
    int code = r.chance(0.9) ? r.range(1, N) : (r.chance(0.5) ? 0 : r.range(-2, N + 3)); int kind = r.range(0, 2); VisibilityStatus gv[3]; for (int q = 0; q < 3; ++q) gv[q] = r.chance(0.75) ? VS_VISIBLE : VS_HIDDEN; VisibilityStatus lv = r.chance(0.8) ? VS_VISIBLE : VS_HIDDEN;
    h->setErrorVisibilityStatus(gv[0]); h->setWarningVisibilityStatus(gv[1]); h->setInfoVisibilityStatus(gv[2]); if (h->getErrorVisibilityStatus() != gv[0] || h->getWarningVisibilityStatus() != gv[1] || h->getInfoVisibilityStatus() != gv[2]) viol("msg-visibility", "setters do not take effect");
    int ec = r.chance(0.5) ? 0 : r.range(-1, 60); h->setErrorCount(ec); if (h->getErrorCount() != ec) viol("msg-errorcount", "set %d got %d", ec, (int)h->getErrorCount());
    int tl = r.chance(0.4) ? -1 : (r.chance(0.5) ? r.range(0, 20) : (r.chance(0.7) ? r.range(90, 200) : r.range(200, 5000))); std::string txt; for (int q = 0; q < tl; ++q) txt += r.chance(0.1) ? '%' : (r.chance(0.1) ? 'n' : (char)('a' + r.range(0, 25)));
    const char* t = tl < 0 ? 0 : txt.c_str(); returnValue rv; s.take();
    if (r.chance(0.1) && useGlobal) { t = 0; tl = -1; lv = VS_VISIBLE; rv = kind == 0 ? THROWERROR((returnValue)code) : (kind == 1 ? THROWWARNING((returnValue)code) : THROWINFO((returnValue)code)); }
    else rv = kind == 0 ? h->throwError((returnValue)code, t, "f", "file.cpp", 12, lv) : (kind == 1 ? h->throwWarning((returnValue)code, t, "f", "file.cpp", 12, lv) : h->throwInfo((returnValue)code, t, "f", "file.cpp", 12, lv));
    std::string o = s.take(); add("messages"); hs = mix(hs, (uint64_t)code * 64 + kind); bool bad = kind < 2 ? code <= 0 : code < 0, known = code >= 0 && code <= N;
    if (bad) { returnValue w = kind == 0 ? RET_ERROR_UNDEFINED : (kind == 1 ? RET_WARNING_UNDEFINED : RET_INFO_UNDEFINED); if (rv != w && kind == 0) viol("msg-undefined", "kind %d code %d returned %d", kind, code, (int)rv); }
    else if (rv != code) viol("msg-return", "kind %d code %d returned %d", kind, code, (int)rv);
    if (!printable(o)) viol("msg-bytes", "unprintable bytes for code %d", code);
    if (!o.empty() && o[o.size() - 1] != '\n') viol("msg-newline", "code %d, text length %d: output of %d bytes does not end in a newline", code, tl, (int)o.size());
    if (o.size() > 700) viol("msg-bound", "code %d: %d bytes printed", code, (int)o.size());
    if (!bad && known) {
      static std::vector<int> vis; if ((int)vis.size() <= N) vis.assign(N + 1, -1);
      bool may = gv[kind] == VS_VISIBLE && lv == VS_VISIBLE;
      if (!may) { if (!o.empty()) viol("msg-hidden", "hidden message of code %d printed %d bytes", code, (int)o.size()); else add("hidden_silent"); continue; }
      if (vis[code] == -1) vis[code] = o.empty() ? 0 : 1; else if (vis[code] != (o.empty() ? 0 : 1)) viol("msg-sometimes", "code %d kind %d: %d bytes printed, differently from before", code, kind, (int)o.size());
      if (o.empty()) { add("codes_never_printed"); continue; }
      add("messages_printed"); const char* pre[3] = {"ERROR:  ", "WARNING:  ", "INFO:  "}; std::string want; if (ec < 0) want += "\n"; if (ec > 0) { int ws = std::min(40, 2 * (ec - 1)); want += std::string((size_t)ws, ' ') + "->"; } want += pre[kind]; want += MessageHandling::getErrorCodeMessage((returnValue)code);
      if (o.compare(0, want.size(), want)) viol("msg-text", "code %d kind %d errorCount %d: got '%.80s' want '%.80s'", code, kind, ec, o.c_str(), want.c_str());
      if (tl > 0) { std::string w2 = " " + txt.substr(0, (size_t)std::min(tl, 40)); if (o.find(w2) == std::string::npos) viol("msg-addtext", "code %d: additional text of length %d missing", code, tl); }
      int ac = (int)h->getErrorCount(), wc = kind == 0 ? std::max(ec, 0) + 1 : 0; if (ac != wc) viol("msg-count-after", "error count %d after kind %d, want %d", ac, kind, wc);
    }
  }
  // texts, list of all messages
  for (int c = 0; c <= N; ++c) { const char* t = MessageHandling::getErrorCodeMessage((returnValue)c); if (t == 0 || (strlen(t) < 3 && c != RET_STEPSIZE && c != RET_STEPSIZE_NONPOSITIVE) || strlen(t) > 200) viol("msg-table", "code %d has no proper text", c); for (int d = 0; t && d < c && r.chance(0.02); ++d) (void)d; }
  if (N < 140) viol("msg-table-size", "texts end at code %d", N);
  for (int q = 0; q < 5; ++q) { int c = r.range(N + 1, 250); if (strcmp(MessageHandling::getErrorCodeMessage((returnValue)c), "Unknown error code")) viol("msg-unknown", "code %d has a text", c); }
  s.take(); mh->listAllMessages(); { std::string o = s.take(); int lines = 0; size_t p = 0; while ((p = o.find('\n', p)) != std::string::npos) { ++lines; ++p; } if (lines != N + 1) viol("msg-list", "listAllMessages printed %d lines for %d codes", lines, N + 1);
    int c = r.range(0, N); char w[260]; snprintf(w, sizeof w, " %d - %s \n", c, MessageHandling::getErrorCodeMessage((returnValue)c)); if (o.find(w) == std::string::npos) viol("msg-list-entry", "code %d is not listed with its text", c); }
  // copies of a handler are independent
  { MessageHandling a(s.f, VS_HIDDEN, VS_VISIBLE, VS_HIDDEN); MessageHandling b(a); MessageHandling c; c = a; if (b.getErrorVisibilityStatus() != VS_HIDDEN || c.getWarningVisibilityStatus() != VS_VISIBLE || b.getOutputFile() != s.f || c.getInfoVisibilityStatus() != VS_HIDDEN) viol("msg-copy", "copied handler differs"); if (r.chance(0.5)) { a.setOutputFile(stdFile); b.setOutputFile(stdFile); c.setOutputFile(stdFile); } else { a.reset(); b.reset(); c.reset(); if (a.getErrorVisibilityStatus() != VS_VISIBLE || a.getInfoVisibilityStatus() != VS_HIDDEN || a.getErrorCount() != 0) viol("msg-reset", "reset handler"); } }
  { FILE* tf = tmpfile(); MessageHandling* a = new MessageHandling(tf, VS_VISIBLE, VS_VISIBLE, VS_VISIBLE); MessageHandling* b = new MessageHandling(*a); bool as = r.chance(0.5); if (as) { delete b; b = new MessageHandling(); *b = *a; } if (r.chance(0.5)) { delete b; b = 0; } delete a; delete b; add("handler_copies_destroyed"); }
  // no output file at all
  mh->setOutputFile(0); mh->setErrorVisibilityStatus(VS_VISIBLE); for (int k = 0; k < 3; ++k) { if (THROWERROR((returnValue)r.range(1, N)) <= 0) viol("msg-nofile", "return value"); if (myPrintf("text") == SUCCESSFUL_RETURN) viol("msg-nofile-success", "printing without output file reported success"); } add("no_output_file");
  mh->setOutputFile(s.f); mh->reset(); if (mh->getErrorVisibilityStatus() != VS_VISIBLE || mh->getWarningVisibilityStatus() != VS_HIDDEN || mh->getOutputFile() != stdFile) viol("msg-reset-global", "reset"); delete own; stdFile = old; mh->reset(); sig(hs); (void)mid;
}
static void simple(Rng& r) {
  tag("simple"); Sink s; MessageHandling* mh = getGlobalMessageHandler(); mh->reset(); mh->setOutputFile(s.f); int N = lastCode();
  for (int c = 0; c <= N + 2; ++c) { int want = c == SUCCESSFUL_RETURN ? 0 : c == RET_MAX_NWSR_REACHED ? 1 : (c == RET_INIT_FAILED_INFEASIBILITY || c == RET_HOTSTART_STOPPED_INFEASIBILITY) ? -2 : (c == RET_INIT_FAILED_UNBOUNDEDNESS || c == RET_HOTSTART_STOPPED_UNBOUNDEDNESS) ? -3 : -1;
    VisibilityStatus vi = r.chance(0.5) ? VS_VISIBLE : VS_HIDDEN; mh->setInfoVisibilityStatus(vi); s.take(); bool pr = r.chance(0.5); int got = (int)getSimpleStatus((returnValue)c, pr ? BT_TRUE : BT_FALSE); std::string o = s.take(); add("simple_status");
    if (got != want) viol("simple-status", "code %d maps to %d, documented %d", c, got, want); if (mh->getInfoVisibilityStatus() != vi) viol("simple-visibility", "info visibility changed");
    if (!pr && !o.empty()) viol("simple-prints", "%d bytes", (int)o.size()); if (pr) { char w[200]; snprintf(w, sizeof w, "\nINFO:  %s\n", MessageHandling::getErrorCodeMessage((returnValue)((int)RET_SIMPLE_STATUS_P0 - want))); if (o != w) viol("simple-text", "code %d printed '%.60s'", c, o.c_str()); } }
  mh->reset(); sig(r.next());
}
struct Res { returnValue rv; int nw; vec x, y, w; double obj; int st, inf, unb, sol; };
static void look(Solver& s, Res& a) { int n = s.n, m = s.m; a.x.assign(n, 0); a.y.assign(n + m, 0); a.w.assign(n + m, 0); s.b->getPrimalSolution(&a.x[0]); s.b->getDualSolution(&a.y[0]); s.b->getWorkingSet(&a.w[0]); a.obj = s.b->getObjVal(); a.st = s.b->getStatus(); a.inf = s.b->isInfeasible(); a.unb = s.b->isUnbounded(); a.sol = s.b->isSolved(); }
static bool eq(const vec& a, const vec& b) { return a.empty() || !memcmp(&a[0], &b[0], a.size() * sizeof(double)); }
static int occurrences(const std::string& s, const char* w) { int k = 0; size_t p = 0; while ((p = s.find(w, p)) != std::string::npos) { ++k; p += strlen(w); } return k; }
static void chatter(Rng& r, Solver& B, MessageHandling* mh, Sink& s) { // printing calls between the solves
  int k = r.range(0, 3); while (k-- > 0) switch (r.range(0, 8)) { case 0: B.b->printProperties(); add("print_properties"); break; case 1: B.b->printOptions(); add("print_options"); break; case 2: mh->listAllMessages(); break; case 3: mh->setErrorVisibilityStatus(r.chance(0.5) ? VS_VISIBLE : VS_HIDDEN); break; case 4: mh->setWarningVisibilityStatus(r.chance(0.5) ? VS_VISIBLE : VS_HIDDEN); break; case 5: mh->setInfoVisibilityStatus(r.chance(0.5) ? VS_VISIBLE : VS_HIDDEN); break;
    case 6: getSimpleStatus((returnValue)r.range(0, 60), BT_TRUE); break; case 7: mh->setErrorCount(r.range(-1, 30)); break; case 8: { Bounds b; B.b->getBounds(b); b.print(); if (B.q) { Constraints c; B.q->getConstraints(c); c.print(); } vec x(B.n, 0.0); B.b->getPrimalSolution(&x[0]); print(&x[0], B.n, "x"); add("prints"); } break; } }
static const PrintLevel PL[] = {PL_NONE, PL_LOW, PL_MEDIUM, PL_HIGH, PL_TABULAR, PL_DEBUG_ITER};
// The iteration table as an event log: numbering, index ranges, residuals of every iterate (level debug), and conservation: the
// changes replayed from the working set before the call must lead to the working set after it.
static bool table(const std::string& out, PrintLevel lv, int n, int m, const vec& w0, bool replay, const vec& w1, const Res& b, bool exact, bool singular, const char* ctx) {
  bool dbg = lv == PL_DEBUG_ITER, simple = m < 0; if (simple) m = 0; int wid = dbg ? 5 : 7, nid = simple ? 2 : 4; size_t pos = 0; int rows = 0, last = -1; bool star = false, lastStar = false; vec w(w0); size_t cols = dbg ? (simple ? 5 : 8) : 2, nres = simple ? 5 : 7;
  while (pos < out.size()) { size_t e = out.find('\n', pos); if (e == std::string::npos) e = out.size(); std::string l = out.substr(pos, e - pos); pos = e + 1;
    if (l.size() < (size_t)(6 + nid * wid + 9) || !isdigit((unsigned char)l[4]) || (l[5] != ' ' && l[5] != '*')) continue; int it = atoi(l.substr(0, 5).c_str()); lastStar = star; star = l[5] == '*'; int id[4] = {-1, -1, -1, -1}; bool bad = false;
    for (int k = 0; k < nid; ++k) { std::string f = l.substr(6 + k * wid, wid - 1); id[k] = -1; if (f.find_first_not_of(" ef") != std::string::npos) id[k] = atoi(f.c_str()); if (id[k] >= (k < 2 ? n : m)) bad = true; }
    double v[8]; const char* t = l.c_str() + 6 + nid * wid; size_t k = 0; for (; k < cols; ++k) { char* z; v[k] = strtod(t, &z); if (z == t) break; t = z; }
    if (bad || k != cols || *t) { viol("table-row", "row '%s' %s", l.c_str(), ctx); return false; }
    if (it != (rows ? last + (star != lastStar || star ? (it == last ? 0 : 1) : 1) : 0) && !(simple && it == last)) { viol("table-numbering", "row %d follows row %d %s", it, last, ctx); return false; }
    last = it; ++rows; add("table_rows"); if (!(v[0] >= -1e-12) || !(v[1] >= -1e-12 && v[1] <= 1 + 1e-12)) { viol("table-steplength", "homotopy length %g, step %g %s", v[0], v[1], ctx); return false; }
    if (dbg) { double worst = 0; for (size_t q = 2; q < nres; ++q) worst = std::max(worst, v[q]); for (size_t q = 2; q < nres; ++q) if (!(v[q] >= 0)) worst = 9; smax(exact ? (singular ? "table_residual_singular" : "table_residual") : "table_residual_loose", worst); if (exact && !(worst <= (singular ? 5 : 1e-5))) { viol("table-residual", "%s %s", l.c_str(), ctx); return false; } }
    if (replay) for (int side = 0; side < 2; ++side) { int a = id[2 * side], d = id[2 * side + 1], off = side * n; if ((a >= 0 && w[off + a] < -5) || (d >= 0 && w[off + d] < -5)) { if (a >= 0 && w[off + a] > -5) w[off + a] = 1; if (d >= 0 && w[off + d] > -5) w[off + d] = 0; continue; } if (a >= 0 && a == d) { if (w[off + a] == 0) { viol("table-flip", "%s %d flips but was not active %s", side ? "constraint" : "bound", a, ctx); return false; } add("table_flips"); continue; }
      if (d >= 0) { if (w[off + d] == 0) { viol("table-removal", "%s %d is removed but was not active (row %d) %s", side ? "constraint" : "bound", d, it, ctx); return false; } w[off + d] = 0; add("table_changes"); } if (a >= 0) { if (w[off + a] != 0) { viol("table-addition", "%s %d is added but was active (row %d) %s", side ? "constraint" : "bound", a, it, ctx); return false; } w[off + a] = 1; add("table_changes"); } } }
  if (b.rv == SUCCESSFUL_RETURN && rows && last != b.nw) { viol("table-count", "last row %d, nWSR %d %s", last, b.nw, ctx); return false; }
  if (replay && rows && (b.rv == SUCCESSFUL_RETURN || b.rv == RET_MAX_NWSR_REACHED)) { for (int i = 0; i < n + m; ++i) if (w[i] > -5 && (w[i] != 0) != (w1[i] != 0)) { viol("table-replay", "changes of the table lead to %s %d %sactive, but it is not so (%d rows) %s", i < n ? "bound" : "constraint", i < n ? i : i - n, w[i] != 0 ? "" : "in", rows, ctx); return false; } add("tables_replayed"); }
  if (rows) add("tables_checked"); return true;
}
static void twins(long idx, Rng& r) {
  tag("twins"); GenOpt o; o.nmax = 6; o.mmax = 7; int cls = (int)(idx % 6); Prob* p; std::list<Prob> keep; keep.push_back(Prob()); p = &keep.back(); if (cls == 1) { o.nmax = 14; o.mmax = 14; } if (cls == 2) { o.dupRows = true; o.pWeak = 0.3; o.integer = true; } if (cls == 3) o.hk = HK_SEMI; if (cls == 4) o.hk = HK_ZERO; if (cls == 5) o.mmax = 0;
  genFeasible(r, *p, o); int n = p->n, m = p->m; Kind kd = m == 0 && r.chance(0.6) ? KB : (r.chance(0.6) ? KQ : KS); if (kd == KB && m) kd = KQ; HessianType ht = p->ht;
  Sink sa, sb; FILE* old = stdFile; stdFile = sa.f; long so = stdoutSize(); MessageHandling* mh = getGlobalMessageHandler();
  Solver* A = new Solver(kd, n, m, ht); Solver* B = new Solver(kd, n, m, ht); Options op = presetOptions(r.range(0, 6)); op.printLevel = PL_NONE; A->b->setOptions(op); sa.take(); PrintLevel lv = PL[r.range(0, 5)]; op.printLevel = lv; B->b->setOptions(op); int steps = r.range(2, R().thorough ? 20 : 8), ch = 0; bool ok = true;
  for (int k = 0; k < steps && ok; ++k) {
    int type = k == 0 ? 0 : (r.chance(0.15) ? 0 : (kd == KS && r.chance(0.3) ? 2 : 1)); if (k) { keep.push_back(*p); p = &keep.back(); p->omit = 0; if (type == 2 || type == 0) { Prob f = *p; if (p->ht == HST_UNKNOWN) { genH(r, f, o); p->H = f.H; p->ht = f.ht == HST_ZERO || f.ht == HST_IDENTITY ? HST_UNKNOWN : f.ht; p->ht = HST_UNKNOWN; } genVectors(r, *p, o); } else nextVectors(r, *p, o); }
    bool infeas = r.chance(0.08); if (infeas) { p->omit = 0; p->lb[0] = 2; p->ub[0] = -2; } int lim = r.chance(0.25) ? r.range(0, 4) : 3000; int twist = r.range(0, 19); int_t wa = lim, wb = lim; Res a, b;
    if (type == 0 && k) { A->b->reset(); A->b->setHessianType(ht); B->b->reset(); B->b->setHessianType(ht); }
    A->b->setPrintLevel(PL_NONE); mh->setOutputFile(sa.f); sa.take();
    const double* gp = twist == 0 ? 0 : &p->g[0]; // a rejected call now and then
    if (type == 0) a.rv = A->init(p->Hp(), gp, p->Ap(), p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), wa); else if (type == 1) a.rv = A->hot(gp, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), wa); else a.rv = A->s->hotstart(p->Hp(), gp, p->Ap(), p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), wa); a.nw = (int)wa; look(*A, a);
    std::string oa = sa.take(); if (!oa.empty()) { viol("none-prints", "level none: %d bytes printed: '%.100s'", (int)oa.size(), oa.c_str()); ok = false; } else add("silent_calls");
    if (r.chance(0.4)) { lv = PL[r.range(0, 5)]; mh->setOutputFile(sb.f); B->b->setPrintLevel(lv); } else B->b->setPrintLevel(lv); mh->setOutputFile(r.chance(0.9) ? sb.f : sa.f); bool quietB = mh->getOutputFile() == sa.f; chatter(r, *B, mh, sb); sb.take(); mh->setErrorCount(0); if (B->b->getPrintLevel() != lv) viol("level-get", "print level %d, set %d", (int)B->b->getPrintLevel(), (int)lv);
    vec w0((size_t)n + m + 1, 0.0), w1(w0); bool haveW = type == 1 && (kd == KB ? B->b->getWorkingSet(&w0[0]) : B->q->getWorkingSet(&w0[0])) == SUCCESSFUL_RETURN; mh->setErrorCount(0); // an active limit that becomes infinite is removed before the first row
    for (int i = 0; i < n + m; ++i) { const double *l = i < n ? p->lbp() : p->lbAp(), *u = i < n ? p->ubp() : p->ubAp(); int q = i < n ? i : i - n; if (!l || !u || l[q] <= -1e12 || u[q] >= 1e12) { if (w0[i] != 0) haveW = false; w0[i] = -9; } }
    if (type == 0) b.rv = B->init(p->Hp(), gp, p->Ap(), p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), wb); else if (type == 1) b.rv = B->hot(gp, p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), wb); else b.rv = B->s->hotstart(p->Hp(), gp, p->Ap(), p->lbp(), p->ubp(), p->lbAp(), p->ubAp(), wb); b.nw = (int)wb; look(*B, b);
    std::string ob = sb.take(); ch += a.nw; add("twin_calls"); if (!ob.empty()) add("printing_calls"); char lvl[32]; snprintf(lvl, sizeof lvl, "calls_at_level_%d", (int)lv); add(lvl);
    const char* d = a.rv != b.rv ? "return value" : a.nw != b.nw ? "nWSR" : !eq(a.x, b.x) ? "x" : !eq(a.y, b.y) ? "y" : !eq(a.w, b.w) ? "working set" : memcmp(&a.obj, &b.obj, 8) ? "objective" : a.st != b.st ? "status" : (a.inf != b.inf || a.unb != b.unb || a.sol != b.sol) ? "queries" : 0;
    if (d) { viol("level-changes-result", "%s differs at level %d from level none (step %d, %s, rv %d/%d)", d, (int)lv, k, kindName(kd), (int)a.rv, (int)b.rv); ok = false; }
    if (!printable(ob)) { viol("level-bytes", "unprintable output at level %d", (int)lv); ok = false; } if (!ob.empty() && ob[ob.size() - 1] != '\n') { viol("level-newline", "output at level %d ends without newline: '%.60s'", (int)lv, ob.c_str() + (ob.size() > 60 ? ob.size() - 60 : 0)); ok = false; }
    if ((lv == PL_TABULAR || lv == PL_DEBUG_ITER) && !quietB && twist && ok) { if (kd == KB) B->b->getWorkingSet(&w1[0]); else B->q->getWorkingSet(&w1[0]); char ctx[100]; if (R().verbose) { fprintf(stderr, "step %d type %d w0:", k, type); for (int i = 0; i < n + m; ++i) fprintf(stderr, " %g", w0[i]); fprintf(stderr, "\n%sw1:", ob.c_str()); for (int i = 0; i < n + m; ++i) fprintf(stderr, " %g", w1[i]); fprintf(stderr, "\n"); } snprintf(ctx, sizeof ctx, "(%s class %d step %d type %d n=%d m=%d rv=%d)", kindName(kd), cls, k, type, n, m, (int)b.rv); if (R().verbose) { dumpProb(*p); fprintf(stderr, "x0 %g y0 %g\n", b.x[0], b.y[0]); } if (!table(ob, lv, n, kd == KB ? -1 : m, w0, haveW, w1, b, b.rv == SUCCESSFUL_RETURN, cls == 3 || cls == 4, ctx)) ok = false; }
    if (lv == PL_MEDIUM && !quietB && b.rv == SUCCESSFUL_RETURN && twist) { int c = occurrences(ob, "SOLVED"); if (c >= 1) { // the summary line states the counts of the final working set
        size_t q = ob.rfind("SOLVED"); int fx = -1, ac = -1; const char* t = strchr(ob.c_str() + q, '|'); if (t) { fx = atoi(t + 1); t = strchr(t + 1, '|'); if (t) ac = atoi(t + 1); } if (fx != (int)B->b->getNFX() || (kd != KB && m && ac != (int)B->q->getNAC())) { viol("medium-counts", "summary prints nFX=%d nAC=%d, object has %d %d", fx, ac, (int)B->b->getNFX(), kd != KB ? (int)B->q->getNAC() : 0); ok = false; } add("summaries_checked"); } }
  }
  delete B; delete A; stdFile = old; mh->reset(); long s1 = stdoutSize(); if (s1 != so) viol("stdout", "%ld bytes went to the process's standard output past the redirection", s1 - so); if (ch) sig(probSig(keep.front()));
  sample("twins: class %d %s n=%d m=%d steps=%d iterations=%d", cls, kindName(kd), n, m, steps, ch);
}
static void run(long idx, Rng& r) { static bool once = false; if (!once) { once = true; FILE* t = tmpfile(); dup2(fileno(t), 1); } if (idx % 8 == 0) messages(r); else if (idx % 40 == 1) simple(r); else twins(idx / 2, r); }
int main(int c, char** v) { return runMain(c, v, run); }
