// qpOASES_options.m and qpOASES_auxInput.m run by Octave itself: one generated script per case, every call's result parsed back and
// compared with the C++ option presets, respectively with what was passed.
#include "common.hpp"
#include <map>
#include <string>
using namespace vf;
static const char* ON[] = {"maxIter", "maxCpuTime", "printLevel", "enableRamping", "enableFarBounds", "enableFlippingBounds", "enableRegularisation", "enableFullLITests", "enableNZCTests", "enableDriftCorrection", "enableCholeskyRefactorisation", "enableEqualities", "terminationTolerance", "boundTolerance", "boundRelaxation", "epsNum", "epsDen", "maxPrimalJump", "maxDualJump", "initialRamping", "finalRamping", "initialFarBounds", "growFarBounds", "initialStatusBounds", "epsFlipping", "numRegularisationSteps", "epsRegularisation", "numRefinementSteps", "epsIterRef", "epsLITests", "epsNZCTests"};
enum { NOPT = 31 };
static const char* AN[] = {"hessianType", "x0", "guessedWorkingSetB", "guessedWorkingSetC", "R"};
static double oget(const Options& o, const char* nm) {
#define X(a) if (!strcmp(nm, #a)) return (double)o.a;
  X(printLevel) X(enableRamping) X(enableFarBounds) X(enableFlippingBounds) X(enableRegularisation) X(enableFullLITests) X(enableNZCTests) X(enableDriftCorrection) X(enableCholeskyRefactorisation) X(enableEqualities) X(terminationTolerance) X(boundTolerance) X(boundRelaxation) X(epsNum) X(epsDen) X(maxPrimalJump) X(maxDualJump) X(initialRamping) X(finalRamping) X(initialFarBounds) X(growFarBounds) X(initialStatusBounds) X(epsFlipping) X(numRegularisationSteps) X(epsRegularisation) X(numRefinementSteps) X(epsIterRef) X(epsLITests) X(epsNZCTests)
#undef X
  return -1; }
// field -> values; "exact" marks what the user set himself
struct Ent { vec v; long r, c; bool exact, skip; Ent() : r(1), c(1), exact(false), skip(false) {} };
typedef std::map<std::string, Ent> St;
struct Ex { bool bad; St st; bool aux; std::string call; };
static std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
static void preset(St& s, int k) { s.clear(); Options o; if (k == 0) o.setToDefault(); else if (k == 1) o.setToReliable(); else o.setToMPC(); for (int i = 0; i < NOPT; ++i) { Ent e; e.v.push_back(i < 2 ? -1.0 : oget(o, ON[i])); e.skip = i == 2; s[ON[i]] = e; } }
static double val(Rng& r) { double u = r.u01(); return u < 0.3 ? r.range(-3, 1000) : u < 0.4 ? 0.0 : u < 0.5 ? (r.chance(0.5) ? INFINITY : -INFINITY) : u < 0.75 ? r.uni(-10, 10) : (r.chance(0.5) ? 1 : -1) * std::pow(10.0, r.uni(-18, 18)); }
static std::string lit(double v) { return v == INFINITY ? "Inf" : v == -INFINITY ? "-Inf" : num(v); }
static const char* BADVAL[] = {"'1'", "'on'", "[1 2]", "[]", "{}", "zeros(0,1)", "ones(2,2)", "'a'"};
static void run(long idx, Rng& r) {
  (void)idx; char base[400]; snprintf(base, sizeof base, "%s/p19o.%d", getenv("VF_TMP") ? getenv("VF_TMP") : "/tmp", (int)getpid()); std::string scr = std::string(base) + ".m", outf = std::string(base) + ".out"; const char* repo = getenv("VF_REPO") ? getenv("VF_REPO") : "/repo"; bool oct = r.chance(0.5); tag("noleak-octave");
  std::string S = "addpath('" + std::string(repo) + (oct ? "/interfaces/octave" : "/interfaces/matlab") + "');\nwarning('off','all');\nf=fopen('" + outf + "','w');\n"; std::vector<Ex> E; int K = r.range(25, 45); std::map<int, int> okO, okA; // earlier results that can be passed on
  for (int k = 0; k < K; ++k) { Ex e; e.bad = false; e.aux = r.chance(0.35); std::string args; std::map<int, int>& ok = e.aux ? okA : okO; bool st = false; int np = r.chance(0.15) ? 0 : r.range(0, e.aux ? 4 : 7);
    if (!ok.empty() && r.chance(0.35)) { std::map<int, int>::iterator it = ok.begin(); std::advance(it, r.range(0, (int)ok.size() - 1)); char b[32]; snprintf(b, sizeof b, "v%d", it->first); args = b; e.st = E[it->first].st; st = true; add("struct_first"); }
    else if (e.aux) { for (int i = 0; i < 5; ++i) { Ent n; n.r = n.c = 0; e.st[AN[i]] = n; } }
    else if (r.chance(0.5)) { int pk = r.range(0, 4); static const char* SN[] = {"default", "reliable", "MPC", "mpc", "fast"}; preset(e.st, pk > 2 ? 2 : pk); args = std::string("'") + SN[pk] + "'"; st = true; add("scheme_first"); }
    else preset(e.st, 0);
    for (int q = 0; q < np; ++q) { if (!args.empty()) args += ","; if (e.aux) { const char* nm = AN[r.range(0, 4)]; Ent n; n.r = r.range(0, 4); n.c = r.range(0, 3); n.exact = true; std::string l = "reshape(["; for (long i = 0; i < n.r * n.c; ++i) { double v = val(r); n.v.push_back(v); l += (i ? " " : "") + lit(v); } char d[48]; snprintf(d, sizeof d, "],%ld,%ld)", n.r, n.c); e.st[nm] = n; args += std::string("'") + nm + "'," + l + d; }
      else { const char* nm = ON[r.range(0, NOPT - 1)]; double v = val(r); Ent n; n.exact = true; std::string l = lit(v); int cl = r.range(0, 5); if (cl == 0) { v = r.range(-100, 100); l = "int32(" + lit(v) + ")"; } else if (cl == 1) { v = r.range(0, 1); l = v ? "true" : "false"; } else if (cl == 2) { v = (float)v; l = "single(" + lit(v) + ")"; } else if (cl == 3) { v = r.range(0, 255); l = "uint8(" + lit(v) + ")"; } n.v.push_back(v); e.st[nm] = n; args += std::string("'") + nm + "'," + l; } add("values_set"); }
    if (r.chance(0.3)) { e.bad = true; add("bad_calls"); int how = r.range(0, 5); std::string c = args.empty() ? "" : ","; const char* nm = e.aux ? AN[r.range(0, 4)] : ON[r.range(0, NOPT - 1)];
      if (how == 0) args += c + "'noSuchOption',1"; else if (how == 1) args += c + "'" + nm + "'," + (e.aux ? (r.chance(0.5) ? "'abc'" : "{1}") : BADVAL[r.range(0, 7)]); else if (how == 2) args += c + (r.chance(0.5) ? "''" : st || np ? "3" : "''") + ",1"; else if (how == 3) { if (e.aux || st || np) args += c + "'" + std::string(nm) + "'"; else args = "'noScheme'"; } else if (how == 4) { if (e.aux) args = "1"; else args = r.chance(0.5) ? "5" : "{}"; } else args += c + "'" + nm + "',1,'Reliable',2";
    }
    char b[64]; e.call = std::string(e.aux ? "qpOASES_auxInput" : "qpOASES_options") + "(" + args + ")"; snprintf(b, sizeof b, "v%d=", k); S += std::string("try\n ") + b + e.call + ";\n"; snprintf(b, sizeof b, "%d", k); std::string ks = b; S += " n=fieldnames(v" + ks + "); for i=1:numel(n), w=v" + ks + ".(n{i}); fprintf(f,'" + ks + " %s %s %d %d',n{i},class(w),size(w,1),size(w,2)); fprintf(f,' %.17g',w(:)); fprintf(f,'\\n'); end\ncatch\n fprintf(f,'" + ks + " ERR\\n');\nend\n";
    if (!e.bad) ok[k] = 1; E.push_back(e); }
  S += "fprintf(f,'END\\n'); fclose(f);\n"; FILE* h = fopen(scr.c_str(), "w"); if (!h) { fprintf(stderr, "cannot write %s\n", scr.c_str()); _exit(3); } fwrite(S.data(), 1, S.size(), h); fclose(h); unlink(outf.c_str());
  std::string cmd = "octave-cli --no-init-file --no-history --quiet " + scr + " >" + std::string(base) + ".log 2>&1 </dev/null"; int rc = system(cmd.c_str()); std::vector<St> got(K); std::vector<char> err(K, 0); bool end = false; std::vector<std::string> cls(K);
  FILE* o = fopen(outf.c_str(), "r"); if (o) { static char line[65536]; while (fgets(line, sizeof line, o)) { if (!strncmp(line, "END", 3)) { end = true; break; } char* p = line; long k = strtol(p, &p, 10); if (k < 0 || k >= K) continue; char nm[128], cn[64]; Ent n; int used = 0; if (sscanf(p, "%127s", nm) == 1 && !strcmp(nm, "ERR")) { err[k] = 1; continue; } if (sscanf(p, "%127s %63s %ld %ld%n", nm, cn, &n.r, &n.c, &used) < 4) continue; p += used; for (long i = 0; i < n.r * n.c; ++i) { char* q; double v = strtod(p, &q); if (q == p) break; n.v.push_back(v); p = q; } if (strcmp(cn, "double")) cls[k] = std::string(nm) + ":" + cn; got[k][nm] = n; } fclose(o); }
  unlink(scr.c_str()); unlink(outf.c_str()); unlink((std::string(base) + ".log").c_str());
  if (!end) { if (rc == 32512 || rc == 32256) { add("octave_missing"); return; } viol("script-died", "octave left with %d before the end of the script", rc); fprintf(stderr, "%s", S.c_str()); return; }
  add("octave_sessions");
  for (int k = 0; k < K; ++k) { Ex& e = E[k]; add("calls"); const char* w = e.aux ? "auxInput" : "options"; char key[64];
#define BAD(s, ...) { snprintf(key, sizeof key, "%s-%s", w, s); viol(key, __VA_ARGS__); fprintf(stderr, "call: %s\n", e.call.c_str()); continue; }
    if (e.bad) { if (!err[k]) BAD("accepted-bad", "invalid call accepted"); continue; } if (err[k]) BAD("rejected-good", "valid call raised an error"); if (got[k].size() != e.st.size()) BAD("fields", "%zu fields instead of %zu", got[k].size(), e.st.size());
    for (St::iterator it = e.st.begin(); it != e.st.end(); ++it) { if (!got[k].count(it->first)) BAD("missing-field", "%s", it->first.c_str()); Ent &x = it->second, &g = got[k][it->first]; if (x.skip && !x.exact) continue; if (g.r != x.r || g.c != x.c || g.v.size() != x.v.size()) BAD("shape", "%s is %ldx%ld, expected %ldx%ld", it->first.c_str(), g.r, g.c, x.r, x.c); add("fields_compared");
      for (size_t i = 0; i < x.v.size(); ++i) { double a = g.v[i], b = x.v[i]; bool same = a == b || (!x.exact && std::fabs(a - b) <= 1e-3 * std::fabs(b)) || (!x.exact && it->first == "epsNZCTests" && std::fabs(a - b) <= 0.05 * std::fabs(b)); if (!same) { snprintf(key, sizeof key, "%s-%s", w, x.exact ? "value" : "preset"); viol(key, "%s is %.17g, expected %.17g", it->first.c_str(), a, b); fprintf(stderr, "call: %s\n", e.call.c_str()); } } }
    if (!e.aux && !cls[k].empty()) BAD("class", "%s", cls[k].c_str()) }
#undef BAD
  uint64_t hsh = 1469598103934665603ull; for (int k = 0; k < K; ++k) for (size_t i = 0; i < E[k].call.size(); ++i) hsh = (hsh ^ (unsigned char)E[k].call[i]) * 1099511628211ull; sig(hsh);
}
int main(int argc, char** argv) { return runMain(argc, argv, run); }
