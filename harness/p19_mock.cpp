#include "mexmock.hpp"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <cmath>
static std::vector<mxArray*> live; static bool running = false; static long warned = 0; static std::vector<void*> blocks;
static uint64_t hb(uint64_t h, const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; } return h; }
static void fail(const char* m) { mexErrMsgTxt(m); }
size_t mxArray::width(MxCls c) { switch (c) { case MX_DOUBLE: return 8; case MX_SINGLE: case MX_INT32: return 4; case MX_INT8: case MX_LOGICAL: case MX_CHAR: return 1; default: return 0; } }
mxArray::mxArray(MxCls c, size_t m, size_t n) : cls(c), sparse(false), M(m), N(n), nzmax(0), data(0), ir(0), jc(0), inCall(running ? 1 : 0) { if (c != MX_CELL && c != MX_STRUCT) { data = (char*)malloc(M * N * width(c)); if (M * N) memset(data, 0, M * N * width(c)); } if (running) live.push_back(this); }
mxArray::~mxArray() { free(data); free(ir); free(jc); for (size_t i = 0; i < fn.size(); ++i) { free(fn[i]); delete fv[i]; } if (inCall) for (size_t i = 0; i < live.size(); ++i) if (live[i] == this) { live.erase(live.begin() + i); break; } }
mxArray* mxDense(size_t m, size_t n, const double* v) { mxArray* a = new mxArray(MX_DOUBLE, m, n); if (v && m * n) memcpy(a->data, v, 8 * m * n); return a; }
mxArray* mxSparse(size_t m, size_t n, const double* v, const char* keep, size_t slack, double sv) { mxArray* a = new mxArray(MX_DOUBLE, 0, 0); free(a->data); a->sparse = true; a->M = m; a->N = n; size_t nz = 0; for (size_t i = 0; i < m * n; ++i) if (v[i] != 0 || (keep && keep[i])) ++nz; a->nzmax = nz + slack; a->data = (char*)malloc(8 * a->nzmax); a->ir = (mwIndex*)malloc(sizeof(mwIndex) * a->nzmax); a->jc = (mwIndex*)malloc(sizeof(mwIndex) * (n + 1)); size_t k = 0; for (size_t j = 0; j < n; ++j) { a->jc[j] = k; for (size_t i = 0; i < m; ++i) if (v[j * m + i] != 0 || (keep && keep[j * m + i])) { a->ir[k] = i; a->d()[k++] = v[j * m + i]; } } a->jc[n] = k; for (; k < a->nzmax; ++k) { a->ir[k] = 0; a->d()[k] = sv; } return a; }
mxArray* mxOf(MxCls c, size_t m, size_t n) { mxArray* a = new mxArray(c, m, n); if (a->data) for (size_t i = 0; i < m * n; ++i) switch (c) { case MX_DOUBLE: a->d()[i] = 1; break; case MX_SINGLE: ((float*)a->data)[i] = 1; break; case MX_INT32: ((int*)a->data)[i] = 1; break; default: a->data[i] = 1; } return a; }
mxArray* mxStr(const char* s) { size_t n = strlen(s); mxArray* a = new mxArray(MX_CHAR, n ? 1 : 0, n); if (n) memcpy(a->data, s, n); return a; }
mxArray* mxStruct() { return new mxArray(MX_STRUCT, 1, 1); }
void mxPut(mxArray* s, const char* nm, mxArray* v) { for (size_t i = 0; i < s->fn.size(); ++i) if (!strcmp(s->fn[i], nm)) { delete s->fv[i]; s->fv[i] = v; return; } s->fn.push_back(strdup(nm)); s->fv.push_back(v); }
void mxErase(mxArray* s, const char* nm) { for (size_t i = 0; i < s->fn.size(); ++i) if (!strcmp(s->fn[i], nm)) { free(s->fn[i]); delete s->fv[i]; s->fn.erase(s->fn.begin() + i); s->fv.erase(s->fv.begin() + i); return; } }
mxArray* mxCopy(const mxArray* a) { mxArray* b = new mxArray(a->cls, a->sparse ? 0 : a->M, a->sparse ? 0 : a->N); if (a->sparse) { free(b->data); b->sparse = true; b->M = a->M; b->N = a->N; b->nzmax = a->nzmax; b->data = (char*)malloc(8 * a->nzmax); b->ir = (mwIndex*)malloc(sizeof(mwIndex) * a->nzmax); b->jc = (mwIndex*)malloc(sizeof(mwIndex) * (a->N + 1)); if (a->nzmax) { memcpy(b->ir, a->ir, sizeof(mwIndex) * a->nzmax); } memcpy(b->jc, a->jc, sizeof(mwIndex) * (a->N + 1)); } if (a->data && a->bytes()) memcpy(b->data, a->data, a->bytes()); for (size_t i = 0; i < a->fn.size(); ++i) mxPut(b, a->fn[i], mxCopy(a->fv[i])); return b; }
uint64_t mxHash(const mxArray* a) { uint64_t h = 1469598103934665603ULL; if (!a) return h; h = hb(h, &a->M, 8); h = hb(h, &a->N, 8); int t = a->cls * 2 + a->sparse; h = hb(h, &t, 4); if (a->data) h = hb(h, a->data, a->bytes()); if (a->sparse) { h = hb(h, a->ir, sizeof(mwIndex) * a->nzmax); h = hb(h, a->jc, sizeof(mwIndex) * (a->N + 1)); } for (size_t i = 0; i < a->fn.size(); ++i) { h = hb(h, a->fn[i], strlen(a->fn[i])); uint64_t k = mxHash(a->fv[i]); h = hb(h, &k, 8); } return h; }
void MexResult::clear() { for (size_t i = 0; i < out.size(); ++i) delete out[i]; out.clear(); err = false; msg[0] = 0; warnings = 0; }
bool mexCall(MexFn f, int nlhs, const std::vector<mxArray*>& in, MexResult& r) {
  r.clear(); size_t no = nlhs > 0 ? nlhs : 1; mxArray** pl = (mxArray**)malloc(no * sizeof(mxArray*)); for (size_t i = 0; i < no; ++i) pl[i] = 0; const mxArray** pr = (const mxArray**)malloc(in.size() * sizeof(mxArray*)); uint64_t h = 7; for (size_t i = 0; i < in.size(); ++i) { pr[i] = in[i]; uint64_t k = mxHash(in[i]); h = hb(h, &k, 8); }
  warned = 0; running = true; try { f(nlhs, pl, (int)in.size(), pr); } catch (MexError& e) { r.err = true; memcpy(r.msg, e.msg, sizeof r.msg); } running = false; r.warnings = warned;
  if (!r.err) for (size_t i = 0; i < no; ++i) { bool dup = false; for (size_t j = 0; j < i; ++j) if (pl[j] && pl[j] == pl[i]) dup = true; r.out.push_back(dup ? 0 : pl[i]); }
  for (size_t i = 0; i < r.out.size(); ++i) if (r.out[i]) for (size_t j = 0; j < live.size(); ++j) if (live[j] == r.out[i]) { live.erase(live.begin() + j); r.out[i]->inCall = 0; break; }
  while (!live.empty()) delete live.back(); for (size_t i = 0; i < blocks.size(); ++i) free(blocks[i]); std::vector<void*>().swap(blocks); std::vector<mxArray*>().swap(live);
  uint64_t h2 = 7; for (size_t i = 0; i < in.size(); ++i) { uint64_t k = mxHash(in[i]); h2 = hb(h2, &k, 8); } free(pl); free(pr); return h == h2; }
extern "C" {
size_t mxGetM(const mxArray* a) { return a->M; } size_t mxGetN(const mxArray* a) { return a->N; } double* mxGetPr(const mxArray* a) { return (double*)a->data; } void* mxGetData(const mxArray* a) { return a->data; }
bool mxIsNumeric(const mxArray* a) { return a->cls <= MX_INT8; } bool mxIsLogical(const mxArray* a) { return a->cls == MX_LOGICAL; } bool mxIsComplex(const mxArray*) { return false; } bool mxIsCell(const mxArray* a) { return a->cls == MX_CELL; } size_t mxGetNumberOfElements(const mxArray* a) { return a->M * a->N; }
double mxGetScalar(const mxArray* a) { if (a->M * a->N == 0 || a->cls == MX_CELL || a->cls == MX_STRUCT) { fail("mxGetScalar: no value"); return 0; } if (a->sparse) return a->jc[1] > 0 && a->ir[0] == 0 ? a->d()[0] : 0.0; switch (a->cls) { case MX_DOUBLE: return a->d()[0]; case MX_SINGLE: return ((float*)a->data)[0]; case MX_INT32: return ((int*)a->data)[0]; default: return (unsigned char)a->data[0]; } }
bool mxIsDouble(const mxArray* a) { return a->cls == MX_DOUBLE; } bool mxIsEmpty(const mxArray* a) { return a->M * a->N == 0; } bool mxIsSparse(const mxArray* a) { return a->sparse; } bool mxIsStruct(const mxArray* a) { return a->cls == MX_STRUCT; } bool mxIsChar(const mxArray* a) { return a->cls == MX_CHAR; } bool mxIsNaN(double v) { return v != v; } bool mxIsInf(double v) { return std::isinf(v); } bool mxIsFinite(double v) { return std::isfinite(v); }
mwIndex* mxGetIr(const mxArray* a) { return a->ir; } mwIndex* mxGetJc(const mxArray* a) { return a->jc; } mwSize mxGetNzmax(const mxArray* a) { return a->sparse ? a->nzmax : a->M * a->N; }
mxArray* mxGetField(const mxArray* a, mwIndex, const char* nm) { for (size_t i = 0; i < a->fn.size(); ++i) if (!strcmp(a->fn[i], nm)) return a->fv[i]; return 0; }
int mxGetNumberOfFields(const mxArray* a) { return (int)a->fn.size(); }
int mxAddField(mxArray* a, const char* nm) { a->fn.push_back(strdup(nm)); a->fv.push_back(0); return (int)a->fn.size() - 1; }
void mxSetFieldByNumber(mxArray* a, mwIndex, int k, mxArray* v) { a->fv[k] = v; for (size_t j = 0; j < live.size(); ++j) if (live[j] == v) { live.erase(live.begin() + j); v->inCall = 0; break; } }
int mxGetString(const mxArray* a, char* b, mwSize n) { size_t k = a->M * a->N; if (a->cls != MX_CHAR) return 1; int rc = 0; if (!(k < n)) { rc = 1; k = n ? n - 1 : 0; } if (n) { if (k) memcpy(b, a->data, k); b[k] = 0; } return rc; }
mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity) { return new mxArray(MX_DOUBLE, m, n); } mxArray* mxCreateDoubleScalar(double v) { mxArray* a = new mxArray(MX_DOUBLE, 1, 1); a->d()[0] = v; return a; } mxArray* mxCreateStructMatrix(mwSize m, mwSize n, int, const char**) { return new mxArray(MX_STRUCT, m, n); } void mxDestroyArray(mxArray* a) { delete a; }
void* mxMalloc(size_t n) { void* p = malloc(n); blocks.push_back(p); return p; } void* mxCalloc(size_t a, size_t b) { void* p = calloc(a, b); blocks.push_back(p); return p; } void mxFree(void* p) { for (size_t i = 0; i < blocks.size(); ++i) if (blocks[i] == p) { blocks.erase(blocks.begin() + i); free(p); return; } }
void mexErrMsgTxt(const char* s) { MexError e; snprintf(e.msg, sizeof e.msg, "%s", s); throw e; } void mexErrMsgIdAndTxt(const char*, const char* f, ...) { MexError e; va_list ap; va_start(ap, f); vsnprintf(e.msg, sizeof e.msg, f, ap); va_end(ap); throw e; } void mexWarnMsgTxt(const char* s) { volatile size_t n = strlen(s); (void)n; ++warned; } int mexPrintf(const char*, ...) { return 0; }
}
