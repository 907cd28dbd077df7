// Implementation side of mexmock/mex.h for the drivers.
#ifndef VF_MEXMOCK_HPP
#define VF_MEXMOCK_HPP
#include "mexmock/mex.h"
#include <vector>
enum MxCls { MX_DOUBLE, MX_SINGLE, MX_INT32, MX_INT8, MX_LOGICAL, MX_CHAR, MX_CELL, MX_STRUCT, MX_CLASSES };
struct mxArray { MxCls cls; bool sparse; size_t M, N, nzmax; char* data; mwIndex *ir, *jc; std::vector<char*> fn; std::vector<mxArray*> fv; int inCall;
  mxArray(MxCls c, size_t m, size_t n); ~mxArray(); static size_t width(MxCls c); double* d() const { return (double*)data; } size_t bytes() const { return (sparse ? nzmax : M * N) * width(cls); }
private: mxArray(const mxArray&); mxArray& operator=(const mxArray&); };
struct MexError { char msg[400]; };
typedef void (*MexFn)(int, mxArray**, int, const mxArray**);
mxArray* mxDense(size_t m, size_t n, const double* colMajor);
mxArray* mxSparse(size_t m, size_t n, const double* colMajor, const char* keepZero, size_t slack, double slackValue);
mxArray* mxOf(MxCls c, size_t m, size_t n);            // array of another class, small deterministic content
mxArray* mxStr(const char* s);
mxArray* mxStruct();
void mxPut(mxArray* s, const char* name, mxArray* v);  // set or replace a field
void mxErase(mxArray* s, const char* name);
mxArray* mxCopy(const mxArray* a);
uint64_t mxHash(const mxArray* a);
struct MexResult { bool err; char msg[400]; std::vector<mxArray*> out; long warnings; MexResult() : err(false), warnings(0) { msg[0] = 0; } ~MexResult() { clear(); } void clear(); const mxArray* at(size_t k) const { return k < out.size() ? out[k] : 0; }
private: MexResult(const MexResult&); MexResult& operator=(const MexResult&); };
// one call as the engine makes it: argument arrays of exactly nrhs / max(1,nlhs) entries, temporaries released afterwards.  Returns false if an input was modified.
bool mexCall(MexFn f, int nlhs, const std::vector<mxArray*>& in, MexResult& r);
#endif
