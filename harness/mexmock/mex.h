// Stand-in for the scripting engine's C API: just what qpOASES' MEX files use.  Every array owns exactly sized heap blocks, so
// any access outside an argument is visible to AddressSanitizer; errors are C++ exceptions as in Octave.
#ifndef VF_MEX_H
#define VF_MEX_H
#include <stddef.h>
#include <stdint.h>
typedef size_t mwIndex; typedef size_t mwSize;
typedef enum { mxREAL = 0, mxCOMPLEX = 1 } mxComplexity;
struct mxArray;
extern "C" {
size_t mxGetM(const mxArray*); size_t mxGetN(const mxArray*); double* mxGetPr(const mxArray*); double mxGetScalar(const mxArray*); void* mxGetData(const mxArray*);
bool mxIsDouble(const mxArray*); bool mxIsEmpty(const mxArray*); bool mxIsSparse(const mxArray*); bool mxIsStruct(const mxArray*); bool mxIsChar(const mxArray*); bool mxIsNaN(double); bool mxIsInf(double); bool mxIsFinite(double);
bool mxIsComplex(const mxArray*); bool mxIsNumeric(const mxArray*); bool mxIsLogical(const mxArray*); bool mxIsCell(const mxArray*); size_t mxGetNumberOfElements(const mxArray*);
mwIndex* mxGetIr(const mxArray*); mwIndex* mxGetJc(const mxArray*); mwSize mxGetNzmax(const mxArray*);
mxArray* mxGetField(const mxArray*, mwIndex, const char*); int mxGetNumberOfFields(const mxArray*); int mxAddField(mxArray*, const char*); void mxSetFieldByNumber(mxArray*, mwIndex, int, mxArray*);
int mxGetString(const mxArray*, char*, mwSize);
mxArray* mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity); mxArray* mxCreateDoubleScalar(double); mxArray* mxCreateStructMatrix(mwSize, mwSize, int, const char**); void mxDestroyArray(mxArray*);
void* mxMalloc(size_t); void* mxCalloc(size_t, size_t); void mxFree(void*);
void mexErrMsgTxt(const char*); void mexWarnMsgTxt(const char*); int mexPrintf(const char*, ...); void mexErrMsgIdAndTxt(const char*, const char*, ...);
}
#endif
