// Stand-in for Simulink's S-function API (level 2): just what qpOASES' blocks use.  Input signals are given as one pointer per
// element, as Simulink does; nothing promises that the elements lie next to each other.
#ifndef VF_SIMSTRUC_H
#define VF_SIMSTRUC_H
#include "mex.h"
#include <vector>
typedef double real_T; typedef int int_T; typedef unsigned int uint_T;
typedef const real_T* const* InputRealPtrsType;
#define DYNAMICALLY_SIZED (-1)
struct SimPort { int width; std::vector<real_T*> el; real_T* out; int feed; SimPort() : width(0), out(0), feed(0) {} };
struct SimStruct { int nParamsWanted, nContStates, nDiscStates, nSampleTimes; std::vector<const mxArray*> param; std::vector<SimPort> in, out; void** pwork; int nPWork; double ts, off; int bad;
  SimStruct() : nParamsWanted(-1), nContStates(-1), nDiscStates(-1), nSampleTimes(-1), pwork(0), nPWork(0), ts(0), off(0), bad(0) {} };
inline void ssSetNumContStates(SimStruct* S, int n) { S->nContStates = n; }
inline void ssSetNumDiscStates(SimStruct* S, int n) { S->nDiscStates = n; }
inline void ssSetNumSFcnParams(SimStruct* S, int n) { S->nParamsWanted = n; }
inline int ssGetNumSFcnParams(SimStruct* S) { return S->nParamsWanted; }
inline int ssGetSFcnParamsCount(SimStruct* S) { return (int)S->param.size(); }
inline int ssSetNumInputPorts(SimStruct* S, int n) { S->in.assign(n, SimPort()); return 1; }
inline int ssSetNumOutputPorts(SimStruct* S, int n) { S->out.assign(n, SimPort()); return 1; }
inline int ssSetInputPortVectorDimension(SimStruct* S, int p, int w) { S->in.at(p).width = w; return 1; }
inline int ssSetOutputPortVectorDimension(SimStruct* S, int p, int w) { S->out.at(p).width = w; return 1; }
inline void ssSetInputPortWidth(SimStruct* S, int p, int w) { S->in.at(p).width = w; }
inline void ssSetOutputPortWidth(SimStruct* S, int p, int w) { S->out.at(p).width = w; }
inline void ssSetInputPortDirectFeedThrough(SimStruct* S, int p, int v) { S->in.at(p).feed = v; }
inline void ssSetInputPortRequiredContiguous(SimStruct* S, int p, int v) { S->in.at(p).feed |= v ? 2 : 0; }
inline void ssSetNumSampleTimes(SimStruct* S, int n) { S->nSampleTimes = n; }
inline void ssSetSampleTime(SimStruct* S, int, double t) { S->ts = t; }
inline void ssSetOffsetTime(SimStruct* S, int, double t) { S->off = t; }
inline void ssSetNumPWork(SimStruct* S, int n) { S->nPWork = n; }
inline void** ssGetPWork(SimStruct* S) { return S->pwork; }
inline void* ssGetPWorkValue(SimStruct* S, int i) { return S->pwork[i]; }
inline void ssSetPWorkValue(SimStruct* S, int i, void* p) { S->pwork[i] = p; }
inline const mxArray* ssGetSFcnParam(SimStruct* S, int i) { return S->param.at(i); }
inline int ssGetInputPortWidth(SimStruct* S, int p) { return S->in.at(p).width; }
inline int ssGetOutputPortWidth(SimStruct* S, int p) { return S->out.at(p).width; }
inline InputRealPtrsType ssGetInputPortRealSignalPtrs(SimStruct* S, int p) { return (InputRealPtrsType)S->in.at(p).el.data(); }
inline const real_T* ssGetInputPortRealSignal(SimStruct* S, int p) { return (S->in.at(p).feed & 2) && !S->in.at(p).el.empty() ? S->in.at(p).el[0] : 0; }
inline real_T* ssGetOutputPortRealSignal(SimStruct* S, int p) { return S->out.at(p).out; }
inline void ssSetErrorStatus(SimStruct*, const char* s) { mexErrMsgTxt(s); }
inline void ssSetOptions(SimStruct*, uint_T) {}
#endif
