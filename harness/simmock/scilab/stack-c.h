/* Stand-in for Scilab's stack interface: just what qpOASES' gateway uses.  Every variable of a call is a block of exactly its size which
   dies with the call, so any access outside a variable or after the call is visible to AddressSanitizer. */
#ifndef VF_STACK_C_H
#define VF_STACK_C_H
#ifdef __cplusplus
extern "C" {
#endif
#define C2F(name) name##_
extern int vf_rhs, vf_lhs, vf_fin, vf_lhsvar[64];
#define Rhs vf_rhs
#define Lhs vf_lhs
#define Fin vf_fin
#define Nbvars vf_nbvars
#define LhsVar(x) vf_lhsvar[(x)-1]
#define Max(x,y) (((x)>(y))?(x):(y))
#define Min(x,y) (((x)<(y))?(x):(y))
int vf_checkrhs(const char* fname, int lo, int hi); int vf_checklhs(const char* fname, int lo, int hi);
int vf_getrhsvar(int num, const char* type, int* m, int* n, int* l); int vf_createvar(int num, const char* type, int* m, int* n, int* l);
double* vf_stk(int l); int* vf_istk(int l);
#define CheckRhs(lo,hi) if (!vf_checkrhs(fname,lo,hi)) return 0
#define CheckLhs(lo,hi) if (!vf_checklhs(fname,lo,hi)) return 0
#define GetRhsVar(num,type,m,n,l) if (!vf_getrhsvar(num,type,m,n,l)) return 0
#define CreateVar(num,type,m,n,l) if (!vf_createvar(num,type,m,n,l)) return 0
#define stk(l) vf_stk(l)
#define istk(l) vf_istk(l)
#ifdef __cplusplus
}
#endif
#endif
