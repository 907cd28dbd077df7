/* Plain C side of the C-interface driver: sees only qpOASES_wrapper.h, as a C program does. */
#include <qpOASES/../../interfaces/c/qpOASES_wrapper.h>
#include <string.h>
#define FIELDS I(printLevel) I(enableRamping) I(enableFarBounds) I(enableFlippingBounds) I(enableRegularisation) I(enableFullLITests) I(enableNZCTests) I(enableDriftCorrection) I(enableCholeskyRefactorisation) I(enableEqualities) R(terminationTolerance) R(boundTolerance) R(boundRelaxation) R(epsNum) R(epsDen) R(maxPrimalJump) R(maxDualJump) R(initialRamping) R(finalRamping) R(initialFarBounds) R(growFarBounds) I(initialStatusBounds) R(epsFlipping) I(numRegularisationSteps) R(epsRegularisation) I(numRefinementSteps) R(epsIterRef) R(epsLITests) R(epsNZCTests) R(rcondSMin) I(enableInertiaCorrection) I(enableDropInfeasibles) I(dropBoundPriority) I(dropEqConPriority) I(dropIneqConPriority) I(printResiduals)
unsigned c_opt_size(void) { return (unsigned)sizeof(qpOASES_Options); }
int c_opt_count(void) { int k = 0;
#define I(f) ++k;
#define R(f) ++k;
  FIELDS
#undef I
#undef R
  return k; }
const char* c_opt_name(int i) { static const char* const N[] = {
#define I(f) #f,
#define R(f) #f,
  FIELDS
#undef I
#undef R
  0 }; return N[i]; }
double c_opt_get(const void* p, int i) { const qpOASES_Options* o = (const qpOASES_Options*)p; int k = 0;
#define I(f) if (k++ == i) return (double)o->f;
#define R(f) if (k++ == i) return o->f;
  FIELDS
#undef I
#undef R
  return 0; }
void c_opt_set(void* p, int i, double v) { qpOASES_Options* o = (qpOASES_Options*)p; int k = 0;
#define I(f) if (k++ == i) o->f = (int_t)v;
#define R(f) if (k++ == i) o->f = v;
  FIELDS
#undef I
#undef R
}
long c_opt_init(void* p, long mode) { return (long)qpOASES_Options_init((qpOASES_Options*)p, (int_t)mode); }
long c_setup(int kind, long nV, long nC, long hess) { return kind == 0 ? QProblemB_setup((int_t)nV, (int_t)hess) : kind == 1 ? QProblem_setup((int_t)nV, (int_t)nC, (int_t)hess) : SQProblem_setup((int_t)nV, (int_t)nC, (int_t)hess); }
long c_cleanup(int kind) { return kind == 0 ? QProblemB_cleanup() : kind == 1 ? QProblem_cleanup() : SQProblem_cleanup(); }
long c_init(int kind, const double* H, const double* g, const double* A, const double* lb, const double* ub, const double* lbA, const double* ubA, long* nw, double* cpu, const void* opt, double* x, double* y, double* obj, long* st) {
  int_t n = (int_t)*nw, s = (int_t)*st, r; const qpOASES_Options* o = (const qpOASES_Options*)opt;
  r = kind == 0 ? QProblemB_init(H, g, lb, ub, &n, cpu, o, x, y, obj, &s) : kind == 1 ? QProblem_init(H, g, A, lb, ub, lbA, ubA, &n, cpu, o, x, y, obj, &s) : SQProblem_init(H, g, A, lb, ub, lbA, ubA, &n, cpu, o, x, y, obj, &s);
  *nw = n; *st = s; return r; }
long c_hot(int kind, const double* H, const double* g, const double* A, const double* lb, const double* ub, const double* lbA, const double* ubA, long* nw, double* cpu, double* x, double* y, double* obj, long* st) {
  int_t n = (int_t)*nw, s = (int_t)*st, r;
  r = kind == 0 ? QProblemB_hotstart(g, lb, ub, &n, cpu, x, y, obj, &s) : kind == 1 ? QProblem_hotstart(g, lb, ub, lbA, ubA, &n, cpu, x, y, obj, &s) : SQProblem_hotstart(H, g, A, lb, ub, lbA, ubA, &n, cpu, x, y, obj, &s);
  *nw = n; *st = s; return r; }
