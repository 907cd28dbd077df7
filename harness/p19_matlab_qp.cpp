// matlab interface, qpOASES.cpp: the MEX file as it is, in a namespace of its own.
#include "p19_pre.hpp"
namespace vf_matlab_qp {
#include <qpOASES/../../interfaces/matlab/qpOASES.cpp>
}
void call_matlab_qp(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) { vf_matlab_qp::mexFunction(nlhs, plhs, nrhs, prhs); }
