// octave interface, qpOASES.cpp: the MEX file as it is, in a namespace of its own.
#include "p19_pre.hpp"
namespace vf_octave_qp {
#include <qpOASES/../../interfaces/octave/qpOASES.cpp>
}
void call_octave_qp(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) { vf_octave_qp::mexFunction(nlhs, plhs, nrhs, prhs); }
