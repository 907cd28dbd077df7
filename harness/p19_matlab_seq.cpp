// matlab interface, qpOASES_sequence.cpp: the MEX file as it is, in a namespace of its own.
#include "p19_pre.hpp"
namespace vf_matlab_seq {
#include <qpOASES/../../interfaces/matlab/qpOASES_sequence.cpp>
}
void call_matlab_seq(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) { vf_matlab_seq::mexFunction(nlhs, plhs, nrhs, prhs); }
