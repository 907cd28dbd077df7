// octave interface, qpOASES_sequence.cpp: the MEX file as it is, in a namespace of its own.
#include "p19_pre.hpp"
namespace vf_octave_seq {
#include <qpOASES/../../interfaces/octave/qpOASES_sequence.cpp>
}
void call_octave_seq(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) { vf_octave_seq::mexFunction(nlhs, plhs, nrhs, prhs); }
