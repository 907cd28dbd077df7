// interfaces/simulink/qpOASES_QProblem.cpp: the block as it is, in a namespace of its own.
#include "p19_pre.hpp"
#include "p27.hpp"
namespace vf_sim_QProblem {
#include <qpOASES/../../interfaces/simulink/qpOASES_QProblem.cpp>
}
const Block block_QProblem = { vf_sim_QProblem::mdlInitializeSizes, vf_sim_QProblem::mdlInitializeSampleTimes, vf_sim_QProblem::mdlStart, vf_sim_QProblem::mdlOutputs, vf_sim_QProblem::mdlTerminate };
