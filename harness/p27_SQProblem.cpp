// interfaces/simulink/qpOASES_SQProblem.cpp: the block as it is, in a namespace of its own.
#include "p19_pre.hpp"
#include "p27.hpp"
namespace vf_sim_SQProblem {
#include <qpOASES/../../interfaces/simulink/qpOASES_SQProblem.cpp>
}
const Block block_SQProblem = { vf_sim_SQProblem::mdlInitializeSizes, vf_sim_SQProblem::mdlInitializeSampleTimes, vf_sim_SQProblem::mdlStart, vf_sim_SQProblem::mdlOutputs, vf_sim_SQProblem::mdlTerminate };
