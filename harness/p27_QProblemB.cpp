// interfaces/simulink/qpOASES_QProblemB.cpp: the block as it is, in a namespace of its own.
#include "p19_pre.hpp"
#include "p27.hpp"
namespace vf_sim_QProblemB {
#include <qpOASES/../../interfaces/simulink/qpOASES_QProblemB.cpp>
}
const Block block_QProblemB = { vf_sim_QProblemB::mdlInitializeSizes, vf_sim_QProblemB::mdlInitializeSampleTimes, vf_sim_QProblemB::mdlStart, vf_sim_QProblemB::mdlOutputs, vf_sim_QProblemB::mdlTerminate };
