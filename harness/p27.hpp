#ifndef VF_P27_HPP
#define VF_P27_HPP
#include <qpOASES.hpp>
#include "simmock/simstruc.h"
struct Block { void (*sizes)(SimStruct*); void (*times)(SimStruct*); void (*start)(SimStruct*); void (*outputs)(SimStruct*, int_T); void (*terminate)(SimStruct*); };
extern const Block block_QProblem, block_QProblemB, block_SQProblem;
#endif
