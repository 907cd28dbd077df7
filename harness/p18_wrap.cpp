// The wrapper itself, as its own translation unit.
#include <qpOASES/../../interfaces/c/qpOASES_wrapper.cpp>
