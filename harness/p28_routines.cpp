// the C++ half of the Scilab interface as it is
#include <qpOASES/../../interfaces/scilab/qpOASESroutines.cpp>
