/* the Scilab gateway as it is, compiled as C */
#include <qpOASES/../../interfaces/scilab/qpOASESinterface.c>
