#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <utility>
#include <vector>
#include <string.h>
#include <stdint.h>
#include <qpOASES.hpp>
#include <qpOASES/QProblem.hpp>
#include "mex.h"
#include "matrix.h"
