// External headers of the library's translation units, precompiled once.
#include <vector>
#include <string>
#include <iostream>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <cmath>
#include <math.h>
#include <assert.h>
#include <map>
#include <set>
#include <stdlib.h>
#include <exception>
#include <memory>
#include <numeric>
#include <armadillo>
#include <boost/geometry.hpp>
#include <boost/geometry/geometries/point.hpp>
#include <boost/geometry/geometries/box.hpp>
#include <boost/geometry/index/rtree.hpp>
#include <boost/math/distributions/gamma.hpp>
#include <boost/math/distributions/normal.hpp>
#include <boost/math/tools/minima.hpp>
