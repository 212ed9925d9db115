#include "search_common.hpp"
VH_CASES("search float L2", 4) { c03::run<float, float, svs::distance::DistanceL2>(g, ctx); }
VH_CASES("search float IP", 2) { c03::run<float, float, svs::distance::DistanceIP>(g, ctx); }
