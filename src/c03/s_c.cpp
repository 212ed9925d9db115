#include "search_common.hpp"
VH_CASES("search uint8 IP", 1) { c03::run<uint8_t, uint8_t, svs::distance::DistanceIP>(g, ctx); }
VH_CASES("search float float16 L2", 1) { c03::run<float, svs::Float16, svs::distance::DistanceL2>(g, ctx); }
