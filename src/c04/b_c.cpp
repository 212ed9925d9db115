#include "build.hpp"
VH_CASES("build int8 L2", 2) { c04::structure<int8_t, svs::distance::DistanceL2>(g, ctx); }
VH_CASES("build uint8 IP", 2) { c04::structure<uint8_t, svs::distance::DistanceIP>(g, ctx); }
VH_CASES("navigate int8 L2", 1) { c04::navigable<int8_t, svs::distance::DistanceL2>(g, ctx); }
