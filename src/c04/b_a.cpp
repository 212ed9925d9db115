#include "build.hpp"
VH_CASES("build float L2", 4) { c04::structure<float, svs::distance::DistanceL2>(g, ctx); }
VH_CASES("build float IP", 3) { c04::structure<float, svs::distance::DistanceIP>(g, ctx); }
VH_CASES("navigate float L2", 3) { c04::navigable<float, svs::distance::DistanceL2>(g, ctx); }
VH_CASES("navigate float IP", 1) { c04::navigable<float, svs::distance::DistanceIP>(g, ctx); }
