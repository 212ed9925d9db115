#include "common.hpp"
using namespace c10;
VH_CASES("static float L2", 3) { statics<float, float, svs::DistanceL2>(g, ctx); }
VH_CASES("static float16 IP", 2) { statics<Float16, float, svs::DistanceIP>(g, ctx); }
VH_CASES("inverted float L2", 2) { inverted<float, svs::DistanceL2>(g, ctx); }
