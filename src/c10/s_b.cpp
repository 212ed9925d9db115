#include "common.hpp"
using namespace c10;
VH_CASES("static int8 cosine", 2) { statics<int8_t, int8_t, svs::DistanceCosineSimilarity>(g, ctx); }
VH_CASES("static uint8 L2", 2) { statics<uint8_t, uint8_t, svs::DistanceL2>(g, ctx); }
VH_CASES("inverted uint8 IP", 1) { inverted<uint8_t, svs::DistanceIP>(g, ctx); }
