#include "search_common.hpp"
VH_CASES("search float16 cosine", 2) { c03::run<float, svs::Float16, svs::distance::DistanceCosineSimilarity>(g, ctx); }
VH_CASES("search int8 L2", 1) { c03::run<int8_t, int8_t, svs::distance::DistanceL2>(g, ctx); }
