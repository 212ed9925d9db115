#include "churn.hpp"
VH_CASES("structure uint8 cosine", 1) { c08::structure<uint8_t, svs::distance::DistanceCosineSimilarity, dyn::PagedGraph>(g, ctx); }
VH_CASES("recall int8 cosine", 1) { c08::recall<int8_t, svs::distance::DistanceCosineSimilarity, dyn::PagedGraph>(g, ctx); }
