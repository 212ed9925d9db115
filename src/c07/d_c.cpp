#include "history.hpp"
VH_CASES("int8 cosine small blocks", 1) { c07::history<int8_t, svs::distance::DistanceCosineSimilarity, dyn::PagedGraph>(g, ctx); }
VH_CASES("uint8 L2 small blocks", 1) { c07::history<uint8_t, svs::distance::DistanceL2, dyn::PagedGraph>(g, ctx); }
