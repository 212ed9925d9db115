#include "build.hpp"
VH_CASES("build float16 L2", 2) { c04::structure<svs::Float16, svs::distance::DistanceL2>(g, ctx); }
VH_CASES("build float cosine", 2) { c04::structure<float, svs::distance::DistanceCosineSimilarity>(g, ctx); }
VH_CASES("navigate float cosine", 1) { c04::navigable<float, svs::distance::DistanceCosineSimilarity>(g, ctx); }
