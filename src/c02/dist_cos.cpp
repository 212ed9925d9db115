#include "dist_common.hpp"
static int registered = (c02::register_all<svs::distance::DistanceCosineSimilarity>("Cosine"), 0);
