#include "inverted.hpp"
VH_CASES("clustering uint8 L2", 1) { c16::clustering<uint8_t, svs::distance::DistanceL2>(g, ctx); }
VH_CASES("search float16 L2 dense", 2) { c16::search<svs::Float16, svs::distance::DistanceL2, svs::index::inverted::DenseStrategy>(g, ctx); }
