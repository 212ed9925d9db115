#include "inverted.hpp"
VH_CASES("clustering float L2", 3) { c16::clustering<float, svs::distance::DistanceL2>(g, ctx); }
VH_CASES("search float L2 sparse", 3) { c16::search<float, svs::distance::DistanceL2, svs::index::inverted::SparseStrategy>(g, ctx); }
