#include "inverted.hpp"
VH_CASES("clustering float IP", 2) { c16::clustering<float, svs::distance::DistanceIP>(g, ctx); }
VH_CASES("search float IP dense", 2) { c16::search<float, svs::distance::DistanceIP, svs::index::inverted::DenseStrategy>(g, ctx); }
