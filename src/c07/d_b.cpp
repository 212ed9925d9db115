#include "history.hpp"
VH_CASES("float IP small blocks", 2) { c07::history<float, svs::distance::DistanceIP, dyn::PagedGraph>(g, ctx); }
VH_CASES("float16 L2 small blocks", 1) { c07::history<svs::Float16, svs::distance::DistanceL2, dyn::PagedGraph>(g, ctx); }
