#include "history.hpp"
using G = svs::graphs::SimpleBlockedGraph<uint32_t>;
VH_CASES("float L2", 1) { c07::history<float, svs::distance::DistanceL2, G>(g, ctx); }
VH_CASES("float L2 small blocks", 5) { c07::history<float, svs::distance::DistanceL2, dyn::PagedGraph>(g, ctx); }
