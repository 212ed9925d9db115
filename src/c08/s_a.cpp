#include "churn.hpp"
VH_CASES("structure float L2", 4) { c08::structure<float, svs::distance::DistanceL2, dyn::PagedGraph>(g, ctx); }
VH_CASES("recall float L2", 2) { c08::recall<float, svs::distance::DistanceL2, dyn::PagedGraph>(g, ctx); }
