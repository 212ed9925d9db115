#include "churn.hpp"
VH_CASES("structure float IP", 2) { c08::structure<float, svs::distance::DistanceIP, dyn::PagedGraph>(g, ctx); }
VH_CASES("recall float16 IP", 1) { c08::recall<svs::Float16, svs::distance::DistanceIP, dyn::PagedGraph>(g, ctx); }
