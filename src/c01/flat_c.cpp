#include "flat_common.hpp"
VH_CASES("flat float/int8", 1) { c01::erased<float, int8_t>(g, ctx); }
VH_CASES("flat float/float static 24", 1) { c01::erased<float, float, 24>(g, ctx); }
VH_CASES("flat float16/float16", 1) { c01::erased<svs::Float16, svs::Float16>(g, ctx); }
