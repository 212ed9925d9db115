#include "flat_common.hpp"
VH_CASES("flat float/float", 4) { c01::erased<float, float>(g, ctx); }
VH_CASES("flat int8/int8", 2) { c01::erased<int8_t, int8_t>(g, ctx); }
