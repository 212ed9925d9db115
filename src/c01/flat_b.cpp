#include "flat_common.hpp"
VH_CASES("flat float/float16", 2) { c01::erased<float, svs::Float16>(g, ctx); }
VH_CASES("flat uint8/uint8", 2) { c01::erased<uint8_t, uint8_t>(g, ctx); }
