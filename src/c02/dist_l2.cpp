#include "dist_common.hpp"
static int registered = (c02::register_all<svs::distance::DistanceL2>("L2"), 0);
