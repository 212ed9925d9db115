#include "dist_common.hpp"
static int registered = (c02::register_all<svs::distance::DistanceIP>("IP"), 0);
