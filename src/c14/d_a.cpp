#include "data_common.hpp"
using namespace svs;
static vh::Register a{"contiguous float", 4, c14::history<data::SimpleData<float>>};
static vh::Register b{"contiguous int8 of 7", 3, c14::history<data::SimpleData<int8_t, 7>>};
static vh::Register c{"contiguous float16", 3, c14::history<data::SimpleData<Float16>>};
