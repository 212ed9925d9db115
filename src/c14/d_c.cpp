#include "data_common.hpp"
using namespace svs;
static vh::Register a{"blocked float", 4, c14::history<data::BlockedData<float>>};
static vh::Register b{"blocked int8 of 7", 3, c14::history<data::BlockedData<int8_t, 7>>};
static vh::Register c{"blocked uint32, huge pages", 3, c14::history<data::BlockedData<uint32_t, Dynamic, HugepageAllocator<uint32_t>>>};
