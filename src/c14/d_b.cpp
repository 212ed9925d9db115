#include "data_common.hpp"
using namespace svs;
static vh::Register a{"contiguous uint8, huge pages", 3, c14::history<data::SimpleData<uint8_t, Dynamic, HugepageAllocator<uint8_t>>>};
static vh::Register b{"contiguous uint32, std::allocator", 3, c14::history<data::SimpleData<uint32_t, Dynamic, std::allocator<uint32_t>>>};
