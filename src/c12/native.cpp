#include "formats.hpp"

VH_CASES("native files", 4) {
    each_type(g, [&](auto t) { native<typename decltype(t)::type>(g, ctx); });
}
