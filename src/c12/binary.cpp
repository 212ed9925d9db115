#include "formats.hpp"

VH_CASES("binary files", 3) {
    each_type(g, [&](auto t) { bin<typename decltype(t)::type>(g, ctx); });
}
