#include "formats.hpp"

VH_CASES("vecs files", 4) {
    each_type(g, [&](auto t) { vecs<typename decltype(t)::type>(g, ctx); });
}
