#include "formats.hpp"

VH_CASES("conversion on writing", 2) {
    switch (g.raw(9)) {
        case 0: return convert<uint32_t, uint64_t>(g, ctx);
        case 1: return convert<uint32_t, int64_t>(g, ctx);
        case 2: return convert<int8_t, int32_t>(g, ctx);
        case 3: return convert<uint8_t, int8_t>(g, ctx);
        case 4: return convert<float, double>(g, ctx);
        case 5: return convert<double, float>(g, ctx);
        case 6: return convert<Float16, float>(g, ctx);
        case 7: return convert<float, Float16>(g, ctx);
        case 8: return convert<uint8_t, float>(g, ctx);
        default: return convert<float, int32_t>(g, ctx);
    }
}
VH_CASES("saved search results", 1) {
    switch (g.raw(3)) {
        case 0: return results<uint32_t>(g, ctx);
        case 1: return results<uint64_t>(g, ctx);
        case 2: return results<int32_t>(g, ctx);
        default: return results<int64_t>(g, ctx);
    }
}
VH_CASES("unknown extension", 1) {
    fs::path p = ctx.scratch + "/file.dat";
    spit(p, vecs_bytes(M<float>{2, 2, {1, 2, 3, 4}}));
    ctx.describe("unknown extension {}", g.raw(1));
    VH_REQUIRE(vh::throws([&] { (void)svs::data::SimpleData<float>::load(p); }), "loaded");
    VH_REQUIRE(vh::throws([&] { (void)io::vecs::VecsFile(ctx.scratch + "/no.fvecs").get_dims(); }), "dimensions of an absent file");
    VH_REQUIRE(vh::throws([&] { (void)svs::data::SimpleData<float>::load(ctx.scratch + "/no.svs"); }), "loaded an absent file");
}
