#include "erased.hpp"
#include <fstream>
using namespace erased;

namespace {
// Distances selected at run time or given.
template <typename D, typename F> auto make(bool by_name, const F& f) {
    return by_name ? f(svs::DistanceType(dist_enum(dist_tag<D>::value))) : f(D());
}

template <typename T, typename D, typename Types> void flat(vh::Gen& g, vh::Ctx& ctx, Types types) {
    constexpr Dist kind = dist_tag<D>::value;
    size_t n = g.skew(1, 120), d = g.flip() ? g.range(1, 10) : gen_dim(g, 80), values = g.raw(NUM_KINDS - 1), threads = g.range(1, 3);
    auto x = with_distances(matrix<T>(n, d, values, g.seed()), kind);
    bool by_name = g.flip();
    ctx.describe("flat {} {} {}x{} {} threads={}{}:", type_name<T>(), dist_name(kind), n, d, kind_name(values), threads, by_name ? " by name" : "");
    auto a = svs::index::flat::auto_assemble(simple(x), D(), threads);
    auto b = make<D>(by_name, [&](auto dist) { return svs::Flat::assemble<Types>(simple(x), dist, threads); });
    size_t ops = g.range(1, 8);
    for (size_t i = 0; i < ops; ++i) {
        auto p = svs::index::flat::FlatParameters(g.skew(0, n + 2), g.skew(0, 8));
        size_t k = g.range(1, std::min<size_t>(n, 12));
        switch (g.raw(4)) {
            case 0:
                a.set_search_parameters(p);
                b.set_search_parameters(p);
                VH_REQUIRE(b.get_search_parameters().data_batch_size_ == p.data_batch_size_ && b.get_search_parameters().query_batch_size_ == p.query_batch_size_, "search parameters");
                break;
            case 1: both_threads(g, ctx, a, b); break;
            case 2:
                if constexpr (std::is_same_v<T, float>) {
                    refused_search<uint8_t>(g, b, d, k, p);
                } else {
                    refused_search<double>(g, b, d, k, p);
                }
                break;
            default:
                lib::for_each_type(types, [&]<typename Q>(lib::Type<Q>) {
                    auto q = matrix<Q>(g.range(1, 6), d, values, g.seed());
                    ctx.trace(" search {} {} k={} batches {}/{}", q.n, type_name<Q>(), k, p.data_batch_size_, p.query_batch_size_);
                    both_search(a, b, q, k, p);
                });
        }
        if (g.chance(1, 6)) {
            auto moved = std::move(b);
            b = std::move(moved);
        }
        both_facts(a, b, types, n);
    }
    ctx.interesting(n > 3);
}

template <typename T, typename D, typename Types> void vamana(vh::Gen& g, vh::Ctx& ctx, Types types) {
    constexpr Dist kind = dist_tag<D>::value;
    size_t n = g.skew(1, 70), d = g.flip() ? g.range(1, 10) : gen_dim(g, 50), values = g.raw(NUM_KINDS - 1);
    auto x = with_distances(matrix<T>(n, d, values, g.seed()), kind);
    auto params = dyn::gen_params(g, kind).build();
    bool by_name = g.flip();
    ctx.describe("graph index {} {} {}x{} {} degree={} window={}{}:", type_name<T>(), dist_name(kind), n, d, kind_name(values), params.graph_max_degree, params.window_size, by_name ? " by name" : "");
    auto a = vam::auto_build(params, simple(x), D(), size_t(1));
    auto b = make<D>(by_name, [&](auto dist) { return svs::Vamana::build<Types>(params, simple(x), dist, 1); });
    both_facts(a, b, types, n);
    std::vector<size_t> known(n);
    std::iota(known.begin(), known.end(), 0);
    size_t ops = g.range(2, 10);
    for (size_t i = 0; i < ops; ++i) {
        size_t k = g.range(1, 8);
        switch (g.raw(9)) {
            case 0:
            case 1:
            case 2: vamana_settings(g, ctx, a, b, n); break;
            case 3: both_threads(g, ctx, a, b); break;
            case 4: vamana_reconstruct(g, ctx, a, b, known, d); break;
            case 5: {
                auto p = gen_search(g, n);
                if constexpr (std::is_same_v<T, float>) {
                    refused_search<uint8_t>(g, b, d, k, p);
                    refused_calibration<int8_t>(b, d);
                } else {
                    refused_search<double>(g, b, d, k, p);
                    refused_calibration<double>(b, d);
                }
                break;
            }
            case 6: {
                if (!g.chance(1, 3)) break;
                bool in_place = g.flip();
                ctx.trace(" save and load");
                ctx.label("loaded");
                auto dir = fs::path(ctx.scratch);
                for (auto s : {"a", "b"}) {
                    fs::remove_all(dir / s);
                    fs::create_directories(dir / s);
                }
                a.save(dir / "a/config", dir / "a/graph", dir / "a/data");
                b.save(dir / "b/config", dir / "b/graph", dir / "b/data");
                for (auto part : {"graph", "data"}) VH_REQUIRE(file_bytes(dir / "a" / part) == file_bytes(dir / "b" / part), "another {} was saved", part);
                VH_REQUIRE(lib::load_from_disk<vam::VamanaIndexParameters>(dir / "a/config") == lib::load_from_disk<vam::VamanaIndexParameters>(dir / "b/config"), "another configuration was saved");
                size_t t = a.get_num_threads();
                auto graph = svs::GraphLoader(dir / "a/graph");
                if (in_place) {
                    b = make<D>(by_name, [&](auto dist) { return svs::Vamana::assemble<Types>(dir / "a/config", graph, svs::VectorDataLoader<T>(dir / "a/data"), dist, t); });
                } else {
                    b = make<D>(by_name, [&](auto dist) { return svs::Vamana::assemble<Types>(dir / "a/config", graph, simple(x), dist, t); });
                }
                break;
            }
            case 7: {
                if (g.flip()) break;
                lib::for_each_type(types, [&]<typename Q>(lib::Type<Q>) { vamana_calibrate(g, ctx, a, b, matrix<Q>(g.range(1, 4), d, values, g.seed()), n); });
                break;
            }
            default: {
                auto p = gen_search(g, n);
                lib::for_each_type(types, [&]<typename Q>(lib::Type<Q>) {
                    auto q = matrix<Q>(g.range(1, 5), d, values, g.seed());
                    ctx.trace(" search {} {} k={} {}", q.n, type_name<Q>(), k, erased::show(p));
                    both_search(a, b, q, k, p);
                });
            }
        }
        if (g.chance(1, 8)) {
            auto moved = std::move(b);
            b = std::move(moved);
        }
        both_facts(a, b, types, n);
    }
    VH_REQUIRE(b.experimental_backend_string().find("VamanaIndex") != std::string::npos, "the backend is called {}", b.experimental_backend_string());
    ctx.interesting(n > 3);
}
} // namespace

VH_CASES("flat float L2", 2) { flat<float, svs::DistanceL2>(g, ctx, lib::Types<float, Float16>()); }
VH_CASES("flat uint8 IP", 1) { flat<uint8_t, svs::DistanceIP>(g, ctx, lib::Types<uint8_t, float>()); }
VH_CASES("flat float16 cosine", 1) { flat<Float16, svs::DistanceCosineSimilarity>(g, ctx, lib::Types<Float16>()); }
VH_CASES("graph index float L2", 3) { vamana<float, svs::DistanceL2>(g, ctx, lib::Types<float, Float16>()); }
VH_CASES("graph index int8 IP", 2) { vamana<int8_t, svs::DistanceIP>(g, ctx, lib::Types<float, int8_t>()); }
VH_CASES("graph index uint8 cosine", 1) { vamana<uint8_t, svs::DistanceCosineSimilarity>(g, ctx, lib::Types<uint8_t>()); }
