#include "erased.hpp"
#include <fstream>
using namespace erased;

namespace {
template <typename A> std::vector<size_t> concrete_ids(A& a) {
    std::vector<size_t> v;
    a.on_ids([&](size_t e) { v.push_back(e); });
    std::sort(v.begin(), v.end());
    return v;
}

// How the erased index comes about.
struct Wrapped {};
struct Built {};

template <typename T, typename D, typename How, typename Types> void dynamic(vh::Gen& g, vh::Ctx& ctx, How, Types types) {
    constexpr Dist kind = dist_tag<D>::value;
    constexpr bool wrapped = std::is_same_v<How, Wrapped>;
    size_t n = g.skew(1, 50), d = g.flip() ? g.range(1, 8) : gen_dim(g, 40), values = g.raw(NUM_KINDS - 1);
    auto params = dyn::gen_params(g, kind);
    ctx.describe("dynamic index {} {} {}x{} {} {}:", type_name<T>(), dist_name(kind), n, d, kind_name(values), params.show());
    using Sim = dyn::Sim<T, D, dyn::PagedGraph>;
    auto sim = Sim(d, values, params, n + 100, g.seed());
    auto ids = sim.fresh(g, n);
    auto x = with_distances(matrix<T>(n, d, values, g.seed()), kind);
    auto alloc = Sim::blocks(g, d);
    auto data = [&] {
        auto b = typename Sim::Data(n, d, alloc);
        fill(b, x);
        return b;
    };
    auto a = typename Sim::Index(params.build(), data(), ids, D(), size_t(1));
    auto b = [&] {
        if constexpr (wrapped) {
            return svs::DynamicVamana(svs::DynamicVamana::AssembleTag(), types, typename Sim::Index(params.build(), data(), ids, D(), size_t(1)));
        } else {
            return svs::DynamicVamana::build<Types>(params.build(), data(), ids, D(), 1);
        }
    }();
    std::vector<size_t> live = ids, dead;
    std::sort(live.begin(), live.end());
    size_t next_id = 5000, updates = 0;
    auto facts = [&] {
        both_facts(a, b, types, live.size());
        VH_REQUIRE(concrete_ids(a) == live, "the concrete index holds {}", vh::show(concrete_ids(a), 20));
        auto all = b.all_ids();
        std::sort(all.begin(), all.end());
        VH_REQUIRE(all == live, "all_ids gives {} instead of {}", vh::show(all, 20), vh::show(live, 20));
        for (auto e : live) VH_REQUIRE(b.has_id(e), "id {} is missing", e);
        for (auto e : dead) VH_REQUIRE(b.has_id(e) == bool(std::binary_search(live.begin(), live.end(), e)), "id {} was deleted", e);
    };
    facts();
    size_t ops = g.range(2, 10);
    for (size_t i = 0; i < ops; ++i) {
        size_t k = g.range(1, 8), now = live.size();
        switch (g.raw(9)) {
            case 0: {
                vamana_settings(g, ctx, a, b, std::max<size_t>(now, 1));
                break;
            }
            case 1: {
                vamana_reconstruct(g, ctx, a, b, live, d);
                break;
            }
            case 2:
            case 3: {
                size_t m = g.skew(1, 15);
                auto p = matrix<float>(m, d, std::is_same_v<T, int8_t> ? 0 : values, g.seed());
                std::vector<size_t> fresh;
                for (size_t j = 0; j < m; ++j) fresh.push_back(next_id += g.range(1, 3));
                if (g.flip()) std::reverse(fresh.begin(), fresh.end());
                // An id deleted before may be used again.
                if (!dead.empty() && g.flip() && !std::binary_search(live.begin(), live.end(), dead.back())) fresh[0] = dead.back();
                bool bad = g.chance(1, 8) && !live.empty();
                if (bad) fresh[g.raw(m - 1)] = live[g.raw(now - 1)];
                ctx.trace(" add {}{}", m, bad ? " with one that is there" : "");
                bool ta = vh::throws([&] { a.add_points(p.view(), fresh); });
                bool tb = vh::throws([&] { auto& r = b.add_points(p.view(), fresh); VH_REQUIRE(&r == &b, "add_points returns another object"); });
                VH_REQUIRE(ta == bad && tb == bad, "adding an id that is there is{} refused (concretely{})", tb ? "" : " not", ta ? "" : " not");
                if (!bad) live.insert(live.end(), fresh.begin(), fresh.end());
                std::sort(live.begin(), live.end());
                ++updates;
                break;
            }
            case 4:
            case 5: {
                auto gone = live;
                vh::Stream s(g.seed());
                for (size_t j = gone.size(); j > 1; --j) std::swap(gone[j - 1], gone[s.below(j)]);
                gone.resize(std::min(gone.size(), g.chance(1, 10) ? gone.size() : g.skew(1, 12)));
                if (gone.size() == live.size()) break;
                ctx.trace(" delete {}", vh::show(gone, 5));
                a.delete_entries(gone);
                VH_REQUIRE(&b.delete_points(gone) == &b, "delete_points returns another object");
                for (auto e : gone) live.erase(std::find(live.begin(), live.end(), e));
                dead.insert(dead.end(), gone.begin(), gone.end());
                ++updates;
                break;
            }
            case 6: {
                bool compact = g.flip();
                ctx.trace(" consolidate{}", compact ? " and compact" : "");
                a.consolidate();
                b.consolidate();
                if (compact) {
                    size_t batch = g.pick<size_t>({1'000'000, 1, 3, 16});
                    a.compact(batch);
                    if (batch == 1'000'000) {
                        b.compact();
                    } else {
                        b.compact(batch);
                    }
                }
                break;
            }
            case 7: {
                auto p = erased::gen_search(g, std::max<size_t>(now, 1));
                if (g.flip()) {
                    refused_search<double>(g, b, d, k, p);
                    refused_calibration<uint16_t>(b, d);
                }
                if (g.chance(1, 3) && wrapped) {
                    ctx.trace(" save and load");
                    ctx.label("loaded");
                    auto dir = fs::path(ctx.scratch);
                    for (auto s : {"a", "b"}) {
                        fs::remove_all(dir / s);
                        fs::create_directories(dir / s);
                    }
                    a.save(dir / "a/config", dir / "a/graph", dir / "a/data");
                    b.save(dir / "b/config", dir / "b/graph", dir / "b/data");
                    for (auto part : {"graph", "data"}) VH_REQUIRE(file_bytes(dir / "a" / part) == file_bytes(dir / "b" / part), "another {} was saved", part);
                    // Both files load as the same index.
                    bool from_b = g.flip();
                    auto at = dir / (from_b ? "b" : "a");
                    b = svs::DynamicVamana::assemble<Types>(at / "config", lib::Lazy([&] { return dyn::PagedGraph::load(at / "graph"); }), lib::Lazy([&] { return Sim::Data::load(at / "data", alloc); }), D(), a.get_num_threads());
                }
                break;
            }
            default: {
                auto p = erased::gen_search(g, std::max<size_t>(now, 1));
                lib::for_each_type(types, [&]<typename Q>(lib::Type<Q>) {
                    auto q = matrix<Q>(g.range(1, 5), d, values == 2 ? 3 : values, g.seed());
                    ctx.trace(" search {} {} k={} {}", q.n, type_name<Q>(), k, erased::show(p));
                    both_search(a, b, q, k, p);
                });
            }
        }
        facts();
    }
    VH_REQUIRE(b.experimental_backend_string().find("MutableVamanaIndex") != std::string::npos, "the backend is called {}", b.experimental_backend_string());
    ctx.interesting(n > 3 && updates > 0);
}

// Threads do not change results; updates are compared with one thread only.
template <typename T, typename D, typename Types> void inverted(vh::Gen& g, vh::Ctx& ctx, Types types) {
    constexpr Dist kind = dist_tag<D>::value;
    size_t n = g.skew(7, 60), d = g.range(1, 10), values = g.raw(NUM_KINDS - 1);
    auto x = with_distances(matrix<T>(n, d, values, g.seed()), kind);
    auto params = dyn::gen_params(g, kind);
    auto cp = inv::ClusteringParameters();
    cp.percent_centroids_ = lib::Percent(double(g.range(15, 60)) / 100);
    cp.seed_ = g.seed();
    cp.epsilon_ = kind == Dist::L2 ? g.pick<float>({0.05f, 0.5f}) : 0.05f;
    cp.refinement_alpha_ = 1.0f;
    bool sparse = g.flip();
    ctx.describe("inverted index ({}) {} {} {}x{} {} centroids={}:", sparse ? "sparse" : "dense", type_name<T>(), dist_name(kind), n, d, kind_name(values), double(cp.percent_centroids_.value()));
    auto bp = inv::InvertedBuildParameters(cp, params.build());
    auto run = [&](auto strategy) {
        inv::Clustering<uint32_t> c;
        size_t calls = 0;
        auto a = inv::auto_build(bp, simple(x), D(), size_t(1), strategy, inv::PickRandomly(), inv::no_clustering_post_op);
        auto b = svs::Inverted::build<Types>(bp, simple(x), D(), size_t(1), strategy, inv::PickRandomly(), [&](const auto& made) {
            c = made;
            ++calls;
        });
        VH_REQUIRE(calls == 1, "the operation on the clustering was called {} times", calls);
        size_t ops = g.range(1, 6);
        for (size_t i = 0; i < ops; ++i) {
            auto p = inv::InvertedSearchParameters(erased::gen_search(g, n), g.pick<double>({10.0, 1.0, 1.2}));
            size_t k = g.range(1, 8);
            switch (g.raw(5)) {
                case 0:
                    ctx.trace(" set {}", erased::show(p.primary_parameters_));
                    a.set_search_parameters(p);
                    b.set_search_parameters(p);
                    VH_REQUIRE(b.get_search_parameters().primary_parameters_ == p.primary_parameters_ && b.get_search_parameters().refinement_epsilon_ == p.refinement_epsilon_, "search parameters");
                    break;
                case 1: both_threads(g, ctx, a, b); break;
                case 2: refused_search<double>(g, b, d, k, p); break;
                case 3: {
                    if (g.flip()) break;
                    ctx.trace(" save and load");
                    ctx.label("loaded");
                    auto dir = fs::path(ctx.scratch);
                    for (auto s : {"a", "b"}) {
                        fs::remove_all(dir / s);
                        fs::create_directories(dir / s);
                    }
                    a.save_primary_index(dir / "a/config", dir / "a/graph", dir / "a/data");
                    b.save_primary_index(dir / "b/config", dir / "b/graph", dir / "b/data");
                    for (auto part : {"graph", "data"}) VH_REQUIRE(file_bytes(dir / "a" / part) == file_bytes(dir / "b" / part), "another {} was saved", part);
                    lib::save_to_disk(c, dir / "b/clustering");
                    auto own = b.get_search_parameters();
                    b = svs::Inverted::assemble_from_clustering<Types>(dir / "b/clustering", simple(x), D(), dir / "b/config", dir / "b/graph", a.get_num_threads(), strategy);
                    b.set_search_parameters(own);
                    break;
                }
                default:
                    lib::for_each_type(types, [&]<typename Q>(lib::Type<Q>) {
                        auto q = matrix<Q>(g.range(1, 5), d, values == 2 ? 3 : values, g.seed());
                        ctx.trace(" search {} {} k={} {} epsilon={}", q.n, type_name<Q>(), k, erased::show(p.primary_parameters_), p.refinement_epsilon_);
                        both_search(a, b, q, k, p);
                    });
            }
            VH_REQUIRE(b.query_types() == list(types) && b.dimensions() == a.dimensions() && b.size() == a.size() && b.get_num_threads() == a.get_num_threads() && b.can_change_threads() == a.can_change_threads(), "facts of the index");
        }
        VH_REQUIRE(b.experimental_backend_string().find("InvertedIndex") != std::string::npos, "the backend is called {}", b.experimental_backend_string());
    };
    if (sparse) {
        run(inv::SparseStrategy());
    } else {
        run(inv::DenseStrategy());
    }
    ctx.interesting(n > 8);
}
} // namespace

VH_CASES("dynamic index float L2", 3) { dynamic<float, svs::DistanceL2>(g, ctx, Wrapped(), lib::Types<float, Float16>()); }
VH_CASES("dynamic index int8 IP", 2) { dynamic<int8_t, svs::DistanceIP>(g, ctx, Wrapped(), lib::Types<float>()); }
VH_CASES("dynamic index as built", 1) { dynamic<float, svs::DistanceL2>(g, ctx, Built(), lib::Types<float>()); }
VH_CASES("inverted float L2", 1) { inverted<float, svs::DistanceL2>(g, ctx, lib::Types<float, Float16>()); }
VH_CASES("inverted uint8 IP", 1) { inverted<uint8_t, svs::DistanceIP>(g, ctx, lib::Types<float>()); }
