// C10: indexes saved to disk and loaded again, next to the index that was saved.
#pragma once
#include "dynamic_sim.hpp"

#include "svs/index/inverted/clustering.h"
#include "svs/index/inverted/memory_based.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/index.h"
#include "svs/lib/saveload.h"

#include <fstream>

namespace c10 {
using namespace vg;
namespace vam = svs::index::vamana;
namespace inv = svs::index::inverted;
namespace lib = svs::lib;
namespace fs = std::filesystem;
using vam::VamanaSearchParameters;

inline std::string show(const VamanaSearchParameters& p) {
    return fmt::format("window={} capacity={} visited={} prefetch={}/{}", p.buffer_config_.get_search_window_size(), p.buffer_config_.get_total_capacity(), p.search_buffer_visited_set_, p.prefetch_lookahead_, p.prefetch_step_);
}
inline std::string show(const vam::VamanaBuildParameters& p) {
    return fmt::format("alpha={} degree={} window={} candidates={} prune_to={} history={}", p.alpha, p.graph_max_degree, p.window_size, p.max_candidate_pool_size, p.prune_to, p.use_full_search_history);
}
inline VamanaSearchParameters gen_search(vh::Gen& g, size_t n) {
    size_t w = g.flip() ? n + 1 : g.skew(1, n + 3), c = g.flip() ? w : w + g.skew(0, n);
    return VamanaSearchParameters({w, c}, g.flip(), g.pick<size_t>({4, 0, 1, 7, 100}), g.pick<size_t>({1, 0, 2, 9}));
}
// Settings that are not what the index was built with.
template <typename Index> void other_settings(vh::Gen& g, vh::Ctx& ctx, Index& index, Dist kind) {
    float alpha = ascending(kind) ? g.pick<float>({1.31f, 1.0f, 1.7f}) : g.pick<float>({0.87f, 1.0f, 0.5f});
    size_t window = g.skew(1, 70), cand = g.skew(1, 90);
    bool history = g.flip();
    ctx.trace(" set alpha={} window={} candidates={} history={}", alpha, window, cand, history);
    index.set_alpha(alpha);
    index.set_construction_window_size(window);
    index.set_max_candidates(cand);
    index.set_full_search_history(history);
}

struct Found {
    std::vector<size_t> ids{};
    std::vector<float> dists{};
    bool operator==(const Found& o) const {
        return ids == o.ids && std::memcmp(dists.data(), o.dists.data(), dists.size() * sizeof(float)) == 0;
    }
    std::string show() const { return fmt::format("ids {} at {}", vh::show(ids, 12), vh::show(dists, 12)); }
};
template <typename Index, typename Q, typename P> Found find(Index& index, const Mat<Q>& q, size_t k, const P& p) {
    auto r = svs::QueryResult<size_t>(q.n, k);
    index.search(r.view(), q.view(), p);
    Found f;
    for (size_t i = 0; i < q.n; ++i) {
        for (size_t j = 0; j < k; ++j) {
            f.ids.push_back(r.index(i, j));
            // Entries without a neighbor have no distance to compare.
            f.dists.push_back(f.ids.back() == std::numeric_limits<size_t>::max() ? 0 : r.distance(i, j));
        }
    }
    return f;
}

// A handful of searches, to be compared between indexes.
template <typename Q, typename P> struct Probe {
    Mat<Q> q;
    std::vector<std::pair<size_t, P>> settings{};
    template <typename Index> std::vector<Found> operator()(Index& index) const {
        std::vector<Found> out;
        for (auto& [k, p] : settings) out.push_back(find(index, q, k, p));
        auto own = index.get_search_parameters();
        out.push_back(find(index, q, settings.front().first, own));
        return out;
    }
};
template <typename Q> Probe<Q, VamanaSearchParameters> gen_probe(vh::Gen& g, size_t n, size_t d, size_t values) {
    Probe<Q, VamanaSearchParameters> p{matrix<Q>(g.range(1, 5), d, values, g.seed())};
    for (size_t i = 0, m = g.range(1, 3); i < m; ++i) p.settings.push_back({g.range(1, std::min<size_t>(n + 2, 10)), gen_search(g, n)});
    return p;
}
inline void same(const std::vector<Found>& a, const std::vector<Found>& b, const char* what) {
    VH_REQUIRE(a.size() == b.size(), "{}: {} and {} searches", what, a.size(), b.size());
    for (size_t i = 0; i < a.size(); ++i) VH_REQUIRE(a[i] == b[i], "{}: search {} gives {} and then {}", what, i, a[i].show(), b[i].show());
}

// What is on the disk, without the randomly named files.
template <typename T> struct OnDisk {
    Adj adj{};
    Mat<T> rows{};
    vam::VamanaIndexParameters config{0, {}, {}};
    size_t degree = 0;
    static OnDisk read(const fs::path& dir, bool dynamic = false) {
        OnDisk o;
        auto graph = svs::graphs::SimpleGraph<uint32_t>::load(dir / "graph");
        o.degree = graph.max_degree();
        o.adj.resize(graph.n_nodes());
        for (size_t i = 0; i < o.adj.size(); ++i) {
            auto l = graph.get_node(i);
            o.adj[i].assign(l.begin(), l.end());
        }
        auto data = lib::load_from_disk<svs::data::SimpleData<T>>(dir / "data");
        o.rows = Mat<T>(data.size(), data.dimensions());
        for (size_t i = 0; i < data.size(); ++i) std::copy_n(data.get_datum(i).begin(), data.dimensions(), o.rows.row(i));
        if (dynamic) {
            o.config = lib::load_from_disk<vam::detail::VamanaStateLoader>(dir / "config", false, size_t(0)).parameters_;
        } else {
            o.config = lib::load_from_disk<vam::VamanaIndexParameters>(dir / "config");
        }
        return o;
    }
};
template <typename T> void same(const OnDisk<T>& a, const OnDisk<T>& b, const char* what) {
    VH_REQUIRE(a.adj == b.adj && a.degree == b.degree, "{}: another graph", what);
    VH_REQUIRE(a.rows.n == b.rows.n && a.rows.d == b.rows.d && (a.rows.v.empty() || std::memcmp(a.rows.v.data(), b.rows.v.data(), a.rows.v.size() * sizeof(T)) == 0), "{}: other vectors", what);
    VH_REQUIRE(a.config == b.config, "{}: entry {} {} {} and entry {} {} {}", what, a.config.entry_point, show(a.config.build_parameters), show(a.config.search_parameters), b.config.entry_point, show(b.config.build_parameters), show(b.config.search_parameters));
}

// Where an index is saved: a new directory, or one that holds another index; with or without directories for its parts.
struct Place {
    fs::path dir;
    fs::path config() const { return dir / "config"; }
    fs::path graph() const { return dir / "graph"; }
    fs::path data() const { return dir / "data"; }
};
template <typename Other> Place gen_place(vh::Gen& g, vh::Ctx& ctx, const char* name, const Other& save_other) {
    Place p{fs::path(ctx.scratch) / name};
    fs::remove_all(p.dir);
    fs::create_directories(p.dir);
    switch (g.raw(2)) {
        case 0: break;
        case 1:
            for (auto& sub : {p.config(), p.graph(), p.data()}) fs::create_directories(sub);
            break;
        default:
            ctx.trace(" over another index");
            ctx.label("over another index");
            save_other(p);
    }
    return p;
}
inline Place moved(vh::Gen& g, vh::Ctx& ctx, Place p) {
    if (!g.chance(1, 3)) return p;
    ctx.trace(" moved");
    ctx.label("moved");
    Place to{p.dir};
    to.dir += "_elsewhere";
    fs::remove_all(to.dir);
    if (g.flip()) {
        fs::rename(p.dir, to.dir);
    } else {
        fs::copy(p.dir, to.dir, fs::copy_options::recursive);
        fs::remove_all(p.dir);
    }
    return to;
}

template <typename T> using Blocked = svs::data::BlockedData<T, svs::Dynamic, svs::HugepageAllocator<T>>;
template <typename T> typename Blocked<T>::allocator_type blocks(size_t d) {
    size_t log2 = 3;
    while ((size_t(1) << log2) < 3 * d * sizeof(T)) ++log2;
    return typename Blocked<T>::allocator_type(svs::data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(log2)});
}

template <typename T, typename Q, typename D> void statics(vh::Gen& g, vh::Ctx& ctx) {
    constexpr Dist kind = dist_tag<D>::value;
    size_t n = g.skew(1, 90), d = g.flip() ? g.range(1, 10) : gen_dim(g, 60), values = g.raw(NUM_KINDS - 1);
    auto x = with_distances(matrix<T>(n, d, values, g.seed()), kind);
    auto params = dyn::gen_params(g, kind).build();
    size_t threads = gen_few_threads(g), threads2 = gen_few_threads(g);
    auto sp = gen_search(g, n);
    ctx.describe("static index {} {} queries {} {}x{} {} {} threads={}: {}", type_name<T>(), dist_name(kind), type_name<Q>(), n, d, kind_name(values), c10::show(params), threads, c10::show(sp));
    auto index = vam::auto_build(params, simple(x), D(), size_t(threads));
    if (g.flip()) other_settings(g, ctx, index, kind);
    index.set_search_parameters(sp);
    auto probe = gen_probe<Q>(g, n, d, values);
    auto before = probe(index);
    auto other = [&](const Place& p) {
        auto o = vam::auto_build(dyn::gen_params(g, kind).build(), simple(matrix<T>(g.range(1, 30), g.range(1, 12), 0, g.seed())), D(), size_t(1));
        o.save(p.config(), p.graph(), p.data());
    };
    auto place = gen_place(g, ctx, "saved", other);
    index.save(place.config(), place.graph(), place.data());
    same(before, probe(index), "the index that was saved");
    VH_REQUIRE(index.size() == n && index.dimensions() == d && index.get_search_parameters() == sp, "saving changed the index");
    auto first = OnDisk<T>::read(place.dir);
    VH_REQUIRE(first.rows.n == n && first.rows.d == d && std::memcmp(first.rows.v.data(), x.v.data(), n * d * sizeof(T)) == 0, "the saved vectors are not those of the index");
    VH_REQUIRE(first.degree == index.max_degree() && first.config.build_parameters.alpha == index.get_alpha() && first.config.build_parameters.window_size == index.get_construction_window_size() && first.config.build_parameters.max_candidate_pool_size == index.get_max_candidates() && first.config.build_parameters.use_full_search_history == index.get_full_search_history() && first.config.build_parameters.prune_to == params.prune_to && first.config.build_parameters.graph_max_degree == params.graph_max_degree, "saved {} for {}", c10::show(first.config.build_parameters), c10::show(params));
    VH_REQUIRE(first.config.search_parameters == sp, "saved {} for {}", c10::show(first.config.search_parameters), c10::show(sp));
    place = moved(g, ctx, place);
    auto again = [&](auto&& loaded, const char* how) {
        ctx.trace(" load {} threads={}", how, threads2);
        ctx.label(how);
        VH_REQUIRE(loaded.size() == n && loaded.dimensions() == d && loaded.get_num_threads() == threads2, "loaded {}: {}x{} with {} threads", how, loaded.size(), loaded.dimensions(), loaded.get_num_threads());
        VH_REQUIRE(loaded.max_degree() == index.max_degree() && loaded.get_alpha() == index.get_alpha() && loaded.get_construction_window_size() == index.get_construction_window_size() && loaded.get_max_candidates() == index.get_max_candidates() && loaded.get_full_search_history() == index.get_full_search_history(), "loaded {}: other build parameters", how);
        VH_REQUIRE(loaded.get_search_parameters() == sp, "loaded {}: {}", how, c10::show(loaded.get_search_parameters()));
        same(before, probe(loaded), how);
        Mat<T> rows(n, d);
        std::vector<uint32_t> ids(n);
        std::iota(ids.begin(), ids.end(), 0);
        loaded.reconstruct_at(svs::data::SimpleDataView<T>(rows.v.data(), n, d), std::span<const uint32_t>(ids));
        VH_REQUIRE(std::memcmp(rows.v.data(), x.v.data(), n * d * sizeof(T)) == 0, "loaded {}: other vectors", how);
        if (g.flip()) {
            auto second = gen_place(g, ctx, "again", other);
            loaded.save(second.config(), second.graph(), second.data());
            same(first, OnDisk<T>::read(second.dir), "saved again");
            auto third = vam::auto_assemble(second.config(), svs::GraphLoader(second.graph()), svs::VectorDataLoader<T>(second.data()), D(), size_t(1));
            same(before, probe(third), "loaded twice");
        }
        // It is an index of its own.
        loaded.set_search_parameters(gen_search(g, n));
        loaded.reset_performance_parameters();
        VH_REQUIRE(index.get_search_parameters() == sp, "settings of the loaded index reach the saved one");
    };
    switch (g.raw(3)) {
        case 0: again(vam::auto_assemble(place.config(), svs::GraphLoader(place.graph()), svs::VectorDataLoader<T>(place.data()), D(), size_t(threads2)), "from loaders"); break;
        case 1: again(vam::auto_assemble(place.config(), lib::Lazy([&] { return dyn::PagedGraph::load(place.graph()); }), lib::Lazy([&] { return Blocked<T>::load(place.data(), blocks<T>(d)); }), D(), size_t(threads2)), "in blocks"); break;
        case 2: again(vam::auto_assemble(place.config(), svs::graphs::SimpleGraph<uint32_t>::load(place.graph()), svs::data::SimpleData<T>::load(place.data()), D(), svs::threads::NativeThreadPool(threads2)), "from objects"); break;
        default: again(vam::auto_assemble(place.config(), svs::GraphLoader(place.graph()), svs::data::SimpleData<T, svs::Dynamic, lib::Allocator<T>>::load(place.data()), D(), size_t(threads2)), "with another allocator"); break;
    }
    // Later changes of the files do not reach what was loaded or saved.
    ctx.interesting(n > 3 && params.graph_max_degree > 1);
}

template <typename T, typename D> void dynamics(vh::Gen& g, vh::Ctx& ctx) {
    constexpr Dist kind = dist_tag<D>::value;
    size_t n = g.chance(1, 12) ? 0 : g.skew(1, 60), d = g.flip() ? g.range(1, 8) : gen_dim(g, 40), values = g.raw(NUM_KINDS - 1);
    auto params = dyn::gen_params(g, kind);
    // With one thread, updates of the loaded and of the saved index agree.
    size_t threads = gen_few_threads(g), threads2 = gen_few_threads(g);
    ctx.describe("dynamic index {} {} {}x{} {} {} threads={}:", type_name<T>(), dist_name(kind), n, d, kind_name(values), params.show(), threads);
    using Sim = dyn::Sim<T, D, dyn::PagedGraph>;
    using Data = typename Sim::Data;
    auto sim = Sim(d, values, params, n + 200, g.seed());
    sim.build(g, n, sim.fresh(g, n), threads);
    size_t ops = g.range(0, 4), dels = 0;
    bool holes = false;
    for (size_t i = 0; i < ops; ++i) {
        switch (g.raw(3)) {
            case 0: {
                size_t m = g.skew(1, 20);
                auto ids = sim.fresh(g, m);
                ctx.trace(" add {}", m);
                sim.add(sim.take(m), ids);
                break;
            }
            case 1:
            case 2: {
                auto ids = sim.some_ids(g, g.chance(1, 10) ? sim.model.size() : g.skew(1, 15));
                ctx.trace(" delete {}", vh::show(ids, 5));
                sim.remove(ids);
                dels += ids.size();
                holes |= !ids.empty();
                break;
            }
            default:
                ctx.trace(" consolidate");
                sim.consolidate();
        }
    }
    auto& index = *sim.index;
    if (g.flip()) other_settings(g, ctx, index, kind);
    size_t now = sim.model.size();
    auto sp = gen_search(g, std::max<size_t>(now, 1));
    index.set_search_parameters(sp);
    auto probe = gen_probe<float>(g, std::max<size_t>(now, 1), d, values == 2 ? 3 : values);
    bool clean = sim.soft == 0;
    auto start = probe(index);
    auto other = [&](const Place& p) {
        auto o = Sim(g.range(1, 9), 0, dyn::gen_params(g, kind), 40, g.seed());
        size_t m = g.range(1, 20);
        o.build(g, m, o.fresh(g, m), 1);
        o.index->save(p.config(), p.graph(), p.data());
    };
    auto place = gen_place(g, ctx, "saved", other);
    index.save(place.config(), place.graph(), place.data());
    sim.soft = 0;
    ctx.trace(" saved");
    sim.check_contents(g, "saving");
    VH_REQUIRE(index.get_search_parameters() == sp, "saving changed the search parameters");
    auto before = probe(index);
    if (clean) same(start, before, "saving an index without deletions");
    auto first = OnDisk<T>::read(place.dir, true);
    VH_REQUIRE(first.rows.n == now && first.rows.d == d && first.adj.size() == now, "saved {}x{} vectors and {} vertices for {} entries", first.rows.n, first.rows.d, first.adj.size(), now);
    VH_REQUIRE(first.adj == sim.adjacency() && (now == 0 || first.config.entry_point == index.entry_point()), "the saved graph is not that of the index");
    VH_REQUIRE(first.config.build_parameters.prune_to == params.prune_to && first.config.build_parameters.graph_max_degree == params.degree, "saved {} for {}", c10::show(first.config.build_parameters), params.show());
    place = moved(g, ctx, place);
    auto loaded = vam::auto_dynamic_assemble(place.config(), lib::Lazy([&] { return dyn::PagedGraph::load(place.graph()); }), lib::Lazy([&] { return Data::load(place.data(), sim.alloc); }), D(), threads2);
    ctx.trace(" loaded threads={}", threads2);
    VH_REQUIRE(loaded.size() == now && (now == 0 || loaded.dimensions() == d) && loaded.get_num_threads() == threads2, "loaded {}x{} with {} threads", loaded.size(), loaded.dimensions(), loaded.get_num_threads());
    VH_REQUIRE(loaded.get_search_parameters() == sp, "loaded {}", c10::show(loaded.get_search_parameters()));
    VH_REQUIRE(loaded.max_degree() == index.max_degree() && loaded.get_alpha() == index.get_alpha() && loaded.get_construction_window_size() == index.get_construction_window_size() && loaded.get_max_candidates() == index.get_max_candidates() && loaded.get_full_search_history() == index.get_full_search_history(), "other build parameters");
    for (auto e : sim.ids()) VH_REQUIRE(loaded.has_id(e) && loaded.translate_external_id(e) == index.translate_external_id(e), "id {} is not where it was", e);
    same(before, probe(loaded), "the loaded index");
    // Both go on in step.
    index.set_num_threads(1);
    loaded.set_num_threads(1);
    size_t steps = g.range(0, 4);
    for (size_t i = 0; i < steps; ++i) {
        switch (g.raw(3)) {
            case 0: {
                size_t m = g.skew(1, 12);
                auto ids = sim.fresh(g, m);
                auto more = sim.take(m);
                ctx.trace(" both add {}", m);
                sim.add(more, ids);
                loaded.add_points(more.view(), ids);
                break;
            }
            case 1: {
                auto ids = sim.some_ids(g, g.skew(1, 12));
                ctx.trace(" both delete {}", vh::show(ids, 5));
                sim.remove(ids);
                loaded.delete_entries(ids);
                break;
            }
            case 2:
                ctx.trace(" both consolidate");
                sim.consolidate();
                loaded.consolidate();
                break;
            default: {
                ctx.trace(" both are saved");
                for (bool which : {false, true}) {
                    auto p = Place{fs::path(ctx.scratch) / (which ? "b" : "a")};
                    fs::create_directories(p.dir);
                    if (which) {
                        loaded.save(p.config(), p.graph(), p.data());
                    } else {
                        index.save(p.config(), p.graph(), p.data());
                    }
                }
                sim.soft = 0;
                auto a = OnDisk<T>::read(fs::path(ctx.scratch) / "a", true), b = OnDisk<T>::read(fs::path(ctx.scratch) / "b", true);
                if (sim.model.empty()) a.config.entry_point = b.config.entry_point = 0;
                same(a, b, "both saved again");
            }
        }
        VH_REQUIRE(loaded.size() == sim.model.size(), "{} and {} entries", loaded.size(), sim.model.size());
        for (auto& [e, v] : sim.model) {
            VH_REQUIRE(loaded.has_id(e), "id {} is missing in the loaded index", e);
            auto r = loaded.get_datum(e);
            VH_REQUIRE(std::memcmp(r.data(), v.data(), d * sizeof(T)) == 0, "id {} has another vector in the loaded index", e);
        }
        same(probe(index), probe(loaded), "after updates");
    }
    if (steps) ctx.label("updated further");
    if (now == 0) ctx.label("nothing in it");
    ctx.interesting(now > 3 && (dels > 0 || steps > 0));
}

template <typename T, typename D> void from_static(vh::Gen& g, vh::Ctx& ctx) {
    constexpr Dist kind = dist_tag<D>::value;
    size_t n = g.skew(1, 60), d = g.range(1, 8), values = g.raw(NUM_KINDS - 1);
    auto x = with_distances(matrix<T>(n, d, values, g.seed()), kind);
    auto params = dyn::gen_params(g, kind);
    ctx.describe("static index {} {} {}x{} {} {} loaded as a dynamic one", type_name<T>(), dist_name(kind), n, d, kind_name(values), params.show());
    auto index = vam::auto_build(params.build(), simple(x), D(), size_t(1));
    auto sp = gen_search(g, n);
    index.set_search_parameters(sp);
    Place p{fs::path(ctx.scratch) / "static"};
    fs::create_directories(p.dir);
    index.save(p.config(), p.graph(), p.data());
    auto loaded = vam::auto_dynamic_assemble(p.config(), lib::Lazy([&] { return dyn::PagedGraph::load(p.graph()); }), lib::Lazy([&] { return Blocked<T>::load(p.data(), blocks<T>(d)); }), D(), gen_few_threads(g), true);
    VH_REQUIRE(loaded.size() == n && loaded.dimensions() == d && loaded.get_search_parameters() == sp && loaded.get_alpha() == params.alpha && loaded.get_construction_window_size() == params.window && loaded.get_max_candidates() == params.candidates && loaded.get_full_search_history() == params.history && loaded.max_degree() == params.degree, "the dynamic index has other parameters");
    for (size_t i = 0; i < n; ++i) {
        VH_REQUIRE(loaded.has_id(i) && loaded.translate_external_id(i) == i && std::memcmp(loaded.get_datum(i).data(), x.row(i), d * sizeof(T)) == 0, "vector {} is not there", i);
    }
    auto f = gen_probe<float>(g, n, d, values == 2 ? 3 : values);
    // Windows of the whole index: both find everything that can be reached.
    for (auto& [k, s] : f.settings) s.buffer_config({n + 5, n + 5});
    auto a = f(index), b = f(loaded);
    a.pop_back(), b.pop_back();
    same(a, b, "static and dynamic");
    ctx.interesting(n > 3 && params.degree > 1);
}

template <typename T, typename D> void inverted(vh::Gen& g, vh::Ctx& ctx) {
    constexpr Dist kind = dist_tag<D>::value;
    size_t n = g.skew(7, 80), d = g.range(1, 10), values = g.raw(NUM_KINDS - 1);
    auto x = with_distances(matrix<T>(n, d, values, g.seed()), kind);
    auto params = dyn::gen_params(g, kind);
    auto cp = inv::ClusteringParameters();
    cp.percent_centroids_ = lib::Percent(double(g.range(15, 60)) / 100);
    cp.seed_ = g.seed();
    cp.epsilon_ = kind == Dist::L2 ? g.pick<float>({0.05f, 0.5f}) : 0.05f;
    cp.refinement_alpha_ = kind == Dist::L2 ? 1.0f : 1.0f;
    size_t threads = gen_few_threads(g), threads2 = gen_few_threads(g);
    bool sparse = g.flip();
    ctx.describe("inverted index ({}) {} {} {}x{} {} {} centroids={} threads={}", sparse ? "sparse" : "dense", type_name<T>(), dist_name(kind), n, d, kind_name(values), params.show(), double(cp.percent_centroids_.value()), threads);
    auto bp = inv::InvertedBuildParameters(cp, params.build());
    auto sp = gen_search(g, n);
    auto p = inv::InvertedSearchParameters(sp, g.pick<double>({10.0, 1.0, 1.2}));
    auto probe = Probe<float, inv::InvertedSearchParameters>{matrix<float>(g.range(1, 5), d, values == 2 ? 3 : values, g.seed())};
    probe.settings.push_back({g.range(1, 10), p});
    probe.settings.push_back({g.range(1, 10), inv::InvertedSearchParameters(gen_search(g, n), 1.5)});
    auto run = [&](auto strategy) {
        inv::Clustering<uint32_t> c;
        auto index = inv::auto_build(bp, simple(x), D(), size_t(threads), strategy, inv::PickRandomly(), [&](const auto& made) { c = made; });
        index.set_search_parameters(p);
        auto before = probe(index);
        Place place{fs::path(ctx.scratch) / "inverted"};
        fs::remove_all(place.dir);
        fs::create_directories(place.dir);
        if (g.flip()) {
            auto o = vam::auto_build(dyn::gen_params(g, kind).build(), simple(matrix<T>(g.range(1, 30), g.range(1, 12), 0, g.seed())), D(), size_t(1));
            o.save(place.config(), place.graph(), place.data());
        }
        index.save_primary_index(place.config(), place.graph(), place.data());
        lib::save_to_disk(c, place.dir / "clustering");
        lib::save_to_disk(simple(x), place.dir / "vectors");
        same(before, probe(index), "the index that was saved");
        auto first = OnDisk<T>::read(place.dir);
        VH_REQUIRE(first.rows.n == c.size() && first.config.search_parameters == sp, "{} vectors and {} were saved for {} centroids", first.rows.n, c10::show(first.config.search_parameters), c.size());
        place = moved(g, ctx, place);
        auto loaded = inv::assemble_from_clustering(place.dir / "clustering", svs::VectorDataLoader<T>(place.dir / "vectors"), D(), strategy, place.config(), place.graph(), threads2);
        VH_REQUIRE(loaded.get_num_threads() == threads2 && loaded.dimensions() == d && loaded.size() == index.size(), "{} threads, {} dimensions", loaded.get_num_threads(), loaded.dimensions());
        loaded.set_search_parameters(p);
        same(before, probe(loaded), "the loaded index");
        Place second{fs::path(ctx.scratch) / "again"};
        fs::create_directories(second.dir);
        loaded.save_primary_index(second.config(), second.graph(), second.data());
        same(first, OnDisk<T>::read(second.dir), "the primary index saved again");
    };
    if (sparse) {
        run(inv::SparseStrategy());
    } else {
        run(inv::DenseStrategy());
    }
    ctx.interesting(n > 8);
}
} // namespace c10
