// C16: clusterings and inverted-file search.
#pragma once
#include "svsgen.hpp"
#include "vamana_model.hpp"

#include "svs/core/data.h"
#include "svs/core/graph.h"
#include "svs/index/index.h"
#include "svs/index/inverted/clustering.h"
#include "svs/index/inverted/memory_based.h"
#include "svs/index/vamana/index.h"

#include <map>
#include <set>

namespace c16 {
using namespace vg;
namespace inv = svs::index::inverted;
namespace vam = svs::index::vamana;
namespace fs = std::filesystem;
using Clustering = inv::Clustering<uint32_t>;
using Centroids = std::vector<uint32_t, svs::lib::Allocator<uint32_t>>;

// Centroids chosen by the caller.
struct Given {
    Centroids ids;
    template <typename Data> Centroids operator()(const Data&, const inv::ClusteringParameters&, size_t) const { return ids; }
};
struct Keep {
    Clustering* out;
    void operator()(const Clustering& c) const { *out = c; }
};

template <typename T, typename D> struct World {
    static constexpr Dist kind = dist_tag<D>::value;
    using Data = svs::data::SimpleData<T>;
    size_t n, d, values;
    Mat<T> x;
    Centroids centroids;
    inv::ClusteringParameters params;
    vam::VamanaBuildParameters primary;
    size_t threads;
    bool pick_randomly;

    double dist(const T* a, const T* b) const { return ref_distance(kind, a, b, d).value; }

    std::string show() const {
        return fmt::format(
            "{} {} n={} d={} {} centroids={} epsilon={} replicas={} max_size={} batch={} window={} intermediate={} alpha={} primary(alpha={} degree={} window={}) threads={}",
            type_name<T>(), dist_name(kind), n, d, kind_name(values), centroids.size(), params.epsilon_, params.max_replicas_, params.max_cluster_size_,
            params.batchsize_, params.search_window_size_, params.num_intermediate_results_, params.refinement_alpha_, primary.alpha,
            primary.graph_max_degree, primary.window_size, threads
        );
    }

    explicit World(vh::Gen& g) {
        n = g.chance(1, 40) ? g.range(300, 800) : g.skew(4, 160);
        d = g.range(1, 12);
        values = g.raw(NUM_KINDS - 1);
        x = matrix<T>(n, d, values, g.seed());
        threads = gen_few_threads(g);
        params.seed_ = g.seed();
        size_t many = g.range(1, std::max<size_t>(1, std::min<size_t>(n / 2, 40)));
        double percent = (double(many) + 0.5) / double(n);
        params.percent_centroids_ = svs::lib::Percent(percent);
        pick_randomly = g.flip();
        if (pick_randomly) {
            centroids = inv::randomly_select_centroids(n, many, params.seed_, svs::lib::Type<uint32_t>());
            VH_REQUIRE(centroids.size() == many, "{} centroids picked instead of {}", centroids.size(), many);
            VH_REQUIRE(std::is_sorted(centroids.begin(), centroids.end()), "the centroids picked are not sorted");
            VH_REQUIRE(std::adjacent_find(centroids.begin(), centroids.end()) == centroids.end(), "a centroid is picked twice");
            VH_REQUIRE(centroids.back() < n, "centroid {} of {} vectors", centroids.back(), n);
        } else {
            std::vector<uint32_t> all(n);
            std::iota(all.begin(), all.end(), 0);
            vh::Stream s(g.seed());
            for (size_t i = n; i > 1; --i) {
                std::swap(all[i - 1], all[s.below(i)]);
            }
            std::sort(all.begin(), all.begin() + many);
            centroids.assign(all.begin(), all.begin() + many);
        }
        params.epsilon_ = g.pick<double>({0.05, 0.0, 0.5, 3.0});
        params.max_replicas_ = g.pick<size_t>({8, 0, 1, 2});
        params.max_cluster_size_ = 0;
        params.batchsize_ = g.flip() ? 100000 : g.skew(1, n);
        params.num_intermediate_results_ = g.pick<size_t>({20, 1, 2, 5});
        params.search_window_size_ = g.flip() ? many + 5 : g.range(1, 20);
        params.refinement_alpha_ = ascending(kind) ? g.pick<double>({1.0, 1.2}) : g.pick<double>({1.0, 0.9});
        primary.alpha = ascending(kind) ? 1.2f : 0.95f;
        primary.graph_max_degree = g.pick<size_t>({32, 4, 8});
        primary.window_size = g.pick<size_t>({40, 10});
        primary.max_candidate_pool_size = 2 * primary.window_size;
        primary.prune_to = primary.graph_max_degree;
        primary.use_full_search_history = g.flip();
    }

    Data data() const { return simple(x); }
    auto primary_index(size_t nthreads) const {
        return inv::build_primary_index(data(), svs::lib::as_const_span(centroids), primary, D(), svs::threads::NativeThreadPool(nthreads));
    }

    void check_clustering(const Clustering& c, const inv::ClusteringParameters& p, bool complete) const {
        std::set<uint32_t> is_centroid(centroids.begin(), centroids.end());
        VH_REQUIRE(c.size() == centroids.size(), "{} clusters for {} centroids", c.size(), centroids.size());
        auto sorted = c.sorted_centroids();
        VH_REQUIRE(std::equal(sorted.begin(), sorted.end(), is_centroid.begin(), is_centroid.end()), "the clusters have other centroids: {}", vh::show(sorted));
        std::vector<size_t> times(n, 0);
        std::vector<std::vector<std::pair<uint32_t, float>>> in(n);
        size_t visited = 0;
        c.for_each_cluster([&](const auto& cluster) {
            VH_REQUIRE(cluster.centroid() == sorted[visited], "for_each_cluster visits {} in place {}", cluster.centroid(), visited);
            ++visited;
            std::set<uint32_t> seen;
            float last = 0;
            bool first = true;
            for (auto& e : cluster) {
                VH_REQUIRE(e.id() < n, "cluster {} holds {} of {}", cluster.centroid(), e.id(), n);
                VH_REQUIRE(!is_centroid.count(e.id()), "cluster {} holds the centroid {}", cluster.centroid(), e.id());
                VH_REQUIRE(seen.insert(e.id()).second, "cluster {} holds {} twice", cluster.centroid(), e.id());
                auto r = ref_distance(kind, x.row(e.id()), x.row(cluster.centroid()), d);
                VH_REQUIRE(std::abs(e.distance() - r.value) <= r.tol, "cluster {} holds {} at {}, the distance is {}", cluster.centroid(), e.id(), e.distance(), r.value);
                VH_REQUIRE(first || !nearer(kind, e.distance(), last), "cluster {} is not sorted: {} then {}", cluster.centroid(), last, e.distance());
                first = false;
                last = e.distance();
                ++times[e.id()];
                in[e.id()].push_back({cluster.centroid(), e.distance()});
            }
            VH_REQUIRE(p.max_cluster_size_ == 0 || cluster.size() <= p.max_cluster_size_, "cluster {} has {} elements, the limit is {}", cluster.centroid(), cluster.size(), p.max_cluster_size_);
        });
        size_t total = 0;
        auto histogram = c.leaf_histogram();
        auto packed = c.packed_leaf_translation();
        std::set<uint32_t> slots;
        for (size_t i = 0; i < n; ++i) {
            total += times[i];
            size_t h = histogram.contains(i) ? histogram.at(i) : 0;
            VH_REQUIRE(h == times[i], "leaf_histogram counts {} of vector {} instead of {}", h, i, times[i]);
            VH_REQUIRE(packed.contains(i) == (times[i] > 0), "packed_leaf_translation of vector {}", i);
            if (times[i]) {
                VH_REQUIRE(slots.insert(packed.at(i)).second && packed.at(i) < packed.size(), "packed_leaf_translation puts vector {} in slot {}", i, packed.at(i));
            }
            VH_REQUIRE(c.contains(i) == (is_centroid.count(i) > 0), "contains({})", i);
            if (is_centroid.count(i)) {
                continue;
            }
            VH_REQUIRE(times[i] >= 1, "vector {} is in no cluster", i);
            VH_REQUIRE(times[i] <= p.max_replicas_ + 1, "vector {} is in {} clusters, {} replicas are allowed", i, times[i], p.max_replicas_);
            // Its nearest centroid is among them, and no replica is too far.
            double best = ascending(kind) ? 1e300 : -1e300;
            double slack = 0;
            for (auto k : centroids) {
                auto r = ref_distance(kind, x.row(i), x.row(k), d);
                if (nearer(kind, r.value, best)) {
                    best = r.value;
                    slack = r.tol;
                }
            }
            double nearest = in[i][0].second, farthest = nearest;
            for (auto& [k, v] : in[i]) {
                nearest = nearer(kind, v, nearest) ? v : nearest;
                farthest = nearer(kind, v, farthest) ? farthest : v;
            }
            if (complete && p.max_cluster_size_ == 0) {
                VH_REQUIRE(std::abs(nearest - best) <= 2 * slack + 1e-5 * std::abs(best), "vector {} is assigned to a centroid at {}, the nearest is at {}", i, nearest, best);
            }
            if (p.max_cluster_size_ == 0) {
                double bound = ascending(kind) ? nearest * (1 + p.epsilon_) : nearest > 0 ? nearest / (1 + p.epsilon_) : nearest * (1 + p.epsilon_);
                double over = ascending(kind) ? farthest - bound : bound - farthest;
                VH_REQUIRE(over <= 1e-5 * (std::abs(bound) + std::abs(nearest)), "vector {} is assigned to centroids at {} and at {}, beyond the bound {}", i, nearest, farthest, bound);
            }
        }
        auto stats = c.statistics();
        VH_REQUIRE(stats.num_clusters_ == c.size() && stats.num_leaves_ == total, "statistics: {} clusters, {} leaves", stats.num_clusters_, stats.num_leaves_);
        std::vector<uint32_t> rest;
        for (size_t i = 0; i < n; ++i) {
            if (!is_centroid.count(i)) {
                rest.push_back(i);
            }
        }
        VH_REQUIRE(c.complement(n) == rest, "complement() is {}", vh::show(c.complement(n)));
    }

    bool all_reachable(const Adj& adj, size_t entry) const {
        for (auto r : reachable(adj, entry)) {
            if (!r) {
                return false;
            }
        }
        return true;
    }
};

template <typename Index> std::pair<Adj, size_t> graph_of(const Index& index, const fs::path& dir) {
    // Only the file format gives access to the graph of a static index.
    fs::remove_all(dir);
    fs::create_directories(dir);
    index.save(dir / "c", dir / "g", dir / "d");
    auto g = svs::graphs::SimpleGraph<uint32_t>::load(dir / "g");
    Adj adj(g.n_nodes());
    for (size_t i = 0; i < adj.size(); ++i) {
        auto l = g.get_node(i);
        adj[i].assign(l.begin(), l.end());
    }
    auto entry = svs::lib::load_from_disk<vam::VamanaIndexParameters>(dir / "c").entry_point;
    fs::remove_all(dir);
    return {adj, entry};
}

inline bool same(const Clustering& a, const Clustering& b) {
    if (a.size() != b.size()) {
        return false;
    }
    for (auto id : a.sorted_centroids()) {
        if (!b.contains(id) || !(a.at(id) == b.at(id))) {
            return false;
        }
    }
    return true;
}

template <typename T, typename D> void clustering(vh::Gen& g, vh::Ctx& ctx) {
    auto w = World<T, D>(g);
    ctx.describe("clustering {}", w.show());
    auto data = w.data();
    auto index = w.primary_index(w.threads);
    auto [adj, entry] = graph_of(index, fs::path(ctx.scratch) / "p");
    bool complete = w.all_reachable(adj, entry) && w.params.search_window_size_ >= w.centroids.size();
    auto c = inv::cluster_with(data, svs::lib::as_const_span(w.centroids), w.params, index);
    w.check_clustering(c, w.params, complete);
    for (size_t i = 0; i < w.n; ++i) {
        VH_REQUIRE(std::memcmp(data.get_datum(i).data(), w.x.row(i), w.d * sizeof(T)) == 0, "clustering changed vector {}", i);
    }
    // The division of the work does not matter.
    auto p = w.params;
    p.batchsize_ = g.range(1, w.n + 1);
    ctx.trace("; again with batches of {}", p.batchsize_);
    auto again = inv::cluster_with(data, svs::lib::as_const_span(w.centroids), p, index);
    VH_REQUIRE(same(c, again), "batches of {} instead of {} give another clustering", p.batchsize_, w.params.batchsize_);
    // Limited cluster sizes: respected without losing a vector, or refused.
    size_t biggest = c.statistics().max_size_;
    if (biggest > 1) {
        auto q = w.params;
        q.max_cluster_size_ = g.range(1, biggest);
        ctx.trace("; limited to {}", q.max_cluster_size_);
        auto limited = Clustering();
        bool refused = vh::throws([&] { limited = inv::cluster_with(data, svs::lib::as_const_span(w.centroids), q, index); });
        auto probe = c;
        auto compare = svs::distance::comparator(D());
        bool possible = probe.reduce_maxsize(q.max_cluster_size_, compare, true);
        VH_REQUIRE(same(probe, c), "a dry run changed the clustering");
        if (!refused) {
            w.check_clustering(limited, q, false);
            ctx.label("limited");
            // Kept are the nearest of those that could be dropped; nothing is invented.
            for (auto id : limited.sorted_centroids()) {
                std::set<uint32_t> had;
                for (auto& e : c.at(id)) {
                    had.insert(e.id());
                }
                for (auto& e : limited.at(id)) {
                    VH_REQUIRE(had.count(e.id()), "limiting added {} to cluster {}", e.id(), id);
                }
            }
        } else {
            ctx.label("limit refused");
        }
        VH_REQUIRE(possible == !refused, "the dry run says {}, limiting the clusters {}", possible, refused ? "fails" : "succeeds");
    }
    // Save and load.
    auto dir = fs::path(ctx.scratch) / "clustering";
    fs::remove_all(dir);
    svs::lib::save_to_disk(c, dir);
    if (g.flip()) {
        fs::remove_all(fs::path(ctx.scratch) / "moved");
        fs::rename(dir, fs::path(ctx.scratch) / "moved");
        dir = fs::path(ctx.scratch) / "moved";
    }
    auto loaded = svs::lib::load_from_disk<Clustering>(dir);
    fs::remove_all(dir);
    VH_REQUIRE(same(c, loaded), "the clustering loaded differs from the one saved");
    w.check_clustering(loaded, w.params, complete);
    ctx.interesting(w.centroids.size() > 1 && w.n > w.centroids.size() + 3);
}

template <typename T, typename D, typename Strategy> void search(vh::Gen& g, vh::Ctx& ctx) {
    constexpr Dist kind = World<T, D>::kind;
    auto w = World<T, D>(g);
    size_t nq = g.range(1, 4);
    auto q = matrix<float>(nq, w.d, w.values == 2 ? 3 : w.values, g.seed());
    if (g.flip()) { // at a centroid
        auto c = w.centroids[g.range(0, w.centroids.size() - 1)];
        for (size_t j = 0; j < w.d; ++j) {
            q.row(0)[j] = float(w.x.row(c)[j]);
        }
    }
    size_t window = g.flip() ? w.centroids.size() + g.raw(2) : g.range(1, w.centroids.size());
    double epsilon = g.pick<double>({1e9, 0.0, 0.1, 1.0});
    size_t k = g.chance(1, 4) ? g.range(1, w.n + 3) : g.range(1, 10);
    if (g.chance(1, 20)) {
        // A share that rounds down to no centroid at all.
        auto p = w.params;
        p.percent_centroids_ = svs::lib::Percent(0.5 / double(w.n));
        ctx.describe("inverted index without centroids {}", w.show());
        VH_REQUIRE(vh::throws([&] { inv::auto_build(inv::InvertedBuildParameters(p, w.primary), w.data(), D(), size_t(1), Strategy()); }), "an index without centroids is built");
        ctx.label("no centroids");
        return;
    }
    ctx.describe("inverted search {}; window={} epsilon={} k={} nq={}", w.show(), window, epsilon, k, nq);
    w.threads = 1; // so that the primary index can be built a second time
    auto reference = w.primary_index(1);
    Clustering c;
    size_t threads = gen_few_threads(g);
    auto bp = inv::InvertedBuildParameters(w.params, w.primary);
    auto sp = inv::InvertedSearchParameters(vam::VamanaSearchParameters(vam::SearchBufferConfig(window), g.flip(), 4, 1), epsilon);
    auto result = svs::QueryResult<size_t>(nq, k);
    auto go = [&](auto& index) {
        index.set_num_threads(threads);
        VH_REQUIRE(index.get_num_threads() == threads && index.dimensions() == w.d, "{} threads, {} dimensions", index.get_num_threads(), index.dimensions());
        if (g.flip()) {
            index.set_search_parameters(sp);
            VH_REQUIRE(index.get_search_parameters() == sp, "the search parameters do not read back");
            if (g.flip()) {
                result = svs::index::search_batch(index, q.view(), k);
            } else {
                index.search(result.view(), q.view(), index.get_search_parameters());
            }
        } else {
            ctx.label("explicit parameters");
            index.search(result.view(), q.view(), sp);
        }
    };
    if (g.flip()) {
        if (w.pick_randomly) {
            auto index = inv::auto_build(bp, w.data(), D(), size_t(1), Strategy(), inv::PickRandomly(), Keep{&c});
            go(index);
        } else {
            auto index = inv::auto_build(bp, w.data(), D(), size_t(1), Strategy(), Given{w.centroids}, Keep{&c});
            go(index);
        }
    } else {
        // By way of the files.
        auto dir = fs::path(ctx.scratch) / "inverted";
        fs::remove_all(dir);
        fs::create_directories(dir);
        {
            auto index = inv::auto_build(bp, w.data(), D(), size_t(1), Strategy(), Given{w.centroids}, Keep{&c});
            index.save_primary_index(dir / "config", dir / "graph", dir / "data");
            svs::lib::save_to_disk(c, dir / "clustering");
        }
        auto index = inv::assemble_from_clustering(dir / "clustering", w.data(), D(), Strategy(), dir / "config", dir / "graph", threads);
        fs::remove_all(dir);
        ctx.label("assembled from files");
        go(index);
    }
    w.check_clustering(c, w.params, false);
    // What the primary search finds, and so which clusters are examined.
    reference.set_search_parameters(vam::VamanaSearchParameters(vam::SearchBufferConfig(window), false, 4, 1));
    auto first = svs::QueryResult<size_t>(nq, window);
    reference.search(first.view(), q.view(), reference.get_search_parameters());
    bool exact = kind_exact(w.values);
    for (size_t i = 0; i < nq; ++i) {
        std::vector<std::optional<Ref>> ref(w.n);
        std::vector<std::optional<Ref>> all(w.n);
        for (size_t j = 0; j < w.n; ++j) {
            all[j] = ref_distance(kind, q.row(i), w.x.row(j), w.d);
        }
        bool unsure = false;
        size_t examined = 0;
        double nearest = first.distance(i, 0);
        double bound = ascending(kind) || nearest < 0 ? nearest * (1 + epsilon) : nearest / (1 + epsilon);
        for (size_t j = 0; j < window; ++j) {
            if (first.index(i, j) == std::numeric_limits<size_t>::max()) {
                break;
            }
            double v = first.distance(i, j);
            if (nearer(kind, bound, v)) {
                unsure = unsure || std::abs(v - bound) <= 1e-5 * std::abs(bound);
                break;
            }
            unsure = unsure || (v != nearest && std::abs(v - bound) <= 1e-5 * std::abs(bound));
            auto id = w.centroids[first.index(i, j)];
            ref[id] = all[id];
            for (auto& e : c.at(id)) {
                ref[e.id()] = all[e.id()];
            }
            ++examined;
        }
        // Ties at the edge of the window make the set of clusters ambiguous.
        if (window < w.centroids.size() && w.values != 3 && w.values != 5 && w.values != 6) {
            unsure = true;
        }
        std::vector<size_t> ids;
        std::vector<float> ds;
        for (size_t j = 0; j < k; ++j) {
            if (result.index(i, j) == std::numeric_limits<size_t>::max()) {
                break;
            }
            ids.push_back(result.index(i, j));
            ds.push_back(result.distance(i, j));
        }
        auto what = fmt::format("query {}", i);
        for (size_t j = ids.size(); j < k; ++j) {
            VH_REQUIRE(result.index(i, j) == std::numeric_limits<size_t>::max(), "{}: neighbor {} after padding", what, j);
        }
        if (unsure) {
            check_topk(kind, all, ids, ds, exact, what, false);
            continue;
        }
        size_t candidates = 0;
        for (auto& r : ref) {
            candidates += r.has_value();
        }
        VH_REQUIRE(ids.size() == std::min(k, candidates), "{}: {} neighbors, the {} clusters examined hold {}", what, ids.size(), examined, candidates);
        check_topk(kind, ref, ids, ds, exact, what, true);
        if (candidates == w.n) {
            ctx.label("all clusters examined");
        }
        ctx.label("compared with the examined clusters");
    }
    ctx.interesting(w.centroids.size() > 1 && w.n > w.centroids.size() + 3);
}
} // namespace c16
