#pragma once
#include "svsgen.hpp"
#include "build_model.hpp"

#include "svs/core/data.h"
#include "svs/core/graph.h"
#include "svs/index/index.h"
#include "svs/index/vamana/index.h"
#include "svs/lib/saveload.h"

#include <filesystem>

namespace c04 {
using namespace vg;
namespace vam = svs::index::vamana;
namespace fs = std::filesystem;

inline std::string show(const vam::VamanaBuildParameters& p) {
    return fmt::format("alpha={} degree={} window={} pool={} prune_to={} history={}", p.alpha, p.graph_max_degree, p.window_size, p.max_candidate_pool_size, p.prune_to, p.use_full_search_history);
}

inline float gen_alpha(vh::Gen& g, Dist kind) {
    return kind == Dist::L2 ? g.pick<float>({1.2f, 1.0f, 1.1f, 1.5f, 2.0f}) : g.pick<float>({0.95f, 1.0f, 0.9f, 0.75f});
}

inline vam::VamanaBuildParameters gen_params(vh::Gen& g, Dist kind, size_t n) {
    size_t degree = g.chance(1, 4) ? g.range(1, 3) : g.skew(1, 40);
    size_t window = g.skew(1, 60);
    size_t pool = g.chance(1, 4) ? g.range(1, 8) : g.range(1, 2 * n + 2);
    size_t prune = g.flip() ? degree : g.range(1, degree);
    return {gen_alpha(g, kind), degree, window, pool, prune, g.flip()};
}

struct Saved {
    Adj adj{};
    vam::VamanaIndexParameters config{0, {}, {}};
};

template <typename Index> Saved dump(const Index& index, const std::string& dir) {
    fs::create_directories(dir);
    index.save(dir + "/c", dir + "/g", dir + "/d");
    Saved s;
    s.config = svs::lib::load_from_disk<vam::VamanaIndexParameters>(dir + "/c");
    auto graph = svs::graphs::SimpleGraph<uint32_t>::load(dir + "/g");
    s.adj.resize(graph.n_nodes());
    for (uint32_t i = 0; i < graph.n_nodes(); ++i) {
        auto list = graph.get_node(i);
        s.adj[i].assign(list.begin(), list.end());
    }
    return s;
}

inline void check_shape(const Adj& adj, size_t n, size_t degree, const std::string& what) {
    VH_REQUIRE(adj.size() == n, "{}: the graph has {} vertices", what, adj.size());
    for (size_t i = 0; i < n; ++i) {
        VH_REQUIRE(adj[i].size() <= degree, "{}: vertex {} has {} edges, at most {} are allowed", what, i, adj[i].size(), degree);
        std::set<uint32_t> seen;
        for (auto t : adj[i]) {
            VH_REQUIRE(t < n, "{}: vertex {} has an edge to {}", what, i, t);
            VH_REQUIRE(t != i, "{}: vertex {} has an edge to itself", what, i);
            VH_REQUIRE(seen.insert(t).second, "{}: vertex {} has the edge to {} twice", what, i, t);
        }
    }
}

// The entry point is as near to the mean as any vector.
template <typename T> void check_entry(const Mat<T>& x, size_t entry) {
    VH_REQUIRE(entry < x.n, "the entry point {} does not exist", entry);
    std::vector<double> mean(x.d, 0), off(x.n, 0);
    double scale = 0;
    for (size_t i = 0; i < x.n; ++i) {
        for (size_t j = 0; j < x.d; ++j) {
            double v = static_cast<float>(x.row(i)[j]);
            mean[j] += v / double(x.n);
            scale += v * v / double(x.n);
        }
    }
    for (size_t i = 0; i < x.n; ++i) {
        for (size_t j = 0; j < x.d; ++j) {
            double v = static_cast<float>(x.row(i)[j]) - mean[j];
            off[i] += v * v;
        }
    }
    double best = *std::min_element(off.begin(), off.end());
    VH_REQUIRE(off[entry] <= best + 1e-6 * (best + scale) + 1e-30, "the entry point {} is at {} from the mean, the nearest vector at {}", entry, off[entry], best);
}

template <typename Index> void check_params(const Index& index, const Saved& s, const vam::VamanaBuildParameters& p) {
    VH_REQUIRE(index.get_alpha() == p.alpha, "alpha {} is reported as {}", p.alpha, index.get_alpha());
    VH_REQUIRE(index.max_degree() == p.graph_max_degree, "degree {} is reported as {}", p.graph_max_degree, index.max_degree());
    VH_REQUIRE(index.get_construction_window_size() == p.window_size, "window {} is reported as {}", p.window_size, index.get_construction_window_size());
    VH_REQUIRE(index.get_max_candidates() == p.max_candidate_pool_size, "pool {} is reported as {}", p.max_candidate_pool_size, index.get_max_candidates());
    VH_REQUIRE(index.get_full_search_history() == p.use_full_search_history, "search history is reported as {}", index.get_full_search_history());
    VH_REQUIRE(s.config.build_parameters == p, "the build parameters are saved as {}", show(s.config.build_parameters));
}

template <typename T, typename Index> void check_data(Index& index, const Mat<T>& x) {
    VH_REQUIRE(index.size() == x.n && index.dimensions() == x.d, "the index has {} vectors of {} dimensions", index.size(), index.dimensions());
    auto back = svs::data::SimpleData<float>(x.n, x.d);
    std::vector<uint64_t> ids(x.n);
    std::iota(ids.begin(), ids.end(), 0);
    index.reconstruct_at(back.view(), std::span<const uint64_t>(ids));
    for (size_t i = 0; i < x.n; ++i) {
        for (size_t j = 0; j < x.d; ++j) {
            float want = static_cast<float>(x.row(i)[j]), got = back.get_datum(i)[j];
            VH_REQUIRE(want == got || (std::isnan(want) && std::isnan(got)), "building changed vector {} at {}: {} became {}", i, j, want, got);
        }
    }
}

template <typename T> auto blocked(const Mat<T>& x) {
    using Alloc = svs::HugepageAllocator<T>;
    auto params = svs::data::BlockingParameters{.blocksize_bytes = svs::lib::PowerOfTwo(12)};
    auto data = svs::data::BlockedData<T, svs::Dynamic, Alloc>(x.n, x.d, svs::data::Blocked<Alloc>(params, Alloc()));
    fill(data, x);
    return data;
}

// Any data, any parameters.
template <typename T, typename D> void structure(vh::Gen& g, vh::Ctx& ctx) {
    constexpr Dist kind = dist_tag<D>::value;
    bool big = g.chance(1, 40);
    size_t n = big ? g.range(1001, 1400) : g.skew(1, 160);
    size_t d = g.flip() ? g.range(1, 10) : gen_dim(g, 40);
    size_t values = g.raw(NUM_KINDS - 1);
    auto params = gen_params(g, kind, n);
    if (big) {
        params.window_size = std::min<size_t>(params.window_size, 8);
    }
    size_t threads = g.chance(1, big ? 3 : 10) ? g.pick<size_t>({2, 3, 4}) : 1;
    bool paged = g.chance(1, 5);
    auto x = with_distances(matrix<T>(n, d, values, g.seed()), kind);
    ctx.describe("build {} {} n={} d={} {} {} threads={}{}", type_name<T>(), dist_name(kind), n, d, kind_name(values), show(params), threads, paged ? " blocked" : "");
    ctx.interesting(n > 3 && params.graph_max_degree > 1);

    auto one = [&](size_t nthreads, const char* name) {
        auto check = [&](auto index) {
            auto s = dump(index, ctx.scratch + "/" + name);
            check_shape(s.adj, n, params.graph_max_degree, name);
            check_entry(x, s.config.entry_point);
            check_params(index, s, params);
            check_data(index, x);
            return s;
        };
        if (paged) {
            return check(vam::auto_build(params, blocked(x), D(), nthreads));
        }
        return check(vam::auto_build(params, simple<T>(x), D(), nthreads));
    };
    auto first = one(threads, "first");
    if (threads == 1) {
        auto second = one(1, "second");
        VH_REQUIRE(first.adj == second.adj && first.config.entry_point == second.config.entry_point, "the same inputs gave two different graphs");
        ctx.label("built twice");
    } else {
        ctx.label("several threads");
    }

    if (kind == Dist::Cosine || threads > 1 || n > 120) {
        return;
    }
    // One thread: the documented algorithm.
    D dist{};
    std::vector<float> table(n * n);
    for (size_t i = 0; i < n; ++i) {
        svs::distance::maybe_fix_argument(dist, x.span(i));
        for (size_t j = 0; j < n; ++j) {
            table[i * n + j] = svs::distance::compute(dist, x.span(i), x.span(j));
            if (std::isnan(table[i * n + j])) {
                return;
            }
        }
    }
    size_t ties = 0;
    for (size_t i = 0; i < n; ++i) {
        std::vector<float> row(table.begin() + i * n, table.begin() + (i + 1) * n);
        std::sort(row.begin(), row.end());
        ties += std::adjacent_find(row.begin(), row.end()) != row.end();
    }
    if (ties > 0) {
        ctx.label("ties");
        return;
    }
    BuildModel model{n, table, !ascending(kind), params};
    model.build<D>(first.config.entry_point);
    size_t want = 0, got = 0, common = 0;
    for (size_t i = 0; i < n; ++i) {
        want += model.adj[i].size();
        got += first.adj[i].size();
        for (auto t : first.adj[i]) {
            common += std::find(model.adj[i].begin(), model.adj[i].end(), t) != model.adj[i].end();
        }
    }
    ctx.label(want == common && got == common ? "same as the model" : "not quite the model");
    size_t slack = (want + 9) / 10 + 2;
    VH_REQUIRE(
        common + slack >= want && common + slack >= got,
        "the graph has {} edges, {} of the {} that its build parameters stand for", got, common, want
    );
}
} // namespace c04

namespace c04 {
// Unstructured data and ordinary parameters: nearly everything is found at generous settings.
template <typename T, typename D> void navigable(vh::Gen& g, vh::Ctx& ctx) {
    constexpr Dist kind = dist_tag<D>::value;
    size_t n = g.range(200, 900);
    size_t d = g.range(4, 24);
    size_t values = g.pick<size_t>({3, 5, 6, 2});
    size_t degree = g.range(16, 48);
    size_t window = g.range(40, 100);
    float alpha = kind == Dist::L2 ? g.pick<float>({1.2f, 1.1f, 1.3f}) : g.pick<float>({0.95f, 0.9f});
    auto params = vam::VamanaBuildParameters{alpha, degree, window, g.range(200, 1000), g.range(degree - degree / 4, degree), g.flip()};
    size_t threads = g.chance(1, 6) ? g.range(2, 4) : 1;
    auto x = with_distances(matrix<T>(n, d, values, g.seed()), kind);
    size_t nq = 25, k = 10;
    auto q = matrix<float>(nq, d, values, g.seed());
    if (g.flip() || values == 5) {
        // Queries near stored vectors.
        vh::Stream st(g.seed());
        for (size_t i = 0; i < nq; ++i) {
            size_t r = st.below(n);
            for (size_t j = 0; j < d; ++j) {
                q.row(i)[j] = static_cast<float>(x.row(r)[j]) * float(1 + 0.05 * st.gauss());
            }
        }
    }
    ctx.describe("build and search {} {} n={} d={} {} {} threads={}", type_name<T>(), dist_name(kind), n, d, kind_name(values), show(params), threads);
    ctx.interesting(true);
    auto index = vam::auto_build(params, simple<T>(x), D(), threads);
    size_t window_size = g.flip() ? 100 : 30;
    index.set_search_parameters(vam::VamanaSearchParameters(vam::SearchBufferConfig(window_size), false, 4, 1));
    auto result = svs::index::search_batch(index, q.view(), k);
    double found = 0;
    for (size_t i = 0; i < nq; ++i) {
        std::vector<double> all;
        for (size_t j = 0; j < n; ++j) {
            all.push_back(ref_distance(kind, q.row(i), x.row(j), d).value);
        }
        auto sorted = all;
        std::sort(sorted.begin(), sorted.end(), [](double a, double b) { return nearer(kind, a, b); });
        double limit = sorted[k - 1];
        for (size_t j = 0; j < k; ++j) {
            size_t id = result.index(i, j);
            VH_REQUIRE(id < n, "result {} of query {} is {}", j, i, id);
            double slack = 1e-5 * std::abs(limit);
            found += ascending(kind) ? all[id] <= limit + slack : all[id] >= limit - slack;
        }
    }
    double recall = found / double(nq * k);
    // Nearly always above 0.95, and not below 0.9 (0.76 for inner products) in tens of thousands of cases.  The nearest by inner product to a vector
    // of one cluster may all be in another one, which the search need not reach.
    double least = kind == Dist::IP && values == 5 ? 0.0 : kind == Dist::IP ? 0.5 : window_size == 30 ? 0.75 : 0.85;
    ctx.label(fmt::format("{} at {}, recall above {:.2f}", kind == Dist::IP && values == 5 ? "clusters" : "others", window_size, std::floor(recall * 20) / 20));
    VH_REQUIRE(recall >= least, "only {} of the true neighbours are found with a window of {}", recall, window_size);
}
} // namespace c04
