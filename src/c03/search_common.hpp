#pragma once
#include "svsgen.hpp"
#include "vamana_model.hpp"

#include "svs/core/graph.h"
#include "svs/index/index.h"
#include "svs/index/vamana/index.h"

namespace c03 {
using namespace vg;
namespace vam = svs::index::vamana;
using Graph = svs::graphs::SimpleGraph<uint32_t>;

struct Setting {
    size_t window, capacity, k;
    bool filter;
    size_t lookahead, step;
    vam::VamanaSearchParameters params() const {
        return vam::VamanaSearchParameters(vam::SearchBufferConfig(window, capacity), filter, lookahead, step);
    }
    std::string show() const {
        return fmt::format("window={} capacity={} k={} filter={} prefetch={}/{}", window, capacity, k, filter, lookahead, step);
    }
};

inline Setting gen_setting(vh::Gen& g, size_t n) {
    Setting s;
    switch (g.raw(2)) {
        case 0: s.window = n + g.range(0, 3); break;
        case 1: s.window = g.skew(1, n); break;
        default: s.window = g.range(1, 4); break;
    }
    s.capacity = g.flip() ? s.window : s.window + g.skew(0, n);
    s.k = g.chance(1, 5) ? g.range(1, n + 4) : g.range(1, std::min<size_t>(n, 12));
    s.filter = g.flip();
    s.lookahead = g.pick<size_t>({4, 0, 1, 2, 8, 50});
    s.step = g.pick<size_t>({1, 0, 2, 3, 8, 50});
    return s;
}

template <typename Q, typename T, typename D> void run(vh::Gen& g, vh::Ctx& ctx) {
    constexpr Dist kind = dist_tag<D>::value;
    size_t n = g.skew(1, 140);
    size_t d = g.flip() ? g.range(1, 12) : gen_dim(g, 70);
    size_t values = g.raw(NUM_KINDS - 1);
    size_t nq = g.range(1, 9);
    size_t threads = gen_threads(g);
    auto x = matrix<T>(n, d, values, g.seed());
    auto q = matrix<Q>(nq, d, values, g.seed());
    size_t style = g.raw(3);
    size_t degree = g.range(1, 12);
    auto adj = random_adjacency(n, degree, style, g.seed());
    uint32_t entry = g.range(0, n - 1);
    ctx.describe("VamanaIndex<{}> queries {} {} n={} d={} nq={} threads={} {} graph style {} degree {} entry {}", type_name<T>(), type_name<Q>(), dist_name(kind), n, d, nq, threads, kind_name(values), style, degree, entry);
    bool exact = kind_exact(values) && kind != Dist::Cosine;
    auto reach = reachable(adj, entry);
    size_t nreach = std::count(reach.begin(), reach.end(), char(1));
    // Exact distances (double) and the library's own (float), which order the traversal.
    std::vector<std::vector<std::optional<Ref>>> ref(nq, std::vector<std::optional<Ref>>(n));
    std::vector<std::vector<float>> lib(nq, std::vector<float>(n));
    std::vector<char> distinct(nq, 1);
    for (size_t i = 0; i < nq; ++i) {
        D dist{};
        svs::distance::maybe_fix_argument(dist, q.span(i));
        for (size_t j = 0; j < n; ++j) {
            auto r = ref_distance(kind, q.row(i), x.row(j), d);
            if (std::isnan(r.value)) {
                throw vh::Discard{};
            }
            if (reach[j]) {
                ref[i][j] = r;
            }
            lib[i][j] = svs::distance::compute(dist, q.span(i), x.span(j));
        }
        auto sorted = lib[i];
        std::sort(sorted.begin(), sorted.end());
        distinct[i] = std::adjacent_find(sorted.begin(), sorted.end()) == sorted.end();
    }
    Graph graph(n, degree);
    for (uint32_t i = 0; i < n; ++i) {
        for (auto t : adj[i]) {
            graph.add_edge(i, t);
        }
    }
    auto index = vam::VamanaIndex(std::move(graph), simple<T>(x), entry, D(), threads);
    VH_REQUIRE(index.size() == n && index.dimensions() == d, "wrong size or dimensions");
    size_t rounds = g.range(1, 4);
    for (size_t r = 0; r < rounds; ++r) {
        auto s = gen_setting(g, n);
        ctx.trace(" | {}", s.show());
        size_t first = g.chance(1, 3) ? g.range(0, nq - 1) : 0;
        size_t count = g.range(1, nq - first);
        auto view = svs::data::ConstSimpleDataView<Q>(q.row(first), count, d);
        auto result = svs::QueryResult<size_t>(count, s.k);
        if (g.flip()) {
            index.set_search_parameters(s.params());
            VH_REQUIRE(index.get_search_parameters() == s.params(), "search parameters do not stick");
            result = svs::index::search_batch(index, view, s.k);
        } else {
            index.search(result.view(), view, s.params());
        }
        // Too small a buffer for k is grown to k.
        size_t window = s.window, capacity = s.capacity;
        if (capacity < s.k) {
            window = capacity = s.k;
        }
        for (size_t i = 0; i < count; ++i) {
            size_t qi = first + i;
            std::vector<size_t> ids(s.k);
            std::vector<float> ds(s.k);
            for (size_t j = 0; j < s.k; ++j) {
                ids[j] = result.index(i, j);
                ds[j] = result.distance(i, j);
            }
            auto model = best_first(adj, entry, lib[qi], window, capacity, !ascending(kind));
            auto what = fmt::format("{} query {}", s.show(), qi);
            bool all = window >= nreach;
            if (distinct[qi]) {
                size_t m = std::min(s.k, model.size());
                for (size_t j = 0; j < m; ++j) {
                    VH_REQUIRE(ids[j] == model[j].first && ds[j] == model[j].second, "{}: neighbor {} is {} at {}, but the traversal of window {} finds {} at {}", what, j, ids[j], ds[j], window, model[j].first, model[j].second);
                }
                VH_REQUIRE(!all || model.size() == std::min(nreach, capacity), "model is wrong");
                ctx.label("compared with the model traversal");
            }
            // How many neighbours a traversal finds can depend on ties only below capacity.
            size_t found = all ? nreach : distinct[qi] ? std::min(model.size(), nreach) : 0;
            auto trimmed_ids = ids;
            auto trimmed_ds = ds;
            if (found) {
                trimmed_ids.resize(std::min(found, s.k));
                trimmed_ds.resize(std::min(found, s.k));
            } else {
                // keep the prefix that names vectors: padding is only allowed at the end
                size_t m = 0;
                while (m < s.k && ids[m] < n) {
                    ++m;
                }
                for (size_t j = m; j < s.k; ++j) {
                    VH_REQUIRE(ids[j] >= n, "{}: neighbor {} after padding", what, j);
                }
                VH_REQUIRE(m >= 1, "{}: nothing found", what);
                trimmed_ids.resize(m);
                trimmed_ds.resize(m);
            }
            check_topk(kind, ref[qi], trimmed_ids, trimmed_ds, exact, what, all);
            for (size_t j = trimmed_ids.size(); j < s.k; ++j) {
                VH_REQUIRE(ids[j] >= n, "{}: only {} vectors can be found, but entry {} names vector {} at distance {}", what, trimmed_ids.size(), j, ids[j], ds[j]);
            }
            // One query by itself gives the same answer.
            if (g.chance(1, 4)) {
                auto one = svs::QueryResult<size_t>(1, s.k);
                index.search(one.view(), svs::data::ConstSimpleDataView<Q>(q.row(qi), 1, d), s.params());
                for (size_t j = 0; j < s.k; ++j) {
                    VH_REQUIRE(one.index(0, j) == ids[j] && (ids[j] >= n || one.distance(0, j) == ds[j]), "{}: alone the query finds {} at {} in place {}, in a batch {} at {}", what, one.index(0, j), one.distance(0, j), j, ids[j], ds[j]);
                }
            }
        }
        // The single-query interface with a reused scratch space.
        if (g.chance(1, 3)) {
            auto scratch = index.scratchspace(s.params());
            for (size_t i = 0; i < count; ++i) {
                index.search(q.span(first + i), scratch);
                auto model = best_first(adj, entry, lib[first + i], s.window, s.capacity, !ascending(kind));
                VH_REQUIRE(scratch.buffer.size() <= s.capacity, "scratch holds more than its capacity");
                if (distinct[first + i]) {
                    VH_REQUIRE(scratch.buffer.size() == model.size(), "single query found {} instead of {}", scratch.buffer.size(), model.size());
                    for (size_t j = 0; j < model.size(); ++j) {
                        VH_REQUIRE(scratch.buffer[j].id() == model[j].first, "single query: neighbor {} is {} instead of {}", j, scratch.buffer[j].id(), model[j].first);
                    }
                }
            }
            ctx.label("single-query interface");
        }
        if (g.chance(1, 3)) {
            threads = gen_threads(g);
            index.set_num_threads(threads);
        }
        ctx.label(s.window >= nreach ? "exhaustive window" : "partial window");
        if (s.k > nreach) {
            ctx.label("k exceeds the reachable vectors");
        }
    }
    ctx.interesting(nreach >= 4);
}
} // namespace c03
