// C08: consolidation of any graph with any deleted vertices, batch by batch, next to the rule written out.
#include "prune_model.hpp"
#include "svsgen.hpp"

#include "svs/core/graph.h"
#include "svs/index/vamana/consolidate.h"

#include <set>

namespace {
using namespace vg;

template <typename T, typename D> void consolidator(vh::Gen& g, vh::Ctx& ctx) {
    constexpr Dist kind = dist_tag<D>::value;
    D dist;
    using Cmp = std::remove_cvref_t<decltype(svs::distance::comparator(dist))>;
    using S = std::remove_cvref_t<decltype(iv::prune_strategy(dist))>;
    bool big = g.chance(1, 30);
    size_t n = big ? g.range(400, 1700) : g.skew(1, 70), dim = big ? g.range(1, 4) : g.range(1, 10), values = g.raw(NUM_KINDS - 1);
    auto m = with_distances(matrix<T>(n, dim, values, g.seed()), kind);
    auto data = simple(m);
    size_t degree = g.skew(1, 20);
    auto params = iv::ConsolidationParameters{g.flip() ? g.skew(1, n + 3) : size_t(200'000), g.chance(1, 3) ? g.range(1, degree) : degree, g.flip() ? size_t(1000) : g.skew(1, 60), ascending(kind) ? g.pick<float>({1.2f, 1.0f, 1.5f}) : g.pick<float>({0.95f, 1.0f, 0.8f})};
    size_t threads = gen_few_threads(g), parts = g.range(0, 10);
    auto graph = svs::graphs::SimpleGraph<uint32_t>(n, degree);
    vh::Stream s(g.seed());
    std::vector<char> gone(n, 0);
    for (size_t i = 0; i < n; ++i) {
        gone[i] = s.below(10) < parts;
        for (size_t j = 0, e = s.below(degree + 1); j < e; ++j) graph.add_edge(i, s.below(n));
    }
    size_t dead = std::count(gone.begin(), gone.end(), 1);
    ctx.describe("{} {} {}x{} {} degree={}, {} deleted, consolidated in batches of {} with prune_to={} candidates={} alpha={} threads={}", type_name<T>(), dist_name(kind), n, dim, kind_name(values), degree, dead, params.update_batch_size, params.prune_to, params.max_candidate_pool_size, params.alpha, threads);
    std::vector<std::vector<uint32_t>> before(n);
    for (size_t i = 0; i < n; ++i) {
        auto l = graph.get_node(i);
        before[i].assign(l.begin(), l.end());
    }
    auto pool = svs::threads::NativeThreadPool(threads);
    auto is_deleted = [&](size_t i) { return bool(gone.at(i)); };
    iv::GraphConsolidator(graph, data, pool, dist, params)(is_deleted);
    auto d = [&](uint32_t i, uint32_t j) {
        auto q = data.get_datum(i);
        svs::distance::maybe_fix_argument(dist, q);
        return svs::distance::compute(dist, q, data.get_datum(j));
    };
    size_t touched = 0, exactly = 0;
    for (size_t i = 0; i < n; ++i) {
        if (gone[i]) continue;
        auto l = graph.get_node(i);
        std::vector<uint32_t> after(l.begin(), l.end());
        if (std::none_of(before[i].begin(), before[i].end(), is_deleted)) {
            VH_REQUIRE(after == before[i], "vertex {} had no deleted neighbour, but its edges changed from {} to {}", i, vh::show(before[i], 20), vh::show(after, 20));
            continue;
        }
        ++touched;
        std::set<uint32_t> may;
        for (auto t : before[i]) {
            if (gone[t]) {
                may.insert(before[t].begin(), before[t].end());
            } else {
                may.insert(t);
            }
        }
        std::erase_if(may, [&](auto t) { return gone[t]; });
        VH_REQUIRE(after.size() <= params.prune_to, "vertex {} has {} edges, pruned to {}", i, after.size(), params.prune_to);
        VH_REQUIRE(std::set<uint32_t>(after.begin(), after.end()).size() == after.size(), "vertex {} has repeated edges {}", i, vh::show(after, 20));
        for (auto t : after) VH_REQUIRE(t != i && may.count(t), "vertex {} is linked to {}: the vertex itself, a deleted one, or none of the neighbours of its deleted neighbours", i, t);
        std::vector<Pick> picks;
        bool ambiguous = false;
        for (auto t : may) {
            float x = d(i, t);
            ambiguous |= std::isnan(x);
            picks.push_back({t, x, 0});
        }
        if (ambiguous) continue;
        std::sort(picks.begin(), picks.end(), [&](auto& a, auto& b) { return Cmp{}(a.dist, b.dist); });
        // Candidates at the same distance come in any order.
        for (size_t j = 1; j < picks.size(); ++j) ambiguous |= picks[j - 1].dist == picks[j].dist;
        picks.resize(std::min(picks.size(), params.max_candidate_pool_size));
        if (ambiguous) continue;
        bool exact = false;
        auto want = rule<Cmp>(strategy_of<S>(), params.prune_to, params.alpha, exact, picks, i, d, ambiguous);
        if (ambiguous) continue;
        ++exactly;
        std::vector<uint32_t> w;
        for (auto j : want) w.push_back(picks[j].id);
        VH_REQUIRE(after == w, "vertex {} is linked to {}, the rule selects {} of {} candidates", i, vh::show(after, 20), vh::show(w, 20), picks.size());
    }
    if (exactly) ctx.label("compared exactly");
    if (params.update_batch_size < n) ctx.label("several batches");
    ctx.interesting(touched > 0 && n > 3);
}
} // namespace

VH_CASES("consolidator float L2", 2) { consolidator<float, svs::DistanceL2>(g, ctx); }
VH_CASES("consolidator float IP", 1) { consolidator<float, svs::DistanceIP>(g, ctx); }
VH_CASES("consolidator int8 cosine", 1) { consolidator<int8_t, svs::DistanceCosineSimilarity>(g, ctx); }
