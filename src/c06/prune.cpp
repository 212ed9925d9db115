// C06: neighbour pruning against the rule written out.
#include "svsgen.hpp"
#include "prune_model.hpp"
#include "svs/index/vamana/prune.h"

#include <cmath>

namespace {
using namespace svs;

struct Tag {
    size_t local_id = 0;
};

using namespace vg;

template <typename T, typename Dist, typename S> void prune_case(vh::Gen& g, vh::Ctx& ctx) {
    Dist dist;
    using Cmp = std::remove_cvref_t<decltype(distance::comparator(dist))>;
    constexpr bool similarity = std::is_same_v<Cmp, std::greater<>>;
    size_t n = g.skew(1, 60), dim = g.range(1, 10);
    int kind = int(g.raw(vg::NUM_KINDS - 1));
    auto m = vg::matrix<T>(n, dim, kind, g.seed());
    auto data = vg::simple<T, Dynamic>(m);
    uint32_t self = uint32_t(g.raw(n - 1));
    bool exact_alpha = g.flip();
    float alpha = exact_alpha ? (similarity ? g.pick<float>({1.0f, 0.5f, 0.75f}) : g.pick<float>({1.0f, 2.0f, 1.5f}))
                              : (similarity ? g.pick<float>({0.95f, 0.9f, 0.99f}) : g.pick<float>({1.2f, 1.1f, 1.05f}));
    size_t max = g.skew(0, 20);
    auto d = [&](uint32_t i, uint32_t j) {
        auto q = data.get_datum(i);
        distance::maybe_fix_argument(dist, q);
        return distance::compute(dist, q, data.get_datum(j));
    };
    // The pool: a subset of the vectors (possibly with the vertex itself), nearest first.
    size_t take = g.range(0, 10);
    vh::Stream st(g.seed());
    std::vector<Pick> pool;
    for (uint32_t i = 0; i < n; ++i) {
        if (st.below(10) < take) {
            float x = d(self, i);
            if (std::isnan(x)) {
                throw vh::Discard{};
            }
            pool.push_back({i, x, size_t(st.below(1000))});
        }
    }
    std::stable_sort(pool.begin(), pool.end(), [&](auto& a, auto& b) { return Cmp{}(a.dist, b.dist); });
    size_t leftovers = g.raw(3);
    ctx.describe("n={} dim={} kind={} self={} pool={} max={} alpha={} strategy={} leftovers={}", n, dim, vg::kind_name(kind), self, pool.size(), max, alpha, int(strategy_of<S>()), leftovers);

    bool exact = exact_alpha && vg::kind_exact(kind) && !std::is_same_v<Dist, distance::DistanceCosineSimilarity>;
    bool ambiguous = false;
    auto want = rule<Cmp>(strategy_of<S>(), max, alpha, exact, pool, self, d, ambiguous);
    for (uint32_t i = 0; i < pool.size(); ++i) {
        for (uint32_t j = 0; j < pool.size(); ++j) {
            if (std::isnan(d(pool[i].id, pool[j].id))) {
                throw vh::Discard{};
            }
        }
    }

    auto verify = [&](const char* form, const std::vector<uint32_t>& got) {
        VH_REQUIRE(got.size() <= max, "{}: {} results for at most {}", form, got.size(), max);
        std::set<uint32_t> seen;
        for (auto i : got) {
            VH_REQUIRE(i != self, "{}: the vertex itself was selected", form);
            VH_REQUIRE(seen.insert(i).second, "{}: {} was selected twice", form, i);
            bool in = std::any_of(pool.begin(), pool.end(), [&](auto& p) { return p.id == i; });
            VH_REQUIRE(in, "{}: {} is not in the list of candidates", form, i);
        }
        auto first = std::find_if(pool.begin(), pool.end(), [&](auto& p) { return p.id != self; });
        if (max > 0 && first != pool.end()) {
            VH_REQUIRE(!got.empty() && got[0] == first->id, "{}: does not start with the nearest candidate {}", form, first->id);
        }
        if (!ambiguous) {
            std::vector<uint32_t> w;
            for (auto i : want) {
                w.push_back(pool[i].id);
            }
            VH_REQUIRE(got == w, "{}: selected {} instead of {}", form, vh::show(got), vh::show(w));
        }
    };

    // Integer results from plain neighbours.
    {
        std::vector<Neighbor<uint32_t>> p;
        for (auto& x : pool) {
            p.push_back({x.id, x.dist});
        }
        std::vector<uint32_t> result(leftovers, uint32_t(self));
        iv::heuristic_prune_neighbors(S{}, max, alpha, data, data::GetDatumAccessor{}, dist, self, lib::as_const_span(p), result);
        verify("ids", result);
    }
    // Neighbours with metadata, which has to be kept.
    {
        using N = Neighbor<uint32_t, Tag>;
        std::vector<N> p;
        for (auto& x : pool) {
            p.push_back(N{x.id, x.dist, Tag{x.tag}});
        }
        std::vector<N> result(leftovers, N{self, 0.0f, Tag{7}});
        iv::heuristic_prune_neighbors(S{}, max, alpha, data, data::GetDatumAccessor{}, dist, self, lib::as_const_span(p), result);
        std::vector<uint32_t> ids;
        for (auto& r : result) {
            ids.push_back(r.id());
            for (auto& x : pool) {
                if (x.id == r.id()) {
                    VH_REQUIRE(r.distance() == x.dist && r.local_id == x.tag, "neighbour {} lost its distance or metadata", r.id());
                }
            }
        }
        verify("neighbours", ids);
    }
    // The strategy this metric is built with is the one that was meant.
    ctx.interesting(pool.size() >= 4 && want.size() >= 2);
    ctx.label(ambiguous ? "rounding decides" : "exact order checked");
    ctx.label(want.size() == max ? "full" : "not full");
}

template <typename T, typename Dist> void reg(const std::string& name) {
    static vh::Register a{name + " progressive", 3, prune_case<T, Dist, iv::ProgressivePruneStrategy>};
    static vh::Register b{name + " iterative", 3, prune_case<T, Dist, iv::IterativePruneStrategy>};
    static vh::Register c{name + " legacy", 2, prune_case<T, Dist, iv::LegacyPruneStrategy>};
    static vh::Register d{name + " default", 2, prune_case<T, Dist, iv::prune_strategy_t<Dist>>};
}
struct Init {
    Init() {
        reg<float, distance::DistanceL2>("L2 float");
        reg<float, distance::DistanceIP>("IP float");
        reg<float, distance::DistanceCosineSimilarity>("cosine float");
        reg<int8_t, distance::DistanceL2>("L2 int8");
        reg<Float16, distance::DistanceIP>("IP float16");
    }
} init;
} // namespace
