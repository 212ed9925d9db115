#include "flat_common.hpp"
using namespace svs::distance;
VH_CASES("flat filtered L2", 2) { c01::direct<float, float, DistanceL2>(g, ctx); }
VH_CASES("flat filtered IP", 1) { c01::direct<float, svs::Float16, DistanceIP>(g, ctx); }
VH_CASES("flat filtered cosine", 1) { c01::direct<uint8_t, uint8_t, DistanceCosineSimilarity>(g, ctx); }

// More vectors than the index looks at at once by default.
VH_CASES("beyond the default batch", 1) {
    size_t n = g.chance(1, 15) ? g.range(99990, 210000) : g.skew(1, 300), d = g.range(1, 2), nq = g.range(1, 3), k = g.skew(1, 12);
    size_t values = g.flip() ? 1000000 : 50; // hardly any ties, many ties
    vh::Stream s(g.seed());
    auto x = svs::data::SimpleData<float>(n, d);
    for (size_t i = 0; i < n; ++i) {
        for (auto& v : x.get_datum(i)) v = float(s.below(values));
    }
    auto q = svs::data::SimpleData<float>(nq, d);
    for (size_t i = 0; i < nq; ++i) {
        for (auto& v : q.get_datum(i)) v = float(s.below(values));
        // The best ones lie where batches meet.
        for (size_t j = n - std::min<size_t>(n, 1 + s.below(3)); j < n; ++j) x.set_datum(j, q.get_datum(i));
        for (size_t j = 99990; j < std::min<size_t>(n, 100010); ++j) {
            if (s.below(4) == 0) x.set_datum(j, q.get_datum(i));
        }
    }
    size_t threads = g.range(1, 4), batch = g.pick<size_t>({0, 0, 100000, 50000, 150000});
    ctx.describe("FlatIndex n={} d={} nq={} k={} threads={} data batch={}", n, d, nq, k, threads, batch);
    auto index = svs::index::flat::FlatIndex(x, svs::DistanceL2(), threads);
    auto r = svs::QueryResult<size_t>(nq, k);
    index.search(r.view(), svs::data::ConstSimpleDataView<float>(q.data(), nq, d), svs::index::flat::FlatParameters(batch, 0));
    for (size_t i = 0; i < nq; ++i) {
        std::vector<double> all(n);
        for (size_t j = 0; j < n; ++j) {
            for (size_t m = 0; m < d; ++m) {
                double t = double(q.get_datum(i)[m]) - double(x.get_datum(j)[m]);
                all[j] += t * t;
            }
        }
        auto best = all;
        size_t kk = std::min(k, n);
        std::partial_sort(best.begin(), best.begin() + std::ptrdiff_t(kk), best.end());
        std::set<size_t> seen;
        for (size_t j = 0; j < k; ++j) {
            size_t id = r.index(i, j);
            if (j >= n) {
                VH_REQUIRE(!(id < n), "entry {} of query {} names vector {} of {}", j, i, id, n);
                continue;
            }
            VH_REQUIRE(id < n && seen.insert(id).second, "entry {} of query {} is {}, which does not exist or came before", j, i, id);
            VH_REQUIRE(std::abs(double(r.distance(i, j)) - all[id]) <= 1e-6 * all[id], "entry {} of query {}: vector {} has distance {} instead of {}", j, i, id, r.distance(i, j), all[id]);
            VH_REQUIRE(all[id] <= best[j] * (1 + 1e-6), "entry {} of query {} is vector {} at {} where {} is the best possible", j, i, id, all[id], best[j]);
            VH_REQUIRE(j == 0 || r.distance(i, j - 1) <= r.distance(i, j), "query {} is not sorted at {}", i, j);
        }
    }
    ctx.interesting(n > 100000 || n > k);
    if (n > 100000) ctx.label("several default batches");
}
