// C18: k-recall@n against sets.
#include "vh.hpp"
#include "svs/core/data.h"
#include "svs/core/query_result.h"
#include "svs/core/recall.h"

namespace {
// Count of distinct common values of the first k and the first n, with each row free of repeats.
template <typename A, typename B> size_t common(const A* a, size_t k, const B* b, size_t n) {
    size_t c = 0;
    for (size_t i = 0; i < k; ++i) {
        for (size_t j = 0; j < n; ++j) {
            if (int64_t(a[i]) == int64_t(b[j])) {
                ++c;
                break;
            }
        }
    }
    return c;
}

// Rows of distinct ids below `range`.
template <typename T> std::vector<T> table(size_t rows, size_t width, size_t range, uint64_t seed) {
    vh::Stream s(seed);
    std::vector<T> out;
    std::vector<size_t> ids(range);
    for (size_t r = 0; r < rows; ++r) {
        for (size_t i = 0; i < range; ++i) {
            ids[i] = i;
        }
        for (size_t i = 0; i < width; ++i) {
            std::swap(ids[i], ids[i + s.below(range - i)]);
            out.push_back(T(ids[i]));
        }
    }
    return out;
}

template <typename T, typename F> double with_table(vh::Gen& g, std::vector<T> v, size_t rows, size_t width, F&& f) {
    switch (g.raw(2)) {
        case 0: return f(svs::data::ConstSimpleDataView<T>(v.data(), rows, width));
        case 1: {
            auto d = svs::data::SimpleData<T>(rows, width);
            for (size_t i = 0; i < rows; ++i) {
                d.set_datum(i, std::span<const T>(v.data() + i * width, width));
            }
            return f(d);
        }
        default: {
            auto m = svs::Matrix<T>(svs::make_dims(rows, width));
            std::copy(v.begin(), v.end(), m.data());
            return f(m);
        }
    }
}

template <typename A, typename B> void run(vh::Gen& g, vh::Ctx& ctx, const char* types) {
    size_t rows = g.skew(1, 40);
    size_t wa = g.skew(1, 60), wb = g.skew(1, 60);
    size_t range = std::max(wa, wb) + g.skew(0, g.flip() ? 10 : 150);
    range = std::min<size_t>(range, std::is_same_v<A, uint8_t> || std::is_same_v<B, uint8_t> ? 250 : range);
    auto a = table<A>(rows, wa, range, g.seed());
    auto b = table<B>(rows, wb, range, g.seed());
    size_t similar = g.raw(2); // make results resemble the ground truth
    vh::Stream s(g.seed());
    if (similar > 0) {
        for (size_t r = 0; r < rows; ++r) {
            std::vector<size_t> row;
            for (size_t j = 0; j < wb; ++j) {
                row.push_back(b[r * wb + j]);
            }
            for (size_t j = 0; j < std::min(wa, wb); ++j) {
                if (similar == 2 || s.below(3) > 0) {
                    size_t v = a[r * wa + j];
                    auto it = std::find(row.begin(), row.end(), v);
                    if (it != row.end()) {
                        std::swap(*it, row[j]);
                    } else {
                        row[j] = v;
                    }
                }
            }
            for (size_t j = 0; j < wb; ++j) {
                b[r * wb + j] = B(row[j]);
            }
        }
    }
    auto recall = [&](const std::vector<A>& x, const std::vector<B>& y, size_t k, size_t n) {
        return with_table(g, x, rows, wa, [&](const auto& p) {
            return with_table(g, y, rows, wb, [&](const auto& q) { return svs::k_recall_at_n(p, q, k, n); });
        });
    };
    // 0 stands for the width of the results.
    size_t k = g.chance(1, 6) ? 0 : g.range(1, wa + 2), n = g.chance(1, 6) ? 0 : g.range(1, wb + 2);
    ctx.describe("{} rows={} ground truth {} wide, results {} wide, ids below {}, {}-recall@{}", types, rows, wa, wb, range, k, n);
    size_t rk = k ? k : wb, rn = n ? n : wb;
    bool ok = rk <= rn && rk <= wa && rn <= wb;
    double got = -1;
    bool threw = vh::throws([&] { got = recall(a, b, k, n); });
    VH_REQUIRE(threw == !ok, "{}-recall@{} of tables {} and {} wide {}", k, n, wa, wb, threw ? "is refused" : "is accepted");
    if (!ok) {
        ctx.label("refused");
    } else {
        size_t count = 0;
        for (size_t r = 0; r < rows; ++r) {
            count += common(&a[r * wa], rk, &b[r * wb], rn);
        }
        double want = double(count) / double(rk * rows);
        VH_REQUIRE(std::abs(got - want) <= 1e-12, "recall {} instead of {}", got, want);
        VH_REQUIRE(got >= 0 && got <= 1, "recall {}", got);
        // Order within the first k and the first n does not matter.
        auto pa = a;
        auto pb = b;
        for (size_t r = 0; r < rows; ++r) {
            for (size_t j = rk; j > 1; --j) {
                std::swap(pa[r * wa + j - 1], pa[r * wa + s.below(j)]);
            }
            for (size_t j = rn; j > 1; --j) {
                std::swap(pb[r * wb + j - 1], pb[r * wb + s.below(j)]);
            }
        }
        VH_REQUIRE(recall(pa, pb, k, n) == got, "recall {} becomes {} when the tables are reordered", got, recall(pa, pb, k, n));
        // Monotone in n.
        if (rn < wb) {
            double more = recall(a, b, rk, rn + 1);
            VH_REQUIRE(more >= got, "recall falls from {} to {} when one more result counts", got, more);
        }
        if (count == rk * rows) {
            VH_REQUIRE(got == 1.0, "all neighbours are found but recall is {}", got);
            ctx.label("recall 1");
        } else if (count == 0) {
            ctx.label("recall 0");
        }
        // Query results and other thread-free forms agree.
        if constexpr (std::is_same_v<B, size_t>) {
            auto q = svs::QueryResult<size_t>(rows, wb);
            for (size_t r = 0; r < rows; ++r) {
                for (size_t j = 0; j < wb; ++j) {
                    q.index(r, j) = b[r * wb + j];
                    q.distance(r, j) = float(j);
                }
            }
            double again = with_table(g, a, rows, wa, [&](const auto& p) { return svs::k_recall_at_n(p, q, k, n); });
            VH_REQUIRE(again == got, "recall of the query result {} instead of {}", again, got);
            double viewed = with_table(g, a, rows, wa, [&](const auto& p) { return svs::k_recall_at_n(p, q.view(), k, n); });
            VH_REQUIRE(viewed == got, "recall of the viewed query result {} instead of {}", viewed, got);
        }
    }
    // Tables of different height.
    {
        size_t other = rows + 1;
        auto c = table<A>(other, wa, range, 1);
        bool refused = vh::throws([&] {
            auto p = svs::data::ConstSimpleDataView<A>(c.data(), other, wa);
            auto q = svs::data::ConstSimpleDataView<B>(b.data(), rows, wb);
            g.flip() ? svs::k_recall_at_n(p, q, 1, 1) : svs::k_recall_at_n(q, p, 1, 1);
        });
        VH_REQUIRE(refused, "tables of {} and {} rows are accepted", other, rows);
    }
    ctx.interesting(ok && rows > 1 && rk > 1);
}
} // namespace

VH_CASES("uint32 against size_t", 3) { run<uint32_t, size_t>(g, ctx, "uint32/size_t"); }
VH_CASES("uint32 against uint32", 2) { run<uint32_t, uint32_t>(g, ctx, "uint32/uint32"); }
VH_CASES("size_t against uint32", 1) { run<size_t, uint32_t>(g, ctx, "size_t/uint32"); }
VH_CASES("int64 against uint8", 1) { run<int64_t, uint8_t>(g, ctx, "int64/uint8"); }
VH_CASES("size_t against size_t", 2) { run<size_t, size_t>(g, ctx, "size_t/size_t"); }
