// Generators and oracles shared by the checks: datasets, exact distances, top-k validity.
#pragma once
#include "vh.hpp"

#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/concepts/distance.h"
#include "svs/lib/neighbor.h"
#include "svs/lib/float16.h"

#include <cmath>
#include <limits>
#include <numeric>
#include <optional>

namespace vg {

using svs::Float16;

// A dense row-major matrix owned by the test (never touches the library's containers).
template <typename T> struct Mat {
    size_t n = 0, d = 0;
    std::vector<T> v{};
    Mat() = default;
    Mat(size_t n_, size_t d_)
        : n{n_}
        , d{d_}
        , v(n_ * d_) {}
    T* row(size_t i) { return v.data() + i * d; }
    const T* row(size_t i) const { return v.data() + i * d; }
    svs::data::ConstSimpleDataView<T> view() const {
        return svs::data::ConstSimpleDataView<T>(v.data(), n, d);
    }
    std::span<const T> span(size_t i) const { return {row(i), d}; }
    void push_row(const T* p) {
        v.insert(v.end(), p, p + d);
        ++n;
    }
};

inline const char* kind_name(size_t k) {
    static const char* names[] = {"grid", "coarse-ties", "wide-int", "gauss", "dups", "clusters", "scaled"};
    return names[k];
}
constexpr size_t NUM_KINDS = 7;
// Kinds whose values are small integers in every element type: distances are exact in float.
inline bool kind_exact(size_t k) { return k == 0 || k == 1 || k == 4; }

template <typename T> T to_elem(double x) {
    if constexpr (std::is_same_v<T, uint8_t>) {
        return static_cast<uint8_t>(std::min(255.0, std::max(0.0, std::floor(x + 0.5))));
    } else if constexpr (std::is_same_v<T, int8_t>) {
        return static_cast<int8_t>(std::min(127.0, std::max(-128.0, std::floor(x + 0.5))));
    } else if constexpr (std::is_same_v<T, Float16>) {
        return Float16(static_cast<float>(x));
    } else {
        return static_cast<T>(x);
    }
}

// Fill a matrix of the given kind from one sub-seed.  Unsigned types get an offset.
template <typename T> Mat<T> matrix(size_t n, size_t d, size_t kind, uint64_t seed) {
    Mat<T> m(n, d);
    vh::Stream s(seed);
    constexpr bool uns = std::is_same_v<T, uint8_t>;
    constexpr bool integral = std::is_same_v<T, uint8_t> || std::is_same_v<T, int8_t>;
    double off = uns ? 8.0 : 0.0;
    auto put = [&](size_t i, size_t j, double x) { m.row(i)[j] = to_elem<T>(x); };
    switch (kind) {
        case 0: // small integers
            for (size_t i = 0; i < n; ++i) {
                for (size_t j = 0; j < d; ++j) {
                    put(i, j, double(s.below(17)) - 8 + off);
                }
            }
            break;
        case 1: // very few values: many equal distances
            for (size_t i = 0; i < n; ++i) {
                for (size_t j = 0; j < d; ++j) {
                    put(i, j, double(s.below(2)) + off);
                }
            }
            break;
        case 2: // the whole range of an 8-bit integer
            for (size_t i = 0; i < n; ++i) {
                for (size_t j = 0; j < d; ++j) {
                    double x = double(s.below(256));
                    if (s.below(8) == 0) {
                        x = s.below(2) ? 255 : 0;
                    }
                    put(i, j, uns ? x : x - 128);
                }
            }
            break;
        case 3:
            for (size_t i = 0; i < n; ++i) {
                for (size_t j = 0; j < d; ++j) {
                    put(i, j, integral ? s.gauss() * 30 + (uns ? 100 : 0) : s.gauss());
                }
            }
            break;
        case 4: { // few distinct rows, repeated
            size_t distinct = 1 + s.below(std::max<size_t>(1, n / 2));
            Mat<T> base = matrix<T>(distinct, d, 0, s.next());
            for (size_t i = 0; i < n; ++i) {
                size_t r = i < distinct ? i : s.below(distinct);
                std::copy(base.row(r), base.row(r) + d, m.row(i));
            }
            break;
        }
        case 5: { // clusters
            size_t c = 1 + s.below(5);
            std::vector<double> centers(c * d);
            for (auto& x : centers) {
                x = s.gauss() * (integral ? 40 : 5);
            }
            for (size_t i = 0; i < n; ++i) {
                size_t k = s.below(c);
                for (size_t j = 0; j < d; ++j) {
                    put(i, j, centers[k * d + j] + s.gauss() * (integral ? 4 : 0.3) + (uns ? 100 : 0));
                }
            }
            break;
        }
        default: { // large magnitude floats, or tiny ones
            double scale = s.below(2) ? 100.0 : 0.01;
            for (size_t i = 0; i < n; ++i) {
                for (size_t j = 0; j < d; ++j) {
                    put(i, j, integral ? s.gauss() * 50 + (uns ? 120 : 0) : s.gauss() * scale);
                }
            }
            break;
        }
    }
    return m;
}

enum class Dist { L2, IP, Cosine };
// Cosine similarity has no value where a vector is zero, and no order exists among results without a value.
template <typename T> Mat<T> with_distances(Mat<T> m, Dist kind) {
    for (size_t i = 0; kind == Dist::Cosine && i < m.n; ++i) {
        if (std::all_of(m.row(i), m.row(i) + m.d, [](auto x) { return float(x) == 0; })) m.row(i)[i % m.d] = T(1);
    }
    return m;
}
inline const char* dist_name(Dist d) {
    return d == Dist::L2 ? "L2" : d == Dist::IP ? "IP" : "Cosine";
}
template <typename D> struct dist_tag;
template <> struct dist_tag<svs::distance::DistanceL2> {
    static constexpr Dist value = Dist::L2;
};
template <> struct dist_tag<svs::distance::DistanceIP> {
    static constexpr Dist value = Dist::IP;
};
template <> struct dist_tag<svs::distance::DistanceCosineSimilarity> {
    static constexpr Dist value = Dist::Cosine;
};
inline svs::DistanceType dist_enum(Dist d) {
    return d == Dist::L2 ? svs::DistanceType::L2 : d == Dist::IP ? svs::DistanceType::MIP
                                                                  : svs::DistanceType::Cosine;
}
// True if smaller is nearer.
inline bool ascending(Dist d) { return d == Dist::L2; }
inline bool nearer(Dist d, double a, double b) { return ascending(d) ? a < b : a > b; }

struct Ref {
    double value; // the exact distance
    double tol;   // largest error that float evaluation in any order can make (with margin)
};

template <typename A, typename B> Ref ref_distance(Dist kind, const A* a, const B* b, size_t d) {
    double l2 = 0, ip = 0, na = 0, nb = 0, absip = 0, absl2 = 0;
    for (size_t i = 0; i < d; ++i) {
        double x = static_cast<float>(a[i]), y = static_cast<float>(b[i]);
        l2 += (x - y) * (x - y);
        absl2 += (std::abs(x) + std::abs(y)) * std::abs(x - y);
        ip += x * y;
        absip += std::abs(x * y);
        na += x * x;
        nb += y * y;
    }
    const double eps = 1.2e-7;
    double terms = 6.0 + double(d);
    switch (kind) {
        case Dist::L2: return {l2, eps * terms * (l2 + absl2) + 1e-30};
        case Dist::IP: return {ip, eps * terms * absip + 1e-30};
        default: {
            double n = std::sqrt(na) * std::sqrt(nb);
            if (n == 0) {
                return {std::numeric_limits<double>::quiet_NaN(), 0};
            }
            return {ip / n, eps * terms * (absip / n + std::abs(ip / n)) + 1e-6};
        }
    }
}

// Is `ids`/`dists` (k entries, best first) a correct top-k of `ref` over the candidates?
// `ref[i]` is empty for ids that may not be returned.  With fewer than k candidates only the
// first `candidates` entries are judged.
inline void check_topk(
    Dist kind,
    const std::vector<std::optional<Ref>>& ref,
    const std::vector<size_t>& ids,
    const std::vector<float>& dists,
    bool exact,
    const std::string& what,
    bool complete = true
) {
    size_t candidates = 0;
    for (auto& r : ref) {
        candidates += r.has_value();
    }
    size_t k = std::min(ids.size(), candidates);
    std::vector<char> seen(ref.size(), 0);
    for (size_t j = 0; j < k; ++j) {
        size_t id = ids[j];
        VH_REQUIRE(id < ref.size() && ref[id].has_value(), "{}: neighbor {} has id {}, which is not in the searched set", what, j, id);
        VH_REQUIRE(!seen[id], "{}: id {} returned twice", what, id);
        seen[id] = 1;
        double tol = exact ? 0 : ref[id]->tol;
        double err = std::abs(double(dists[j]) - ref[id]->value);
        VH_REQUIRE(err <= tol, "{}: neighbor {} (id {}) reported at distance {}, true distance {} (tol {})", what, j, id, dists[j], ref[id]->value, tol);
        if (j > 0) {
            VH_REQUIRE(!nearer(kind, dists[j], dists[j - 1]), "{}: results out of order at {}: {} then {}", what, j, dists[j - 1], dists[j]);
        }
    }
    if (!complete || k == 0) {
        return;
    }
    double worst = dists[k - 1];
    for (size_t i = 0; i < ref.size(); ++i) {
        if (ref[i].has_value() && !seen[i]) {
            double tol = exact ? 0 : 2 * ref[i]->tol + 1e-6 * std::abs(worst);
            double margin = ascending(kind) ? worst - ref[i]->value : ref[i]->value - worst;
            VH_REQUIRE(margin <= tol, "{}: id {} at distance {} is nearer than the worst returned ({}) but missing", what, i, ref[i]->value, worst);
        }
    }
}

template <typename T> constexpr const char* type_name() {
    if constexpr (std::is_same_v<T, float>) {
        return "float";
    } else if constexpr (std::is_same_v<T, Float16>) {
        return "float16";
    } else if constexpr (std::is_same_v<T, int8_t>) {
        return "int8";
    } else if constexpr (std::is_same_v<T, uint8_t>) {
        return "uint8";
    } else {
        return "other";
    }
}

inline size_t gen_dim(vh::Gen& g, size_t max = 160) {
    static const std::vector<size_t> edges{1,  2,  3,  4,  7,  8,  9,  15, 16, 17,  24,  31,  32,
                                           33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 127, 128, 129};
    if (g.flip()) {
        size_t v = edges[g.raw(edges.size() - 1)];
        return std::min(v, max);
    }
    return g.skew(1, max);
}

// Copy into a library container.
template <typename Data, typename T> void fill(Data& dst, const Mat<T>& m) {
    for (size_t i = 0; i < m.n; ++i) {
        dst.set_datum(i, m.span(i));
    }
}
template <typename T, size_t N = svs::Dynamic> svs::data::SimpleData<T, N> simple(const Mat<T>& m) {
    auto d = svs::data::SimpleData<T, N>(m.n, m.d);
    fill(d, m);
    return d;
}

} // namespace vg

namespace vg {
// Mostly one thread: pools spin while they wait, so wide pools are slow on a busy machine.
// Thread counts for work with many barriers (the library spins while it waits).
inline size_t gen_few_threads(vh::Gen& g) { return g.chance(1, 5) ? g.range(2, 3) : 1; }

inline size_t gen_threads(vh::Gen& g) {
    if (!g.chance(1, 5)) {
        return 1;
    }
    return g.pick<size_t>({2, 3, 2, 4, 2, 8});
}
} // namespace vg
