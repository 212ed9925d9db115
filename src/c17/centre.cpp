// C17: medioid, component-wise means and variances, and k-means.
#include "svsgen.hpp"
#include "svs/core/data.h"
#include "svs/core/kmeans.h"
#include "svs/core/medioid.h"
#include "svs/lib/threads.h"

#include <unordered_set>

namespace {
using namespace vg;

template <typename T> double value(T x) {
    if constexpr (std::is_same_v<T, Float16>) {
        return double(float(x));
    } else {
        return double(x);
    }
}

// ------------------------------------------------------------------------------- medioid
// Maps a vector to a scaled and reversed copy; keeps state, as the library allows.
struct Reversing {
    double scale = 1;
    std::vector<float> buffer{};
    template <typename S> const std::vector<float>& operator()(const S& x) {
        buffer.resize(x.size());
        for (size_t i = 0; i < x.size(); ++i) {
            buffer[x.size() - 1 - i] = float(scale * value(x[i]));
        }
        return buffer;
    }
};

template <typename T, typename Data> void medioid(vh::Gen& g, vh::Ctx& ctx, const Data& data, const Mat<T>& x, size_t threads, const std::string& what) {
    size_t n = x.n, d = x.d;
    // Which vectors are allowed.
    std::vector<char> allowed(n, 1);
    size_t filter = g.raw(3);
    size_t special = g.raw(n - 1);
    vh::Stream s(g.seed());
    if (filter == 1) {
        for (size_t i = 0; i < n; ++i) {
            allowed[i] = s.below(3) > 0;
        }
    } else if (filter == 2) {
        for (size_t i = 0; i < n; ++i) {
            allowed[i] = i >= special;
        }
    } else if (filter == 3) {
        for (size_t i = 0; i < n; ++i) {
            allowed[i] = s.below(10) == 0;
        }
    }
    allowed[special] = 1;
    auto pred = [&](size_t i) { return bool(allowed.at(i)); };
    auto params = g.flip() ? svs::utils::PairwiseSumParameters{} : svs::utils::PairwiseSumParameters(g.skew(1, 40), g.skew(1, 60));
    size_t mapping = g.chance(1, 3) ? g.range(1, 2) : 0;
    double scale = mapping == 2 ? -0.5 : 1;
    ctx.describe("medioid of {} n={} d={} filter={} linear={} batch={} map={} threads={}", what, n, d, filter, params.linear_threshold, params.thread_batchsize, mapping, threads);
    std::vector<double> mean(d, 0), var(d, 0), mag(d, 0);
    size_t count = 0;
    auto at = [&](size_t i, size_t k) {
        return mapping ? double(float(scale * value(x.row(i)[d - 1 - k]))) : value(x.row(i)[k]);
    };
    for (size_t i = 0; i < n; ++i) {
        if (allowed[i]) {
            ++count;
            for (size_t k = 0; k < d; ++k) {
                mean[k] += at(i, k);
                mag[k] += std::abs(at(i, k));
            }
        }
    }
    for (size_t k = 0; k < d; ++k) {
        mean[k] /= double(count);
        mag[k] /= double(count);
    }
    for (size_t i = 0; i < n; ++i) {
        for (size_t k = 0; allowed[i] && k < d; ++k) {
            var[k] += (at(i, k) - mean[k]) * (at(i, k) - mean[k]);
        }
    }
    for (auto& v : var) {
        v /= double(count);
    }
    auto pool = svs::threads::NativeThreadPool(threads);
    std::vector<double> got;
    size_t id = 0;
    if (mapping) {
        auto map = Reversing{scale};
        got = svs::utils::compute_medioid(data, pool, pred, map, params);
        id = svs::utils::find_medioid(data, pool, pred, map, params);
    } else if (filter == 0 && g.flip()) {
        got = svs::utils::compute_medioid(data, pool);
        id = g.flip() ? svs::utils::find_medioid(data, pool) : svs::utils::find_medioid(data, threads);
    } else {
        got = svs::utils::compute_medioid(data, pool, pred, svs::lib::identity(), params);
        id = svs::utils::find_medioid(data, pool, pred, svs::lib::identity(), params);
    }
    VH_REQUIRE(got.size() == d, "mean of {} components", got.size());
    for (size_t k = 0; k < d; ++k) {
        VH_REQUIRE(std::abs(got[k] - mean[k]) <= 1e-9 * (mag[k] + 1e-30), "component {} of the mean is {} instead of {}", k, got[k], mean[k]);
    }
    VH_REQUIRE(id < n, "the medioid is vector {} of {}", id, n);
    VH_REQUIRE(allowed[id], "the medioid {} is excluded by the filter", id);
    auto dist = [&](size_t i) {
        double r = 0;
        for (size_t k = 0; k < d; ++k) {
            r += (at(i, k) - mean[k]) * (at(i, k) - mean[k]);
        }
        return r;
    };
    double mine = dist(id), scale2 = 0;
    for (size_t k = 0; k < d; ++k) {
        scale2 += mag[k] * mag[k];
    }
    size_t ties = 0;
    for (size_t i = 0; i < n; ++i) {
        if (allowed[i]) {
            double r = dist(i);
            VH_REQUIRE(mine <= r * (1 + 1e-6) + 1e-9 * scale2, "vector {} at {} from the mean is nearer than the medioid {} at {}", i, r, id, mine);
            ties += r == mine;
        }
    }
    if (ties > 1) {
        ctx.label("several nearest");
    }
    // Variances about the mean.
    if (!mapping) {
        auto v = svs::utils::op_pairwise(data, svs::utils::CountVariance(mean), pool, pred, svs::lib::identity(), params);
        VH_REQUIRE(v.size() == d, "variances of {} components", v.size());
        for (size_t k = 0; k < d; ++k) {
            VH_REQUIRE(std::abs(v[k] - var[k]) <= 1e-6 * var[k] + 1e-6 * mag[k] * mag[k], "component {} of the variance is {} instead of {}", k, v[k], var[k]);
        }
    }
    ctx.interesting(count > 2);
}

template <typename T> void medioids(vh::Gen& g, vh::Ctx& ctx) {
    bool big = g.chance(1, 20);
    size_t n = g.skew(1, big ? 5000 : 150);
    size_t d = big ? g.range(1, 4) : gen_dim(g, 70);
    size_t kind = g.raw(NUM_KINDS - 1);
    auto x = matrix<T>(n, d, kind, g.seed());
    size_t threads = gen_few_threads(g);
    auto what = fmt::format("{} {}", type_name<T>(), kind_name(kind));
    switch (g.raw(2)) {
        case 0: return medioid<T>(g, ctx, x.view(), x, threads, what + " view");
        case 1: return medioid<T>(g, ctx, simple(x), x, threads, what + " contiguous");
        default: {
            using B = svs::data::BlockedData<T, svs::Dynamic, svs::HugepageAllocator<T>>;
            auto b = B(n, d, typename B::allocator_type(svs::data::BlockingParameters{.blocksize_bytes = svs::lib::PowerOfTwo(10)}));
            fill(b, x);
            return medioid<T>(g, ctx, b, x, threads, what + " blocked");
        }
    }
}

// ------------------------------------------------------------------------------- k-means
template <typename T> double mse(const Mat<T>& x, const svs::data::SimpleData<float>& c) {
    double sum = 0;
    for (size_t i = 0; i < x.n; ++i) {
        double best = std::numeric_limits<double>::infinity();
        for (size_t j = 0; j < c.size(); ++j) {
            double r = 0;
            auto q = c.get_datum(j);
            for (size_t k = 0; k < x.d; ++k) {
                double t = value(x.row(i)[k]) - double(q[k]);
                r += t * t;
            }
            best = std::min(best, r);
        }
        sum += best;
    }
    return sum / double(x.n);
}

bool same(const svs::data::SimpleData<float>& a, const svs::data::SimpleData<float>& b) {
    for (size_t i = 0; i < a.size(); ++i) {
        if (std::memcmp(a.get_datum(i).data(), b.get_datum(i).data(), a.dimensions() * sizeof(float)) != 0) {
            return false;
        }
    }
    return a.size() == b.size() && a.dimensions() == b.dimensions();
}

template <typename T> void kmeans(vh::Gen& g, vh::Ctx& ctx) {
    bool large = g.chance(1, 12); // beyond the granularity of parallel work
    size_t n = large ? g.range(250, 900) : g.skew(1, 200);
    size_t d = g.range(1, 12);
    size_t kind = g.raw(NUM_KINDS - 1);
    auto x = matrix<T>(n, d, kind, g.seed());
    size_t clusters = large ? g.skew(1, 40) : g.chance(1, 6) ? n : g.chance(1, 8) ? 1 : g.skew(1, n);
    bool full = g.flip();
    size_t minibatch = full ? n + g.raw(3) : g.skew(1, n);
    size_t epochs = g.range(0, 6);
    size_t seed = g.flip() ? svs::KMEANS_DEFAULT_SEED : g.seed();
    size_t threads = gen_few_threads(g);
    ctx.describe("k-means of {} {} n={} d={} clusters={} minibatch={} epochs={} seed={} threads={}", type_name<T>(), kind_name(kind), n, d, clusters, minibatch, epochs, seed, threads);
    auto data = simple(x);
    auto params = svs::KMeansParameters(clusters, minibatch, epochs, seed);
    // More clusters than vectors cannot be had.
    if (g.chance(1, 10)) {
        auto bad = params;
        bad.clusters = n + g.range(1, 5);
        VH_REQUIRE(vh::throws([&] { svs::train(bad, data, threads); }), "{} clusters of {} vectors are accepted", bad.clusters, n);
        ctx.label("too many clusters");
    }
    std::vector<double> errors;
    size_t calls = 0;
    auto c = svs::train(params, data, threads, [&](const auto& /*data*/, const auto& now, auto& /*pool*/, auto& /*timer*/) {
        ++calls;
        errors.push_back(mse(x, now));
    });
    VH_REQUIRE(calls == epochs, "{} of {} epochs are reported", calls, epochs);
    VH_REQUIRE(c.size() == clusters && c.dimensions() == d, "{} centroids of {} dimensions", c.size(), c.dimensions());
    for (size_t k = 0; k < d; ++k) {
        double lo = std::numeric_limits<double>::infinity(), hi = -lo;
        for (size_t i = 0; i < n; ++i) {
            lo = std::min(lo, value(x.row(i)[k]));
            hi = std::max(hi, value(x.row(i)[k]));
        }
        double slack = 1e-5 * std::max(std::abs(lo), std::abs(hi));
        for (size_t i = 0; i < clusters; ++i) {
            double v = c.get_datum(i)[k];
            VH_REQUIRE(std::isfinite(v), "centroid {} has {} in dimension {}", i, v, k);
            VH_REQUIRE(v >= lo - slack && v <= hi + slack, "centroid {} has {} in dimension {} where the data lies in [{}, {}]", i, v, k, lo, hi);
        }
    }
    // The same seed gives the same centroids, whatever the number of threads.
    size_t other = g.range(1, 3);
    auto again = svs::train(params, data, svs::threads::NativeThreadPool(other));
    VH_REQUIRE(same(c, again), "training again with {} instead of {} threads gives other centroids", other, threads);
    // Training starts from distinct vectors of the dataset.
    auto none = params;
    none.epochs = 0;
    auto init = svs::train(none, data, threads);
    std::vector<char> taken(n, 0);
    for (size_t i = 0; i < clusters; ++i) {
        bool found = false;
        for (size_t j = 0; j < n && !found; ++j) {
            bool eq = !taken[j];
            for (size_t k = 0; eq && k < d; ++k) {
                eq = init.get_datum(i)[k] == float(value(x.row(j)[k]));
            }
            if (eq) {
                taken[j] = 1;
                found = true;
            }
        }
        VH_REQUIRE(found, "initial centroid {} is no vector of the dataset, or the same one as another", i);
    }
    // Training improves: exactly so when every batch is the whole dataset.
    double before = mse(x, init), scale = 1e-4 * before;
    double spread = 0;
    for (auto v : x.v) {
        spread += value(v) * value(v);
    }
    scale += 1e-6 * spread / double(n);
    double first = before;
    for (size_t e = 0; e < epochs; ++e) {
        if (full) {
            VH_REQUIRE(errors[e] <= before + scale, "epoch {} over the whole dataset raises the mean squared error from {} to {}", e, before, errors[e]);
            before = errors[e];
        } else {
            // Only a plausibility bound: small batches come without a guarantee.
            VH_REQUIRE(n < 20 || errors[e] <= 3 * first + scale, "epoch {} leaves a mean squared error of {}, it was {} at the start", e, errors[e], first);
        }
    }
    // A single centroid ends at the mean, however the dataset is divided into batches.
    if (clusters == 1 && epochs > 0) {
        for (size_t k = 0; k < d; ++k) {
            double mean = 0, mag = 0;
            for (size_t i = 0; i < n; ++i) {
                mean += value(x.row(i)[k]);
                mag += std::abs(value(x.row(i)[k]));
            }
            VH_REQUIRE(std::abs(c.get_datum(0)[k] - mean / n) <= 1e-4 * mag / n, "the only centroid has {} in dimension {} where the mean is {}", c.get_datum(0)[k], k, mean / n);
        }
    }
    if (epochs > 0) {
        auto pool = svs::threads::NativeThreadPool(threads);
        double lib = svs::mean_squared_error(data, c, pool), mine = mse(x, c);
        VH_REQUIRE(std::abs(lib - mine) <= 1e-4 * mine + scale, "mean_squared_error is {} instead of {}", lib, mine);
    }
    ctx.interesting(clusters > 1 && clusters < n && epochs > 0);
}
} // namespace

VH_CASES("medioid float", 3) { medioids<float>(g, ctx); }
VH_CASES("medioid float16", 1) { medioids<Float16>(g, ctx); }
VH_CASES("medioid uint8", 1) { medioids<uint8_t>(g, ctx); }
VH_CASES("medioid int8", 1) { medioids<int8_t>(g, ctx); }
VH_CASES("k-means float", 3) { kmeans<float>(g, ctx); }
VH_CASES("k-means float16", 1) { kmeans<Float16>(g, ctx); }
VH_CASES("k-means int8", 1) { kmeans<int8_t>(g, ctx); }
