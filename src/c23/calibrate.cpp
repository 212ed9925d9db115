// C23: calibration, over made-up recall surfaces and over real indexes.
#include "dynamic_sim.hpp"

#include "svs/core/recall.h"
#include "svs/index/vamana/calibrate.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/index.h"
#include "svs/lib/timing.h"
#include "svs/orchestrators/dynamic_vamana.h"
#include "svs/orchestrators/vamana.h"

namespace {
namespace vam = svs::index::vamana;
using SBO = vam::CalibrationParameters::SearchBufferOptimization;
using vam::CalibrationParameters;
using vam::VamanaSearchParameters;

struct Plain {};
struct Reranked {};
bool svs_invoke(svs::tag_t<vam::extensions::calibration_uses_reranking<Reranked>>) { return true; }

// What calibrate() needs of an index.
template <typename Data> struct Mock {
    using data_type = Data;
    VamanaSearchParameters now{};
    size_t degree = 1;
    VamanaSearchParameters get_search_parameters() const { return now; }
    size_t max_degree() const { return degree; }
};

std::string show(const VamanaSearchParameters& p) {
    return fmt::format("window={} capacity={} visited={} prefetch={}/{}", p.buffer_config_.get_search_window_size(), p.buffer_config_.get_total_capacity(), p.search_buffer_visited_set_, p.prefetch_lookahead_, p.prefetch_step_);
}
bool same(const VamanaSearchParameters& a, const VamanaSearchParameters& b) { return show(a) == show(b); }
size_t window_of(const VamanaSearchParameters& p) { return p.buffer_config_.get_search_window_size(); }
size_t capacity_of(const VamanaSearchParameters& p) { return p.buffer_config_.get_total_capacity(); }

std::string show(const CalibrationParameters& c) {
    return fmt::format("window<={} capacity<={} iterations={} timeout={} steps={} optimize={} prefetch={} existing={}", c.search_window_size_upper_, c.search_window_capacity_upper_, c.timing_iterations_, c.search_timeout_, vh::show(c.prefetch_steps_, 5), c.search_buffer_optimization_, c.train_prefetchers_, c.use_existing_parameter_values_);
}

VamanaSearchParameters gen_current(vh::Gen& g, size_t most) {
    size_t w = g.skew(1, most), c = g.flip() ? w : w + g.skew(0, most);
    return VamanaSearchParameters({w, c}, g.flip(), g.pick<size_t>({4, 0, 1, 7, 100}), g.pick<size_t>({1, 0, 2, 9}));
}
CalibrationParameters gen_calibration(vh::Gen& g, size_t most) {
    CalibrationParameters c;
    c.search_window_size_upper_ = g.skew(1, most);
    c.search_window_capacity_upper_ = g.flip() ? std::max(c.search_window_size_upper_, g.skew(1, most)) : g.skew(1, most);
    c.timing_iterations_ = g.pick<size_t>({1, 2, 3, 0});
    c.search_timeout_ = g.pick<double>({0.125, 0.0, 0.00001});
    c.prefetch_steps_.clear();
    for (size_t i = 0, n = g.range(0, 3); i < n; ++i) c.prefetch_steps_.push_back(g.range(0, 6));
    c.search_buffer_optimization_ = g.pick<SBO>({SBO::All, SBO::ROIOnly, SBO::ROITuneUp, SBO::Disable});
    c.train_prefetchers_ = g.flip();
    c.use_existing_parameter_values_ = !g.chance(1, 4);
    return c;
}

// Everything that is promised of `got`, in terms of the recall that settings give.
// `monotone`: recall never falls with the window or the capacity.
template <typename Recall>
void judge(const CalibrationParameters& c, const VamanaSearchParameters& seed, size_t k, double target, size_t degree, bool reranks, bool monotone, const VamanaSearchParameters& got, const Recall& recall) {
    size_t w = window_of(got), cap = capacity_of(got);
    auto mode = c.search_buffer_optimization_;
    VH_REQUIRE(got.search_buffer_visited_set_ == seed.search_buffer_visited_set_, "{}: the visited set was {} before", show(got), seed.search_buffer_visited_set_);
    bool untouched = got.prefetch_lookahead_ == seed.prefetch_lookahead_ && got.prefetch_step_ == seed.prefetch_step_;
    bool trained = (got.prefetch_lookahead_ == 0 && got.prefetch_step_ == 0) || (got.prefetch_lookahead_ >= 1 && got.prefetch_lookahead_ <= degree && std::count(c.prefetch_steps_.begin(), c.prefetch_steps_.end(), got.prefetch_step_));
    if (!c.train_prefetchers_) {
        VH_REQUIRE(untouched, "{}: prefetching is not to be trained and was {}/{}", show(got), seed.prefetch_lookahead_, seed.prefetch_step_);
    } else {
        VH_REQUIRE(untouched || trained, "{}: prefetching of no step asked for, or beyond the degree {}", show(got), degree);
    }
    if (mode == SBO::Disable) {
        VH_REQUIRE(got.buffer_config_ == seed.buffer_config_, "{}: the buffer is not to be optimized and was {}", show(got), show(seed));
        VH_REQUIRE(!c.train_prefetchers_ || trained, "{}: prefetching is not trained", show(got));
        return;
    }
    size_t have = capacity_of(seed);
    bool tune = mode == SBO::ROITuneUp;
    auto config = [&](size_t window) {
        auto p = seed;
        p.buffer_config({window, tune ? std::max(window, have) : window});
        return p;
    };
    size_t lower = tune && have >= k ? 1 : k;
    size_t upper = std::max(lower, c.search_window_size_upper_);
    VH_REQUIRE(w >= 1 && w <= upper, "{}: the window is outside of its bounds ({})", show(got), upper);
    VH_REQUIRE(cap >= w, "{}: the capacity is below the window", show(got));
    if (mode == SBO::ROIOnly) {
        VH_REQUIRE(cap == w, "{}: only the window is to be optimized", show(got));
    } else if (tune) {
        VH_REQUIRE(cap == std::max(w, have), "{}: the capacity is to stay at {} or the window", show(got), have);
    } else if (!reranks) {
        VH_REQUIRE(cap == w || cap == k, "{}: the capacity is neither the window nor the number of neighbors", show(got));
    } else {
        VH_REQUIRE(cap <= std::max({upper, c.search_window_capacity_upper_, k}), "{}: the capacity is beyond its bound", show(got));
        VH_REQUIRE(cap >= k, "{}: the capacity does not hold {} neighbors", show(got), k);
    }
    double best = recall(config(upper));
    double reached = recall(got);
    if (best >= target) {
        VH_REQUIRE(reached >= target, "{} has recall {}; a window of {} has {} and {} was asked for", show(got), reached, upper, best, target);
    }
    if (!monotone) return;
    // The smallest uniform window that reaches the target.
    std::optional<size_t> least;
    for (size_t x = lower; x <= upper && !least; ++x) {
        if (recall(config(x)) >= target) least = x;
    }
    if (!least) {
        VH_REQUIRE(reached == best && got.buffer_config_ == config(upper).buffer_config_, "no window reaches {}: {} is not the largest allowed ({})", target, show(got), upper);
        VH_REQUIRE(untouched, "{}: no window reaches the target, but prefetching was trained", show(got));
        return;
    }
    if (mode != SBO::All || (*least != k && !reranks)) {
        VH_REQUIRE(w == *least, "{}: a window of {} reaches {}", show(got), *least, target);
    } else if (!reranks) {
        VH_REQUIRE(w <= k && cap == k, "{}: a window of {} reaches the target", show(got), k);
        if (*least < upper) {
            for (size_t x = 1; x < w; ++x) {
                auto p = seed;
                p.buffer_config({x, k});
                VH_REQUIRE(recall(p) < target, "{}: a window of {} and capacity {} reaches {}", show(got), x, k, target);
            }
        }
    } else {
        VH_REQUIRE(w <= *least, "{}: a window of {} reaches the target", show(got), *least);
    }
    // The largest window is not tried, so prefetching need not be trained when it alone is enough.
    VH_REQUIRE(!c.train_prefetchers_ || trained || *least == upper, "{}: prefetching is not trained", show(got));
}

// A recall for every window and capacity.
struct Surface {
    uint64_t seed;
    size_t k;
    double floor, ceiling, slope, bonus;
    size_t steps;
    double noise;
    double operator()(const VamanaSearchParameters& p) const {
        size_t w = window_of(p), c = capacity_of(p);
        if (c < k) w = c = k; // as the searches do
        double x = floor + (ceiling - floor) * (1 - std::exp(-slope * double(w))) + bonus * (1 - std::exp(-slope * double(c) / 4));
        if (noise > 0) {
            vh::Stream s(vh::mix(seed, w * 100003 + c));
            x += noise * (double(s.below(1000)) / 1000 - 0.5);
        }
        x = std::min(1.0, std::max(0.0, x));
        return std::floor(x * double(steps)) / double(steps);
    }
};

template <typename Data> void made_up(vh::Gen& g, vh::Ctx& ctx) {
    constexpr bool reranks = std::is_same_v<Data, Reranked>;
    auto c = gen_calibration(g, 150);
    Mock<Data> index{gen_current(g, 100), g.skew(1, 40)};
    size_t k = g.skew(1, 40);
    bool monotone = !g.chance(1, 4);
    Surface f{g.seed(), k, double(g.raw(8)) / 10, double(g.raw(10)) / 10, g.pick<double>({0.02, 0.1, 0.005, 1.0}), reranks && g.flip() ? g.pick<double>({0.2, 0.6}) : 0.0, g.pick<size_t>({1000, 10, 64}), monotone ? 0.0 : 0.3};
    if (f.floor > f.ceiling) std::swap(f.floor, f.ceiling);
    double target = double(g.raw(105)) / 100;
    size_t searches = 0;
    auto seed = c.use_existing_parameter_values_ ? index.now : VamanaSearchParameters();
    ctx.describe("calibrate (reranking={}) k={} target={} degree={} from {}; {}; recall {}..{} slope {} in {} steps, noise {}", reranks, k, target, index.degree, show(index.now), show(c), f.floor, f.ceiling, f.slope, f.steps, f.noise);
    ctx.label(fmt::format("{}{}", c.search_buffer_optimization_, reranks ? ", reranking" : ""));
    auto valid = [&](const VamanaSearchParameters& p) {
        ++searches;
        VH_REQUIRE(window_of(p) >= 1 || window_of(p) == window_of(seed), "searching with {}", show(p));
        VH_REQUIRE(capacity_of(p) >= window_of(p), "searching with {}", show(p));
        VH_REQUIRE(window_of(p) <= std::max({k, c.search_window_size_upper_, window_of(seed)}), "searching with {}, beyond the bound", show(p));
        VH_REQUIRE(p.prefetch_lookahead_ <= std::max(seed.prefetch_lookahead_, index.degree), "searching with {}", show(p));
    };
    vh::Stream delay(g.seed());
    // Searches that take no time, an unpredictable time, or longer for larger windows.
    int pace = g.chance(1, 8) ? 1 : g.flip() ? 2 : 0;
    auto compute_recall = [&](const VamanaSearchParameters& p) {
        valid(p);
        return f(p);
    };
    auto do_search = [&](const VamanaSearchParameters& p) {
        valid(p);
        if (pace) {
            auto until = svs::lib::now() + std::chrono::nanoseconds(pace == 1 ? 1000 * delay.below(8) : 100 * window_of(p) + 10 * capacity_of(p));
            while (svs::lib::now() < until) {}
        }
    };
    auto got = vam::calibrate(c, index, k, target, compute_recall, do_search);
    judge(c, seed, k, target, index.degree, reranks, monotone, got, f);
    ctx.interesting(searches >= 3 && c.search_window_size_upper_ > k);
}
} // namespace

VH_CASES("made-up recall", 5) { made_up<Plain>(g, ctx); }
VH_CASES("made-up recall with reranking", 3) { made_up<Reranked>(g, ctx); }

namespace {
using namespace vg;
using L2 = svs::DistanceL2;
using SData = svs::data::SimpleData<float>;
using Truth = svs::data::SimpleData<uint32_t>;

// Which vectors really are nearest, by brute force; external ids from `name`.
template <typename Name> Truth truth(const Mat<float>& x, const std::vector<char>& there, const Mat<float>& q, size_t k, const Name& name) {
    auto out = Truth(q.n, k);
    for (size_t i = 0; i < q.n; ++i) {
        std::vector<std::pair<double, uint32_t>> all;
        for (size_t j = 0; j < x.n; ++j) {
            if (there[j]) all.push_back({ref_distance(Dist::L2, q.row(i), x.row(j), x.d).value, uint32_t(name(j))});
        }
        std::partial_sort(all.begin(), all.begin() + k, all.end());
        std::vector<uint32_t> row;
        for (size_t j = 0; j < k; ++j) row.push_back(all[j].second);
        out.set_datum(i, row);
    }
    return out;
}

// Recall counted from scratch.
template <typename Index> double recall_of(Index& index, const Mat<float>& q, const Truth& t, size_t k, const VamanaSearchParameters& p) {
    auto r = svs::QueryResult<size_t>(q.n, k);
    index.search(r.view(), q.view(), p);
    size_t hits = 0;
    for (size_t i = 0; i < q.n; ++i) {
        auto row = t.get_datum(i);
        for (size_t j = 0; j < k; ++j) {
            for (size_t l = 0; l < k; ++l) hits += row[l] == r.index(i, j);
        }
    }
    return double(hits) / double(q.n * k);
}

template <typename Index> Adj edges(const Index& graph) {
    Adj adj(graph.n_nodes());
    for (size_t i = 0; i < adj.size(); ++i) {
        auto l = graph.get_node(i);
        adj[i].assign(l.begin(), l.end());
    }
    return adj;
}

struct Common {
    size_t n, d, nq, k, threads;
    Mat<float> x, q;
    dyn::Params params;
    CalibrationParameters c;
    VamanaSearchParameters now;
    double target;
    explicit Common(vh::Gen& g) {
        n = g.range(2, 150);
        d = g.range(1, 12);
        nq = g.range(1, 12);
        k = g.range(1, std::min<size_t>(n, 10));
        threads = gen_few_threads(g);
        size_t values = g.pick<size_t>({3, 0, 5});
        x = matrix<float>(n, d, values, g.seed());
        q = matrix<float>(nq, d, values, g.seed());
        params = dyn::gen_params(g, Dist::L2);
        params.degree = g.range(1, 8);
        params.prune_to = params.degree;
        c = gen_calibration(g, 60);
        now = gen_current(g, 50);
        target = double(g.raw(100)) / 100;
    }
};

// A recall that depends on nothing but the settings, so that it may be asked for again.
template <typename Index> void calibrated(Common& m, Index& index, const Truth& t, vh::Ctx& ctx, bool erased_too) {
    (void)erased_too;
    auto seed = m.c.use_existing_parameter_values_ ? m.now : VamanaSearchParameters();
    index.set_search_parameters(m.now);
    VH_REQUIRE(same(index.get_search_parameters(), m.now), "settings {} read back as {}", show(m.now), show(index.get_search_parameters()));
    auto got = index.calibrate(m.q.view(), t, m.k, m.target, m.c);
    VH_REQUIRE(same(index.get_search_parameters(), got), "calibration returns {} and leaves {}", show(got), show(index.get_search_parameters()));
    std::map<std::pair<size_t, size_t>, double> seen;
    auto recall = [&](const VamanaSearchParameters& p) {
        auto key = std::pair(window_of(p), capacity_of(p));
        auto at = seen.find(key);
        if (at == seen.end()) at = seen.emplace(key, recall_of(index, m.q, t, m.k, p)).first;
        return at->second;
    };
    judge(m.c, seed, m.k, m.target, index.max_degree(), false, false, got, recall);
    ctx.label(fmt::format("{}: {}", m.c.search_buffer_optimization_, m.c.search_buffer_optimization_ == SBO::Disable ? "" : recall(got) >= m.target ? "reached" : "not reached"));
}
} // namespace

VH_CASES("static index", 3) {
    Common m(g);
    ctx.describe("static index {}x{} k={} nq={} threads={} {} target={} from {}; {}", m.n, m.d, m.k, m.nq, m.threads, m.params.show(), m.target, show(m.now), show(m.c));
    auto index = vam::auto_build(m.params.build(), simple(m.x), L2(), size_t(m.threads));
    auto t = truth(m.x, std::vector<char>(m.n, 1), m.q, m.k, [](size_t j) { return j; });
    auto kept = [&] {
        Mat<float> dst(m.n, m.d);
        std::vector<uint64_t> ids(m.n);
        std::iota(ids.begin(), ids.end(), 0);
        index.reconstruct_at(svs::data::SimpleDataView<float>(dst.v.data(), m.n, m.d), std::span<const uint64_t>(ids));
        VH_REQUIRE(dst.v == m.x.v, "the vectors are no longer those of the dataset");
        VH_REQUIRE(index.size() == m.n && index.dimensions() == m.d && index.get_num_threads() == m.threads, "{} vectors of {} and {} threads", index.size(), index.dimensions(), index.get_num_threads());
    };
    auto all = VamanaSearchParameters({m.n, m.n}, false, 0, 0);
    double before = recall_of(index, m.q, t, m.k, all);
    auto alpha = index.get_alpha();
    auto window = index.get_construction_window_size();
    calibrated(m, index, t, ctx, true);
    kept();
    VH_REQUIRE(recall_of(index, m.q, t, m.k, all) == before && index.get_alpha() == alpha && index.get_construction_window_size() == window, "calibration changed the index");
    // Refused: tables that do not fit the request.
    auto got = index.get_search_parameters();
    bool refused = vh::throws([&] { index.calibrate(m.q.view(), Truth(m.nq + 1, m.k), m.k, m.target, m.c); });
    // Bounds may leave nothing to search.
    bool searches_nothing = m.c.search_buffer_optimization_ == SBO::Disable || m.c.search_window_size_upper_ <= m.k;
    VH_REQUIRE(refused || searches_nothing, "true neighbors of {} queries for {} are accepted", m.nq + 1, m.nq);
    VH_REQUIRE(!refused || same(index.get_search_parameters(), got), "a refused calibration left {} instead of {}", show(index.get_search_parameters()), show(got));
    ctx.interesting(m.n > m.k && m.n > 8);
}

VH_CASES("type-erased static index", 1) {
    Common m(g);
    m.c.train_prefetchers_ = false; // depends on the time searches take
    ctx.describe("type-erased static index {}x{} k={} nq={} threads={} {} target={} from {}; {}", m.n, m.d, m.k, m.nq, m.threads, m.params.show(), m.target, show(m.now), show(m.c));
    auto plain = vam::auto_build(m.params.build(), simple(m.x), L2(), size_t(1));
    auto erased = svs::Vamana::build<svs::lib::Types<float, svs::Float16>>(m.params.build(), simple(m.x), svs::DistanceType::L2, 1);
    auto t = truth(m.x, std::vector<char>(m.n, 1), m.q, m.k, [](size_t j) { return j; });
    plain.set_search_parameters(m.now);
    erased.set_search_parameters(m.now);
    auto queries = simple(m.q);
    auto a = plain.calibrate(queries, t, m.k, m.target, m.c);
    auto b = erased.experimental_calibrate(queries, t, m.k, m.target, m.c);
    VH_REQUIRE(same(a, b) && same(erased.get_search_parameters(), a), "{} and, through the interface, {} (left: {})", show(a), show(b), show(erased.get_search_parameters()));
    auto bytes = svs::data::SimpleData<int8_t>(m.nq, m.d);
    VH_REQUIRE(vh::throws([&] { erased.experimental_calibrate(bytes, t, m.k, m.target, m.c); }), "queries of another type are accepted");
    VH_REQUIRE(same(erased.get_search_parameters(), a), "a refused calibration left {}", show(erased.get_search_parameters()));
    ctx.interesting(m.n > m.k && m.n > 8);
}

VH_CASES("dynamic index", 3) {
    Common m(g);
    ctx.describe("dynamic index {}x{} k={} nq={} threads={} {} target={} from {}; {}", m.n, m.d, m.k, m.nq, m.threads, m.params.show(), m.target, show(m.now), show(m.c));
    using Data = svs::data::BlockedData<float, svs::Dynamic, svs::HugepageAllocator<float>>;
    auto data = Data(m.n, m.d, typename Data::allocator_type(svs::data::BlockingParameters{.blocksize_bytes = svs::lib::PowerOfTwo(9)}));
    fill(data, m.x);
    std::vector<size_t> ids;
    for (size_t i = 0; i < m.n; ++i) ids.push_back(3 * (m.n - i));
    auto index = vam::MutableVamanaIndex<dyn::PagedGraph, Data, L2>(m.params.build(), std::move(data), ids, L2(), m.threads);
    std::vector<char> there(m.n, 1);
    size_t gone = g.flip() ? 0 : g.range(0, m.n - m.k);
    std::vector<size_t> dead;
    for (size_t i = 0; i < gone; ++i) {
        there[i] = 0;
        dead.push_back(ids[i]);
    }
    index.delete_entries(dead);
    bool clean = g.flip();
    if (clean) index.consolidate();
    ctx.trace(" {} of them deleted{}", gone, clean ? " and consolidated" : "");
    auto t = truth(m.x, there, m.q, m.k, [&](size_t j) { return ids[j]; });
    auto before = edges(index.view_graph());
    auto entry = index.entry_point();
    calibrated(m, index, t, ctx, false);
    VH_REQUIRE(edges(index.view_graph()) == before && index.entry_point() == entry, "calibration changed the graph");
    VH_REQUIRE(index.size() == m.n - gone, "{} entries instead of {}", index.size(), m.n - gone);
    for (size_t i = 0; i < m.n; ++i) {
        VH_REQUIRE(index.has_id(ids[i]) == bool(there[i]), "id {} changed", ids[i]);
        if (there[i]) {
            auto r = index.get_datum(ids[i]);
            VH_REQUIRE(std::memcmp(r.data(), m.x.row(i), m.d * sizeof(float)) == 0, "the vector of id {} changed", ids[i]);
        }
    }
    ctx.interesting(m.n - gone > m.k && m.n > 8);
}
