// C22: type-erased indexes next to the concrete index they stand for.
#pragma once
#include "dynamic_sim.hpp"

#include "svs/orchestrators/dynamic_vamana.h"
#include "svs/orchestrators/exhaustive.h"
#include "svs/orchestrators/inverted.h"
#include "svs/orchestrators/vamana.h"

namespace erased {
using namespace vg;
namespace vam = svs::index::vamana;
namespace inv = svs::index::inverted;
namespace lib = svs::lib;
namespace fs = std::filesystem;
using vam::VamanaSearchParameters;
using svs::DataType;

inline std::string show(const VamanaSearchParameters& p) {
    return fmt::format("window={} capacity={} visited={} prefetch={}/{}", p.buffer_config_.get_search_window_size(), p.buffer_config_.get_total_capacity(), p.search_buffer_visited_set_, p.prefetch_lookahead_, p.prefetch_step_);
}
inline VamanaSearchParameters gen_search(vh::Gen& g, size_t n) {
    size_t w = g.flip() ? n + 1 : g.skew(1, n + 3), c = g.flip() ? w : w + g.skew(0, n);
    return VamanaSearchParameters({w, c}, g.flip(), g.pick<size_t>({4, 0, 1, 7, 100}), g.pick<size_t>({1, 0, 2, 9}));
}

struct Found {
    std::vector<size_t> ids{};
    std::vector<float> dists{};
    bool operator==(const Found& o) const {
        return ids == o.ids && std::memcmp(dists.data(), o.dists.data(), dists.size() * sizeof(float)) == 0;
    }
    std::string show() const { return fmt::format("ids {} at {}", vh::show(ids, 12), vh::show(dists, 12)); }
};
template <typename R> Found read(const R& r) {
    Found f;
    for (size_t i = 0; i < r.n_queries(); ++i) {
        for (size_t j = 0; j < r.n_neighbors(); ++j) {
            f.ids.push_back(r.index(i, j));
            f.dists.push_back(f.ids.back() == std::numeric_limits<size_t>::max() ? 0 : r.distance(i, j));
        }
    }
    return f;
}
// One search through both interfaces.
template <typename Q, typename A, typename B, typename P>
void both_search(A& concrete, B& erased, const Mat<Q>& q, size_t k, const P& p) {
    auto a = svs::QueryResult<size_t>(q.n, k), b = svs::QueryResult<size_t>(q.n, k);
    concrete.search(a.view(), q.view(), p);
    erased.search(b.view(), q.view(), p);
    VH_REQUIRE(read(a) == read(b), "{} queries of {}, {} neighbors: concrete {}, erased {}", q.n, type_name<Q>(), k, read(a).show(), read(b).show());
    // With the index's own parameters.
    auto c = svs::index::search_batch(concrete, q.view(), k), d = erased.search(vg::simple(q), k);
    VH_REQUIRE(d.n_queries() == q.n && d.n_neighbors() == k && read(c) == read(d), "{} queries of {}, {} neighbors, own parameters: concrete {}, erased {}", q.n, type_name<Q>(), k, read(c).show(), read(d).show());
}
// Searching with queries of a type that was not declared is refused, and nothing is written.
template <typename Q, typename B, typename P> void refused_search(vh::Gen& g, B& erased, size_t d, size_t k, const P& p) {
    auto q = matrix<Q>(g.range(1, 3), d, 0, g.seed());
    auto r = svs::QueryResult<size_t>(q.n, k);
    for (size_t i = 0; i < q.n; ++i) {
        for (size_t j = 0; j < k; ++j) r.set(svs::Neighbor<size_t>(i * 100 + j, float(j) + 0.5f), i, j);
    }
    auto before = read(r);
    VH_REQUIRE(vh::throws([&] { erased.search(r.view(), q.view(), p); }), "queries of {} are accepted", type_name<Q>());
    VH_REQUIRE(vh::throws([&] { erased.search(vg::simple(q), k); }), "queries of {} are accepted", type_name<Q>());
    VH_REQUIRE(read(r) == before, "queries of {} are refused, but results were written: {}", type_name<Q>(), read(r).show());
}
template <typename... Ts> std::vector<DataType> list(lib::Types<Ts...>) { return {svs::datatype_v<Ts>...}; }
template <typename A, typename B, typename Types> void both_facts(A& a, B& b, Types types, size_t n) {
    VH_REQUIRE(b.size() == n && b.size() == a.size() && b.dimensions() == a.dimensions(), "erased index is {}x{}, the concrete one {}x{}", b.size(), b.dimensions(), a.size(), a.dimensions());
    VH_REQUIRE(b.query_types() == list(types), "another list of query types");
    VH_REQUIRE(b.can_change_threads() == a.can_change_threads(), "can_change_threads");
    VH_REQUIRE(b.get_num_threads() == a.get_num_threads(), "{} threads, concretely {}", b.get_num_threads(), a.get_num_threads());
}
template <typename A, typename B> void both_threads(vh::Gen& g, vh::Ctx& ctx, A& a, B& b) {
    size_t t = g.raw(3);
    ctx.trace(" threads={}", t);
    b.set_num_threads(t);
    a.set_num_threads(std::max<size_t>(t, 1));
}

// What both kinds of graph indexes have in common.
template <typename A, typename B> void vamana_settings(vh::Gen& g, vh::Ctx& ctx, A& a, B& b, size_t n) {
    switch (g.raw(6)) {
        case 0: {
            auto p = gen_search(g, n);
            ctx.trace(" set {}", erased::show(p));
            a.set_search_parameters(p);
            b.set_search_parameters(p);
            break;
        }
        case 1: {
            size_t w = g.skew(1, n + 4);
            ctx.trace(" set window {}", w);
            auto p = a.get_search_parameters();
            p.buffer_config({w});
            a.set_search_parameters(p);
            VH_REQUIRE(&b.set_search_window_size(w) == &b, "set_search_window_size returns another object");
            break;
        }
        case 2: {
            if constexpr (requires { b.enable_visited_set(); }) {
                bool on = g.flip();
                ctx.trace(" visited set {}", on);
                auto p = a.get_search_parameters();
                p.search_buffer_visited_set_ = on;
                a.set_search_parameters(p);
                if (on) {
                    b.enable_visited_set();
                } else {
                    b.disable_visited_set();
                }
                VH_REQUIRE(b.visited_set_enabled() == on, "visited set");
            }
            break;
        }
        case 3: {
            float alpha = g.pick<float>({1.0f, 1.3f, 0.9f});
            ctx.trace(" alpha={}", alpha);
            a.set_alpha(alpha);
            b.set_alpha(alpha);
            break;
        }
        case 4: {
            size_t w = g.skew(1, 60);
            ctx.trace(" construction window={}", w);
            a.set_construction_window_size(w);
            b.set_construction_window_size(w);
            break;
        }
        case 5: {
            if constexpr (requires { b.set_max_candidates(size_t(1)); }) {
                size_t w = g.skew(1, 60);
                ctx.trace(" candidates={}", w);
                a.set_max_candidates(w);
                b.set_max_candidates(w);
            }
            break;
        }
        default:
            ctx.trace(" reset performance parameters");
            a.reset_performance_parameters();
            b.experimental_reset_performance_parameters();
    }
    auto pa = a.get_search_parameters(), pb = b.get_search_parameters();
    VH_REQUIRE(pa == pb && b.get_search_window_size() == pa.buffer_config_.get_search_window_size(), "search parameters: concretely {}, erased {}", erased::show(pa), erased::show(pb));
    VH_REQUIRE(a.get_alpha() == b.get_alpha() && a.get_construction_window_size() == b.get_construction_window_size(), "build parameters differ");
    if constexpr (requires { b.get_max_candidates(); }) {
        VH_REQUIRE(a.get_max_candidates() == b.get_max_candidates(), "max candidates: concretely {}, erased {}", a.get_max_candidates(), b.get_max_candidates());
    }
}
template <typename A, typename B> void vamana_reconstruct(vh::Gen& g, vh::Ctx& ctx, A& a, B& b, const std::vector<size_t>& known, size_t d) {
    std::vector<uint64_t> ids;
    size_t m = g.range(0, 5);
    for (size_t i = 0; i < m && !known.empty(); ++i) ids.push_back(known[g.raw(known.size() - 1)]);
    bool bad = g.chance(1, 5);
    if (bad) ids.push_back(1'000'000'007);
    ctx.trace(" reconstruct {}", vh::show(ids, 8));
    Mat<float> x(ids.size(), d), y(ids.size(), d);
    for (auto& v : x.v) v = -7;
    y.v = x.v;
    bool tx = vh::throws([&] { a.reconstruct_at(svs::data::SimpleDataView<float>(x.v.data(), x.n, d), std::span<const uint64_t>(ids)); });
    bool ty = vh::throws([&] { b.reconstruct_at(svs::data::SimpleDataView<float>(y.v.data(), y.n, d), std::span<const uint64_t>(ids)); });
    VH_REQUIRE(tx == bad && ty == bad && std::memcmp(x.v.data(), y.v.data(), x.v.size() * sizeof(float)) == 0, "reconstruct_at gives other vectors, or is{} refused", ty ? "" : " not");
}
// Saved files hold the same.
inline std::string file_bytes(const fs::path& dir) {
    std::vector<fs::path> files;
    for (auto& e : fs::recursive_directory_iterator(dir)) {
        if (e.is_regular_file() && e.path().extension() != ".toml") files.push_back(e.path());
    }
    std::sort(files.begin(), files.end());
    std::string all;
    for (auto& f : files) {
        std::ifstream in(f, std::ios::binary);
        std::string s((std::istreambuf_iterator<char>(in)), {});
        // The header carries a random identifier.
        all += fmt::format("{}:", s.size()) + (s.size() > 1024 ? s.substr(1024) : std::string());
    }
    return all;
}
// Calibration without timing: the same for both.
template <typename T, typename A, typename B, typename... Q>
void vamana_calibrate(vh::Gen& g, vh::Ctx& ctx, A& a, B& b, const Mat<T>& q, size_t n) {
    size_t k = g.range(1, std::min<size_t>(n, 5));
    Mat<uint32_t> truth(q.n, k);
    for (size_t i = 0; i < q.n; ++i) {
        for (size_t j = 0; j < k; ++j) truth.row(i)[j] = (i * 7 + j) % n;
    }
    vam::CalibrationParameters cp;
    cp.search_window_size_upper_ = g.skew(k, n + 10);
    cp.search_window_capacity_upper_ = n + 10;
    cp.timing_iterations_ = 1;
    cp.search_timeout_ = 0.001;
    cp.train_prefetchers_ = false;
    cp.search_buffer_optimization_ = vam::CalibrationParameters::SearchBufferOptimization::Disable;
    cp.use_existing_parameter_values_ = g.flip();
    double target = g.pick<double>({0.0, 0.3, 0.9, 1.0});
    ctx.trace(" calibrate to {} with k={}", target, k);
    auto pa = a.calibrate(q.view(), truth.view(), k, target, cp);
    auto pb = b.experimental_calibrate(vg::simple(q), vg::simple(truth), k, target, cp);
    VH_REQUIRE(pa == pb && a.get_search_parameters() == b.get_search_parameters(), "calibrated concretely to {}, erased to {}", erased::show(pa), erased::show(pb));
}
template <typename Q, typename B> void refused_calibration(B& b, size_t d) {
    auto q = matrix<Q>(2, d, 0, 1);
    auto truth = Mat<uint32_t>(2, 1);
    auto before = b.get_search_parameters();
    VH_REQUIRE(vh::throws([&] { b.experimental_calibrate(vg::simple(q), vg::simple(truth), 1, 0.5); }), "calibration with queries of {} is accepted", type_name<Q>());
    VH_REQUIRE(b.get_search_parameters() == before, "refused calibration changed the search parameters");
}
} // namespace erased
