#pragma once
#include "dynamic_sim.hpp"

namespace c08 {
using namespace dyn;

inline size_t intersection(std::vector<size_t> a, std::vector<size_t> b) {
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    std::vector<size_t> out;
    std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(out));
    return out.size();
}

// Any data, any parameters: the graph stays well formed and consolidation only uses what the
// deleted neighbourhoods offer.
template <typename T, typename D, typename Graph> void structure(vh::Gen& g, vh::Ctx& ctx) {
    constexpr Dist kind = dist_tag<D>::value;
    size_t n = g.chance(1, 80) ? g.range(700, 1500) : g.skew(2, 70); // beyond the granularity of parallel work
    size_t d = g.range(1, 10);
    size_t values = g.raw(NUM_KINDS - 1);
    auto params = gen_params(g, kind);
    size_t threads = gen_few_threads(g);
    ctx.describe("dynamic index {} {} n={} d={} {} {} threads={}:", type_name<T>(), dist_name(kind), n, d, kind_name(values), params.show(), threads);
    auto sim = Sim<T, D, Graph>(d, values, params, n > 500 ? 4000 : n + 150, g.seed());
    sim.build(g, n, sim.fresh(g, n), threads);
    sim.check_graph("build", true);
    size_t consolidations = 0, affected = 0;
    size_t nops = g.range(1, 10);
    for (size_t op = 0; op < nops; ++op) {
        switch (g.raw(6)) {
            case 0:
            case 1: {
                size_t m = n > 500 && g.flip() ? g.range(300, 1200) : g.skew(1, 30);
                ctx.trace(" add {}", m);
                bool was_empty = sim.model.empty();
                sim.add(sim.take(m), sim.fresh(g, m));
                sim.check_graph("adding", was_empty && sim.soft == 0);
                break;
            }
            case 2:
            case 3:
            case 4: {
                auto eids = sim.some_ids(g, g.chance(1, 12) ? sim.model.size() : g.skew(1, 1 + sim.model.size() / 2));
                ctx.trace(" delete {}", vh::show(eids, 4));
                sim.remove(eids);
                sim.check_graph("deleting", false);
                if (g.chance(1, 3)) {
                    break;
                }
                [[fallthrough]];
            }
            case 5: {
                ctx.trace(" consolidate");
                auto ext = sim.external();
                auto before = sim.adjacency();
                sim.consolidate();
                ++consolidations;
                sim.check_graph("consolidating", true);
                auto after = sim.adjacency();
                for (size_t i = 0; i < ext.size(); ++i) {
                    if (!ext[i]) {
                        continue;
                    }
                    // What the vertex may link to: its live neighbours and the live neighbours
                    // of its deleted ones.
                    std::set<uint32_t> may;
                    bool touched = false;
                    for (auto t : before[i]) {
                        if (ext[t]) {
                            may.insert(t);
                        } else {
                            touched = true;
                            for (auto u : before[t]) {
                                if (u < ext.size() && ext[u] && u != i) {
                                    may.insert(u);
                                }
                            }
                        }
                    }
                    if (!touched) {
                        VH_REQUIRE(before[i] == after[i], "consolidation changed node {}, which had no deleted neighbour", i);
                        continue;
                    }
                    ++affected;
                    VH_REQUIRE(after[i].size() <= params.prune_to, "consolidation left node {} with {} edges, prune_to is {}", i, after[i].size(), params.prune_to);
                    for (auto t : after[i]) {
                        VH_REQUIRE(may.count(t), "consolidation linked node {} to {}, which is no neighbour of its deleted neighbours", i, t);
                    }
                    if (may.empty()) {
                        continue;
                    }
                    // Pruning always keeps the nearest candidate.
                    // (The pool of candidates includes the vertex itself.)
                    if (params.candidates < 2) {
                        continue;
                    }
                    VH_REQUIRE(!after[i].empty(), "consolidation left node {} without edges although {} candidates exist", i, may.size());
                    D dist{};
                    auto& data = sim.index->view_data();
                    auto self = data.get_datum(i);
                    std::vector<T> v(self.begin(), self.end());
                    auto fn = [&](uint32_t t) {
                        auto o = data.get_datum(t);
                        return ref_distance(kind, v.data(), o.data(), d);
                    };
                    auto best = fn(*may.begin());
                    for (auto t : may) {
                        auto r = fn(t);
                        if (nearer(kind, r.value, best.value)) {
                            best = r;
                        }
                    }
                    auto first = fn(after[i][0]);
                    if (std::isnan(first.value) || std::isnan(best.value)) {
                        continue;
                    }
                    double margin = ascending(kind) ? first.value - best.value : best.value - first.value;
                    VH_REQUIRE(margin <= 2 * (first.tol + best.tol) + 1e-5 * std::abs(best.value), "consolidated node {} starts with {} at {}, its nearest candidate is at {}", i, after[i][0], first.value, best.value);
                }
                break;
            }
            default:
                ctx.trace(" compact");
                sim.index->compact(g.skew(1, 60));
                sim.check_graph("compacting", sim.soft == 0);
                break;
        }
    }
    ctx.interesting(consolidations > 0 && affected > 0);
}

// Data without structure and generous parameters: the index keeps finding its entries through
// rounds of replacing large parts of it.
template <typename T, typename D, typename Graph> void recall(vh::Gen& g, vh::Ctx& ctx) {
    constexpr Dist kind = dist_tag<D>::value;
    size_t n = g.range(60, 220);
    size_t d = g.range(4, 16);
    Params params;
    params.alpha = ascending(kind) ? 1.2f : 0.95f;
    params.degree = g.range(12, 24);
    params.window = g.range(30, 60);
    params.candidates = 3 * params.window;
    params.prune_to = params.degree - g.range(0, 3);
    params.history = g.flip();
    size_t threads = gen_few_threads(g);
    size_t rounds = g.range(1, 4);
    ctx.describe("churn {} {} n={} d={} {} threads={}:", type_name<T>(), dist_name(kind), n, d, params.show(), threads);
    auto sim = Sim<T, D, Graph>(d, 3, params, n + 4 * n, g.seed());
    sim.build(g, n, sim.fresh(g, n), threads);
    for (size_t r = 0; r < rounds; ++r) {
        size_t gone = g.range(sim.model.size() / 10, sim.model.size() * 4 / 5);
        // Consolidation looks one step beyond deleted vertices, so too many at once tear the graph.
        if (4 * (sim.soft + gone) > 3 * (sim.soft + sim.model.size())) {
            if (sim.soft) {
                ctx.trace(" consolidate");
                sim.consolidate();
            }
            gone = std::min(gone, sim.model.size() * 3 / 4);
        }
        auto eids = sim.some_ids(g, gone);
        ctx.trace(" delete {}", gone);
        sim.remove(eids);
        std::vector<size_t> added;
        auto grow = [&] {
            size_t m = g.range(1, n);
            ctx.trace(" add {}", m);
            added = sim.fresh(g, m);
            sim.add(sim.take(m), added);
        };
        bool early = g.chance(1, 3);
        if (early) {
            grow();
        }
        bool clean = g.chance(3, 4);
        if (clean) {
            ctx.trace(" consolidate");
            sim.consolidate();
            if (g.flip()) {
                ctx.trace(" compact");
                sim.index->compact(g.range(1, 200));
            }
        }
        if (!early && g.flip()) {
            grow();
        }
        sim.check_graph("a round", sim.soft == 0);
        // Queries near the data.
        size_t nq = 20, k = std::min<size_t>(10, sim.model.size());
        auto q = matrix<float>(nq, d, 3, g.seed());
        auto all = sim.ids();
        auto result = svs::QueryResult<size_t>(nq, k);
        size_t window = std::max<size_t>(50, 2 * k);
        sim.index->search(result.view(), q.view(), vam::VamanaSearchParameters(vam::SearchBufferConfig(window), false, 4, 1));
        size_t hit = 0, missing = 0;
        for (size_t i = 0; i < nq; ++i) {
            std::vector<std::pair<double, size_t>> order;
            for (auto e : all) {
                auto v = ref_distance(kind, q.row(i), sim.model[e].data(), d).value;
                order.push_back({ascending(kind) ? v : -v, e});
            }
            std::sort(order.begin(), order.end());
            std::vector<size_t> truth, found;
            for (size_t j = 0; j < k; ++j) {
                truth.push_back(order[j].second);
                if (result.index(i, j) == std::numeric_limits<size_t>::max()) {
                    ++missing;
                    continue;
                }
                VH_REQUIRE(sim.model.count(result.index(i, j)), "round {}: query {} finds {}, which is not in the index", r, i, result.index(i, j));
                found.push_back(result.index(i, j));
            }
            hit += intersection(truth, found);
        }
        double rec = double(hit) / double(nq * k);
        // Deleting most of an index may leave few of the rest without an edge to them; in a small index, each counts for much.
        bool small = all.size() < 40;
        ctx.label(fmt::format("{}recall {:.2f}", small ? "small, " : "", rec));
        if (missing) ctx.label(fmt::format("{}missing {:.2f}", small ? "small, " : "", double(missing) / double(nq * k)));
        VH_REQUIRE(small || rec >= 0.75, "round {}: recall {} of {} live entries with a window of {}", r, rec, all.size(), window);
        VH_REQUIRE(small || double(missing) <= 0.05 * double(nq * k), "round {}: {} of {} neighbors are missing among {} live entries", r, missing, nq * k, all.size());
        // Entries are found by their own vectors.
        if constexpr (kind == Dist::L2) {
            auto& probe = added.empty() ? all : added;
            size_t lost = 0, tried = std::min<size_t>(probe.size(), 40);
            Mat<float> own(tried, d);
            for (size_t i = 0; i < tried; ++i) {
                auto& v = sim.model[probe[i]];
                for (size_t j = 0; j < d; ++j) {
                    own.row(i)[j] = float(v[j]);
                }
            }
            auto hits = svs::QueryResult<size_t>(tried, 1);
            sim.index->search(hits.view(), own.view(), vam::VamanaSearchParameters(vam::SearchBufferConfig(window), false, 4, 1));
            for (size_t i = 0; i < tried; ++i) {
                lost += hits.distance(i, 0) != 0.0f;
            }
            VH_REQUIRE(small || lost <= tried / 10, "round {}: {} of {} {} entries are not found by their own vectors", r, lost, tried, added.empty() ? "live" : "newly added");
        }
    }
    ctx.interesting(true);
}
} // namespace c08
