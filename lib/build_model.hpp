// The two-pass construction of include/svs/index/vamana/vamana_build.h for one thread, written out over adjacency lists.
#pragma once
#include "prune_model.hpp"
#include "svs/index/vamana/build_params.h"
#include "vamana_model.hpp"
#include <set>

namespace vg {
struct BuildModel {
    size_t n;
    const std::vector<float>& dist; // n x n, as the library computes them
    bool larger_is_nearer;
    iv::VamanaBuildParameters p;
    Adj adj{};

    float d(uint32_t i, uint32_t j) const { return dist[size_t(i) * n + j]; }

    template <typename Dist> void prune(uint32_t self, std::vector<Pick>& pool, size_t max, float alpha) {
        using Cmp = std::remove_cvref_t<decltype(svs::distance::comparator(std::declval<Dist&>()))>;
        std::sort(pool.begin(), pool.end(), [&](auto& a, auto& b) {
            return a.dist == b.dist ? a.id < b.id : Cmp{}(a.dist, b.dist);
        });
        pool.resize(std::min(pool.size(), p.max_candidate_pool_size));
        bool ambiguous = false;
        auto keep = rule<Cmp>(
            strategy_of<iv::prune_strategy_t<Dist>>(), max, alpha, true, pool, self,
            [&](uint32_t i, uint32_t j) { return d(i, j); }, ambiguous
        );
        adj[self].clear();
        for (auto k : keep) {
            adj[self].push_back(pool[k].id);
        }
    }

    template <typename Dist> void pass(float alpha, uint32_t entry) {
        size_t batch = (n + 39) / 40;
        for (size_t start = 0; start < n; start += batch) {
            uint32_t stop = std::min(n, start + batch);
            Adj before = adj;
            Adj next = adj;
            for (uint32_t v = start; v < stop; ++v) {
                std::vector<float> row(dist.begin() + size_t(v) * n, dist.begin() + size_t(v + 1) * n);
                std::set<uint32_t> expanded{entry};
                auto found = best_first(before, entry, row, p.window_size, p.window_size, larger_is_nearer, &expanded);
                std::set<uint32_t> ids;
                if (p.use_full_search_history) {
                    ids = expanded;
                } else {
                    for (auto& f : found) {
                        ids.insert(f.first);
                    }
                }
                ids.insert(before[v].begin(), before[v].end());
                std::vector<Pick> pool;
                for (auto i : ids) {
                    pool.push_back({i, d(v, i), 0});
                }
                prune<Dist>(v, pool, p.graph_max_degree, p.alpha);
                next[v] = adj[v];
                adj[v] = before[v];
            }
            adj = next;
            std::map<uint32_t, std::set<uint32_t>> overflow;
            for (uint32_t v = start; v < stop; ++v) {
                auto list = adj[v];
                for (auto o : list) {
                    if (adj[o].size() < p.graph_max_degree) {
                        if (std::find(adj[o].begin(), adj[o].end(), v) == adj[o].end()) {
                            adj[o].push_back(v);
                        }
                    } else {
                        overflow[o].insert(v);
                    }
                }
            }
            for (auto& [v, extra] : overflow) {
                extra.insert(adj[v].begin(), adj[v].end());
                std::vector<Pick> pool;
                for (auto i : extra) {
                    pool.push_back({i, d(v, i), 0});
                }
                prune<Dist>(v, pool, p.prune_to, alpha);
            }
        }
    }

    template <typename Dist> const Adj& build(uint32_t entry) {
        adj.assign(n, {});
        pass<Dist>(1.0f, entry);
        pass<Dist>(p.alpha, entry);
        return adj;
    }
};
} // namespace vg
