// Reference models for graph indexes: adjacency lists, reachability, best-first traversal.
#pragma once
#include "vh.hpp"
#include <map>
#include <set>

namespace vg {
using Adj = std::vector<std::vector<uint32_t>>;

inline Adj random_adjacency(size_t n, size_t degree, size_t style, uint64_t seed) {
    vh::Stream s(seed);
    Adj adj(n);
    auto add = [&](size_t i, size_t t) {
        if (t != i && t < n && adj[i].size() < degree && std::find(adj[i].begin(), adj[i].end(), t) == adj[i].end()) {
            adj[i].push_back(t);
        }
    };
    for (size_t i = 0; i < n; ++i) {
        switch (style) {
            case 0: // everything reachable from everywhere
                add(i, (i + 1) % n);
                for (size_t j = 1; j < degree; ++j) {
                    add(i, s.below(n));
                }
                break;
            case 1: // random
                for (size_t j = 0; j < degree; ++j) {
                    add(i, s.below(n));
                }
                break;
            case 2: // sparse, often disconnected
                for (size_t j = s.below(3); j-- > 0;) {
                    add(i, s.below(n));
                }
                break;
            default: // local neighbourhoods and full lists
                for (size_t j = 1; j <= degree; ++j) {
                    add(i, (i + j * j) % n);
                }
                break;
        }
    }
    return adj;
}

inline std::vector<char> reachable(const Adj& adj, uint32_t entry) {
    std::vector<char> seen(adj.size(), 0);
    std::vector<uint32_t> stack{entry};
    seen[entry] = 1;
    while (!stack.empty()) {
        auto v = stack.back();
        stack.pop_back();
        for (auto t : adj[v]) {
            if (!seen[t]) {
                seen[t] = 1;
                stack.push_back(t);
            }
        }
    }
    return seen;
}

// The candidates a best-first traversal holds at its end, best first.  Distances must be
// distinct for the outcome to be unique.
inline std::vector<std::pair<uint32_t, float>> best_first(
    const Adj& adj, uint32_t entry, const std::vector<float>& dist, size_t window, size_t capacity, bool larger_is_nearer,
    std::set<uint32_t>* expanded = nullptr
) {
    struct Cand {
        float d;
        uint32_t id;
        bool visited;
    };
    std::vector<Cand> buf;
    auto less = [&](float a, float b) { return larger_is_nearer ? a > b : a < b; };
    auto insert = [&](uint32_t id) {
        for (auto& c : buf) {
            if (c.id == id) {
                return;
            }
        }
        Cand c{dist[id], id, false};
        auto at = std::find_if(buf.begin(), buf.end(), [&](auto& o) { return less(c.d, o.d); });
        buf.insert(at, c);
        if (buf.size() > capacity) {
            buf.pop_back();
        }
    };
    insert(entry);
    while (true) {
        size_t i = 0, end = std::min(window, buf.size());
        while (i < end && buf[i].visited) {
            ++i;
        }
        if (i == end) {
            break;
        }
        buf[i].visited = true;
        auto id = buf[i].id;
        if (expanded) {
            expanded->insert(id);
        }
        for (auto t : adj[id]) {
            insert(t);
        }
    }
    std::vector<std::pair<uint32_t, float>> out;
    for (auto& c : buf) {
        out.push_back({c.id, c.d});
    }
    return out;
}
} // namespace vg
