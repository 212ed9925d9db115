// C15: adjacency containers against a list of lists.
#include "vh.hpp"
#include "svs/concepts/graph.h"
#include "svs/core/graph.h"
#include "svs/lib/saveload.h"

#include <algorithm>
#include <set>

namespace {
using namespace svs;

template <typename G> struct Trait;
template <typename I, typename A> struct Trait<graphs::SimpleGraph<I, A>> {
    static constexpr bool blocked = false;
    using index = I;
    static graphs::SimpleGraph<I, A> make(vh::Gen& g, size_t n, size_t degree) {
        return g.flip() ? graphs::SimpleGraph<I, A>(n, degree) : graphs::SimpleGraph<I, A>(n, degree, A());
    }
};
template <typename I> struct Trait<graphs::SimpleBlockedGraph<I>> {
    static constexpr bool blocked = true;
    using index = I;
    static graphs::SimpleBlockedGraph<I> make(vh::Gen& g, size_t n, size_t degree) {
        // Small blocks, so that several are in use.
        using Data = typename graphs::SimpleBlockedGraph<I>::data_type;
        size_t log2 = 0;
        while ((size_t(1) << log2) < sizeof(I) * (degree + 1)) {
            ++log2;
        }
        auto params = data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(log2 + g.raw(4))};
        auto graph = graphs::SimpleBlockedGraph<I>(Data(n, degree + 1, data::Blocked<HugepageAllocator<I>>(params)));
        graph.reset();
        return graph;
    }
};

template <typename I> struct Model {
    std::vector<std::vector<I>> lists;
    size_t max_degree = 0;
};

template <typename G, typename I> void compare(const G& graph, const Model<I>& m, vh::Gen& g, const char* when) {
    VH_REQUIRE(graph.n_nodes() == m.lists.size(), "{} vertices instead of {} {}", graph.n_nodes(), m.lists.size(), when);
    VH_REQUIRE(graph.max_degree() == m.max_degree, "maximum degree {} instead of {} {}", graph.max_degree(), m.max_degree, when);
    for (size_t i = 0; i < m.lists.size(); ++i) {
        auto list = graph.get_node(I(i));
        auto want = m.lists[i];
        VH_REQUIRE(graph.get_node_degree(I(i)) == list.size(), "vertex {}: degree {} with {} neighbours listed {}", i, graph.get_node_degree(I(i)), list.size(), when);
        VH_REQUIRE(list.size() == want.size(), "vertex {}: {} neighbours {} instead of {} {} {}", i, list.size(), vh::show(list), want.size(), vh::show(want), when);
        VH_REQUIRE(list.size() <= m.max_degree, "vertex {}: {} neighbours exceed {} {}", i, list.size(), m.max_degree, when);
        std::vector<I> a(list.begin(), list.end());
        std::sort(a.begin(), a.end());
        std::sort(want.begin(), want.end());
        VH_REQUIRE(a == want, "vertex {}: neighbours {} instead of {} {}", i, vh::show(a), vh::show(want), when);
        for (auto d : want) {
            VH_REQUIRE(graph.has_edge(I(i), d), "vertex {}: has_edge({}) is false {}", i, d, when);
        }
        I other = I(g.raw(m.lists.size() + 2));
        VH_REQUIRE(graph.has_edge(I(i), other) == (std::find(want.begin(), want.end(), other) != want.end()), "vertex {}: has_edge({}) is wrong {}", i, other, when);
    }
}

template <typename G> void history(vh::Gen& g, vh::Ctx& ctx) {
    using T = Trait<G>;
    using I = typename T::index;
    size_t n = g.skew(1, 40), degree = g.skew(1, 20);
    Model<I> m;
    m.max_degree = degree;
    m.lists.resize(n);
    ctx.describe("{} vertices, maximum degree {}:", n, degree);
    G graph = T::make(g, n, degree);
    compare(graph, m, g, "after construction");
    size_t ops = g.skew(1, 120), adds = 0, others = 0;
    for (size_t o = 0; o < ops; ++o) {
        size_t sz = m.lists.size();
        switch (g.pick<int>({0, 0, 0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8})) {
            case 0: {
                I s = I(g.raw(sz - 1)), d = I(g.raw(sz - 1));
                auto& list = m.lists[s];
                bool present = std::find(list.begin(), list.end(), d) != list.end();
                if (s != d && !present && list.size() < degree) {
                    list.push_back(d);
                }
                ctx.trace(" {}->{}", s, d);
                size_t got = graph.add_edge(s, d);
                VH_REQUIRE(got == list.size(), "add_edge({}, {}) returned {} but the degree is {}", s, d, got, list.size());
                ++adds;
                break;
            }
            case 1: {
                I s = I(g.raw(sz - 1));
                // A list longer than the maximum degree keeps its beginning.
                std::vector<I> pool;
                for (size_t i = 0; i < sz; ++i) {
                    pool.push_back(I(i));
                }
                vh::Stream st(g.seed());
                for (size_t i = sz; i > 1; --i) {
                    std::swap(pool[i - 1], pool[st.below(i)]);
                }
                pool.resize(g.raw(std::min(sz, degree + 3)));
                ctx.trace(" {}:=({})", s, pool.size());
                if (g.flip()) {
                    graph.replace_node(s, pool);
                } else {
                    graph.replace_node(s, std::span<const I>(pool.data(), pool.size()));
                }
                pool.resize(std::min(pool.size(), degree));
                m.lists[s] = pool;
                auto now = graph.get_node(s);
                VH_REQUIRE(std::equal(now.begin(), now.end(), pool.begin(), pool.end()), "replace_node stored {} instead of {}", vh::show(now), vh::show(pool));
                ++others;
                break;
            }
            case 2: {
                I s = I(g.raw(sz - 1));
                ctx.trace(" clear({})", s);
                graph.clear_node(s);
                m.lists[s].clear();
                ++others;
                break;
            }
            case 3: {
                if (g.chance(1, 5)) {
                    ctx.trace(" reset");
                    graph.reset();
                    for (auto& l : m.lists) {
                        l.clear();
                    }
                }
                break;
            }
            case 4: {
                // An edge to a vertex which does not exist.
                I s = I(g.raw(sz - 1));
                ctx.trace(" {}->{}!", s, sz);
                VH_REQUIRE(vh::throws([&] { graph.add_edge(s, I(sz + g.raw(2))); }), "an edge to a vertex which does not exist was accepted");
                break;
            }
            case 5: {
                if constexpr (T::blocked) {
                    size_t to = g.chance(1, 2) ? sz + g.range(1, 12) : g.range(1, sz);
                    bool one = g.flip();
                    if (one) {
                        to = sz + 1;
                        graph.add_node();
                    } else {
                        graph.unsafe_resize(to);
                    }
                    ctx.trace(" resize({})", to);
                    m.lists.resize(to);
                    for (size_t i = sz; i < to; ++i) {
                        graph.clear_node(I(i)); // new vertices hold nothing defined
                    }
                    // Edges to vertices that are gone are the caller's affair: replace such lists.
                    for (size_t i = 0; i < to; ++i) {
                        auto& l = m.lists[i];
                        if (std::any_of(l.begin(), l.end(), [&](I d) { return d >= to; })) {
                            std::erase_if(l, [&](I d) { return d >= to; });
                            graph.replace_node(I(i), l);
                        }
                    }
                    ++others;
                }
                break;
            }
            case 6: {
                // A copy is equal and independent.
                G c = graph;
                compare(c, m, g, "in a copy");
                VH_REQUIRE(graphs::graphs_equal(c, graph), "a copy is not equal to its original");
                Model<I> mc = m;
                I s = I(g.raw(sz - 1)), d = I(g.raw(sz - 1));
                auto& list = mc.lists[s];
                if (g.flip()) {
                    if (s != d && std::find(list.begin(), list.end(), d) == list.end() && list.size() < degree) {
                        list.push_back(d);
                    }
                    c.add_edge(s, d);
                } else {
                    // The same neighbours but for one.
                    if (!list.empty()) {
                        size_t j = g.raw(list.size() - 1);
                        auto now = c.get_node(s);
                        list.assign(now.begin(), now.end());
                        if (std::find(list.begin(), list.end(), d) == list.end() && s != d) {
                            list[j] = d;
                        }
                        c.replace_node(s, list);
                    }
                }
                compare(c, mc, g, "in a changed copy");
                compare(graph, m, g, "after changing a copy");
                bool same = true;
                for (size_t i = 0; i < sz; ++i) {
                    auto a = m.lists[i], b = mc.lists[i];
                    std::sort(a.begin(), a.end());
                    std::sort(b.begin(), b.end());
                    same = same && a == b;
                }
                if (!same) {
                    VH_REQUIRE(!graphs::graphs_equal(c, graph), "graphs with different lists compare equal");
                    VH_REQUIRE(!graphs::graphs_equal(graph, c), "graphs with different lists compare equal");
                }
                if constexpr (!T::blocked) {
                    VH_REQUIRE((c == graph) == graphs::graphs_equal(c, graph), "operator== disagrees with the comparison of lists");
                }
                // Across layouts and sizes.
                graphs::SimpleGraph<I> plain(sz, degree);
                for (size_t i = 0; i < sz; ++i) {
                    plain.replace_node(I(i), graph.get_node(I(i)));
                }
                VH_REQUIRE(graphs::graphs_equal(plain, graph) && graphs::graphs_equal(graph, plain), "the same lists in another layout compare unequal");
                graphs::SimpleGraph<I> bigger(sz + 1, degree);
                for (size_t i = 0; i < sz; ++i) {
                    bigger.replace_node(I(i), graph.get_node(I(i)));
                }
                VH_REQUIRE(!graphs::graphs_equal(bigger, graph) && !graphs::graphs_equal(graph, bigger), "graphs of different sizes compare equal");
                ++others;
                break;
            }
            case 7: {
                ctx.trace(" move");
                G t = std::move(graph);
                compare(t, m, g, "after a move");
                graph = std::move(t);
                ++others;
                break;
            }
            case 8: {
                if (!g.chance(1, 3)) {
                    break;
                }
                ctx.trace(" save/load");
                auto dir = ctx.scratch + "/graph" + std::to_string(o);
                lib::save_to_disk(graph, dir);
                // Loading the blocked layout reserves a gibibyte: rarely.
                bool expensive = g.chance(1, 60);
                if constexpr (T::blocked) {
                    auto plain = lib::load_from_disk<graphs::SimpleGraph<I>>(dir);
                    compare(plain, m, g, "after loading into the other layout");
                    VH_REQUIRE(graphs::graphs_equal(plain, graph), "the reloaded graph is not equal");
                    if (expensive) {
                        auto loaded = lib::load_from_disk<G>(dir);
                        compare(loaded, m, g, "after save and load");
                    }
                } else {
                    auto loaded = lib::load_from_disk<G>(dir);
                    compare(loaded, m, g, "after save and load");
                    VH_REQUIRE(loaded == graph, "the reloaded graph is not equal");
                    auto by_path = G::load(std::filesystem::path(dir));
                    compare(by_path, m, g, "after loading by path");
                    if (expensive) {
                        auto other = lib::load_from_disk<graphs::SimpleBlockedGraph<I>>(dir);
                        compare(other, m, g, "after loading into the other layout");
                    }
                    if (g.flip()) {
                        graph = std::move(loaded);
                    }
                }
                using Wrong = std::conditional_t<std::is_same_v<I, uint32_t>, uint64_t, uint32_t>;
                VH_REQUIRE(vh::throws([&] { lib::load_from_disk<graphs::SimpleGraph<Wrong>>(dir); }), "a graph was loaded with another index type");
                ++others;
                break;
            }
        }
        compare(graph, m, g, "during the history");
    }
    ctx.interesting(adds >= 4 && others >= 1);
}
} // namespace

static vh::Register a{"contiguous uint32", 4, history<graphs::SimpleGraph<uint32_t>>};
static vh::Register b{"contiguous uint64, plain memory", 3, history<graphs::SimpleGraph<uint64_t, lib::Allocator<uint64_t>>>};
static vh::Register c{"contiguous uint16", 2, history<graphs::SimpleGraph<uint16_t, lib::Allocator<uint16_t>>>};
static vh::Register d{"blocked uint32", 4, history<graphs::SimpleBlockedGraph<uint32_t>>};
