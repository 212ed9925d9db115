// A dynamic index driven next to a map from external ids to vectors, and the relations that tie
// them: contents, exact searches over what the graph reaches, well-formed graph.
#pragma once
#include "svsgen.hpp"
#include "vamana_model.hpp"

#include "svs/core/graph.h"
#include "svs/index/index.h"
#include "svs/index/vamana/dynamic_index.h"

#include <map>
#include <set>

namespace dyn {
using namespace vg;
namespace vam = svs::index::vamana;
namespace fs = std::filesystem;

// A blocked graph with blocks of a page, so that growth crosses block boundaries.
class PagedGraph : public svs::graphs::SimpleGraphBase<uint32_t, svs::data::BlockedData<uint32_t, svs::Dynamic, svs::HugepageAllocator<uint32_t>>> {
  public:
    using parent_type = svs::graphs::SimpleGraphBase<uint32_t, svs::data::BlockedData<uint32_t, svs::Dynamic, svs::HugepageAllocator<uint32_t>>>;
    using data_type = typename parent_type::data_type;
    static typename data_type::allocator_type alloc() {
        return typename data_type::allocator_type(svs::data::BlockingParameters{.blocksize_bytes = svs::lib::PowerOfTwo(10)});
    }
    PagedGraph(size_t max_degree, size_t num_nodes)
        : parent_type{num_nodes, max_degree, alloc()} {}
    explicit PagedGraph(data_type data)
        : parent_type{std::move(data)} {}
    void unsafe_resize(size_t n) { data_.resize(n); }
    void add_node() { unsafe_resize(n_nodes() + 1); }
    static PagedGraph load(const svs::lib::LoadTable& table) {
        auto lazy = svs::lib::Lazy([](data_type data) { return PagedGraph(std::move(data)); });
        return parent_type::load(table, lazy, alloc());
    }
    static PagedGraph load(const fs::path& p) { return svs::lib::load_from_disk<PagedGraph>(p); }
};

struct Params {
    float alpha = 1.2f;
    size_t degree = 8, window = 20, candidates = 40, prune_to = 8;
    bool history = true;
    vam::VamanaBuildParameters build() const {
        return vam::VamanaBuildParameters(alpha, degree, window, candidates, prune_to, history);
    }
    std::string show() const {
        return fmt::format("alpha={} degree={} window={} candidates={} prune_to={} history={}", alpha, degree, window, candidates, prune_to, history);
    }
};

inline Params gen_params(vh::Gen& g, Dist kind) {
    Params p;
    p.degree = g.range(1, 16);
    p.alpha = ascending(kind) ? g.pick<float>({1.2f, 1.0f, 1.05f, 1.5f}) : g.pick<float>({0.95f, 1.0f, 0.9f, 0.8f});
    p.window = g.skew(1, 40);
    p.candidates = g.flip() ? 2 * p.window + 10 : g.skew(1, 60);
    p.prune_to = g.flip() ? p.degree : g.range(1, p.degree);
    p.history = g.flip();
    return p;
}

// The candidates a best-first traversal over an index with deleted entries holds at its end:
// only live candidates count towards window and capacity.
inline std::vector<std::pair<uint32_t, float>> best_first_live(
    const Adj& adj, const std::vector<char>& live, uint32_t entry, const std::vector<float>& dist, size_t window, size_t capacity, bool larger
) {
    struct Cand {
        float d;
        uint32_t id;
        bool visited;
    };
    std::vector<Cand> buf;
    auto less = [&](float a, float b) { return larger ? a > b : a < b; };
    // One past the m-th live candidate, or the end if there are fewer.
    auto upto = [&](size_t m) {
        size_t seen = 0;
        for (size_t i = 0; i < buf.size(); ++i) {
            seen += live[buf[i].id];
            if (seen == m) {
                return i + 1;
            }
        }
        return buf.size();
    };
    auto insert = [&](uint32_t id) {
        for (auto& c : buf) {
            if (c.id == id) {
                return;
            }
        }
        Cand c{dist[id], id, false};
        auto at = std::find_if(buf.begin(), buf.end(), [&](auto& o) { return less(c.d, o.d); });
        buf.insert(at, c);
        buf.resize(upto(capacity));
    };
    insert(entry);
    while (true) {
        size_t i = 0, end = upto(window);
        while (i < end && buf[i].visited) {
            ++i;
        }
        if (i == end) {
            break;
        }
        buf[i].visited = true;
        auto id = buf[i].id;
        for (auto t : adj[id]) {
            insert(t);
        }
    }
    std::vector<std::pair<uint32_t, float>> out;
    for (auto& c : buf) {
        if (live[c.id]) {
            out.push_back({c.id, c.d});
        }
    }
    return out;
}

template <typename T, typename D, typename Graph> struct Sim {
    using Data = svs::data::BlockedData<T, svs::Dynamic, svs::HugepageAllocator<T>>;
    using Index = vam::MutableVamanaIndex<Graph, Data, D>;
    static constexpr Dist kind = dist_tag<D>::value;

    size_t d;
    size_t values;
    Params params;
    Mat<T> pool;      // vectors in the order in which they are added
    size_t used = 0;  // rows of the pool handed out
    std::map<size_t, std::vector<T>> model{};
    std::optional<Index> index{};
    typename Data::allocator_type alloc{};
    size_t soft = 0; // deleted, not yet consolidated

    static typename Data::allocator_type blocks(vh::Gen& g, size_t d) {
        size_t log2 = 0;
        while ((size_t(1) << log2) < d * sizeof(T)) {
            ++log2;
        }
        return typename Data::allocator_type(svs::data::BlockingParameters{.blocksize_bytes = svs::lib::PowerOfTwo(log2 + g.range(0, 6))});
    }

    Sim(size_t d_, size_t values_, Params p, size_t most, uint64_t seed)
        : d{d_}
        , values{values_}
        , params{p}
        , pool{with_distances(matrix<T>(most, d_, values_, seed), kind)} {}

    Mat<T> take(size_t n) {
        Mat<T> m(0, d);
        for (size_t i = 0; i < n; ++i) {
            m.push_row(pool.row(used++ % pool.n));
        }
        return m;
    }

    std::vector<T> row(const Mat<T>& m, size_t i) const { return std::vector<T>(m.row(i), m.row(i) + d); }

    void build(vh::Gen& g, size_t n, const std::vector<size_t>& ids, size_t threads) {
        auto x = take(n);
        alloc = blocks(g, d);
        auto data = Data(n, d, alloc);
        for (size_t i = 0; i < n; ++i) {
            data.set_datum(i, x.span(i));
            model[ids[i]] = row(x, i);
        }
        index.emplace(params.build(), std::move(data), ids, D(), threads);
    }

    std::vector<size_t> ids() const {
        std::vector<size_t> out;
        for (auto& [e, v] : model) {
            out.push_back(e);
        }
        return out;
    }

    // Identifiers that are not in the index.
    std::vector<size_t> fresh(vh::Gen& g, size_t n) const {
        std::vector<size_t> out;
        size_t next = g.pick<size_t>({0, 1000, size_t(1) << 32, (size_t(1) << 63) + 5, std::numeric_limits<size_t>::max() - 100000});
        size_t step = g.pick<size_t>({1, 3});
        while (out.size() < n) {
            if (!model.count(next)) {
                out.push_back(next);
            }
            next += step;
        }
        if (g.flip()) {
            std::reverse(out.begin(), out.end());
        }
        return out;
    }

    std::vector<size_t> some_ids(vh::Gen& g, size_t n) const {
        auto all = ids();
        vh::Stream s(g.seed());
        for (size_t i = all.size(); i > 1; --i) {
            std::swap(all[i - 1], all[s.below(i)]);
        }
        // Prefer the entry point now and then.
        if (g.chance(1, 3) && !all.empty()) {
            for (auto& e : all) {
                if (index->translate_external_id(e) == index->entry_point()) {
                    std::swap(e, all[0]);
                    break;
                }
            }
        }
        all.resize(std::min(n, all.size()));
        return all;
    }

    template <typename M> void add(const M& x, const std::vector<size_t>& eids) {
        auto slots = index->add_points(x.view(), eids);
        VH_REQUIRE(slots.size() == eids.size(), "add_points returns {} slots for {} points", slots.size(), eids.size());
        for (size_t i = 0; i < eids.size(); ++i) {
            model[eids[i]] = row(x, i);
            VH_REQUIRE(index->has_id(eids[i]) && index->translate_external_id(eids[i]) == slots[i], "added id {} is not in slot {}", eids[i], slots[i]);
        }
    }

    // The graph as it is, by internal id.
    Adj adjacency() const {
        auto& graph = index->view_graph();
        Adj adj(graph.n_nodes());
        for (size_t i = 0; i < adj.size(); ++i) {
            auto l = graph.get_node(i);
            adj[i].assign(l.begin(), l.end());
        }
        return adj;
    }

    // Which internal ids hold live entries, and under which external id.
    std::vector<std::optional<size_t>> external() const {
        std::vector<std::optional<size_t>> out(index->view_data().size());
        for (auto& [e, v] : model) {
            size_t i = index->translate_external_id(e);
            VH_REQUIRE(i < out.size(), "id {} is in slot {} of {}", e, i, out.size());
            VH_REQUIRE(!out[i].has_value(), "ids {} and {} share slot {}", e, *out[i], i);
            out[i] = e;
        }
        return out;
    }

    // The index holds exactly what the model holds.
    void check_contents(vh::Gen& g, const char* after) {
        auto& x = *index;
        VH_REQUIRE(x.size() == model.size(), "after {}: size() {} with {} entries", after, x.size(), model.size());
        VH_REQUIRE(x.dimensions() == d, "after {}: dimensions() {} instead of {}", after, x.dimensions(), d);
        auto want = ids();
        auto have = x.external_ids();
        std::sort(have.begin(), have.end());
        VH_REQUIRE(have == want, "after {}: external ids {} instead of {}", after, vh::show(have, 20), vh::show(want, 20));
        std::vector<size_t> walked;
        x.on_ids([&](size_t e) { walked.push_back(e); });
        std::sort(walked.begin(), walked.end());
        VH_REQUIRE(walked == want, "after {}: on_ids visits {} instead of {}", after, vh::show(walked, 20), vh::show(want, 20));
        auto ext = external();
        auto probe = fresh(g, 3);
        for (auto e : probe) {
            VH_REQUIRE(!x.has_id(e), "after {}: has_id({}) for an id that is not there", after, e);
        }
        auto dst = Mat<T>(want.size(), d);
        std::vector<size_t> order = want;
        if (g.flip()) {
            std::reverse(order.begin(), order.end());
        }
        if (!want.empty()) {
            x.reconstruct_at(svs::data::SimpleDataView<T>(dst.v.data(), order.size(), d), std::span<const size_t>(order));
        }
        for (size_t i = 0; i < order.size(); ++i) {
            auto e = order[i];
            auto& v = model[e];
            VH_REQUIRE(x.has_id(e), "after {}: has_id({}) is false", after, e);
            size_t slot = x.translate_external_id(e);
            VH_REQUIRE(!x.is_deleted(slot) && x.translate_internal_id(slot) == e, "after {}: id {} has slot {}, which does not lead back", after, e, slot);
            auto r = x.get_datum(e);
            VH_REQUIRE(r.size() == d && std::memcmp(r.data(), v.data(), d * sizeof(T)) == 0, "after {}: get_datum({}) is not the vector stored", after, e);
            VH_REQUIRE(std::memcmp(dst.row(i), v.data(), d * sizeof(T)) == 0, "after {}: reconstruct_at({}) is not the vector stored", after, e);
        }
        for (size_t i = 0; i < ext.size(); ++i) {
            VH_REQUIRE(x.is_deleted(i) == !ext[i].has_value(), "after {}: slot {} is live without an id", after, i);
        }
        x.debug_check_invariants(soft > 0);
    }

    // The graph of the live entries is well formed; `clean`: right after a consolidation.
    void check_graph(const char* after, bool clean) {
        auto& x = *index;
        auto ext = external();
        auto& graph = x.view_graph();
        VH_REQUIRE(graph.n_nodes() == x.view_data().size(), "after {}: graph of {} nodes for {} vectors", after, graph.n_nodes(), x.view_data().size());
        if (model.empty()) {
            return;
        }
        if (clean) {
            VH_REQUIRE(x.entry_point() < ext.size() && ext[x.entry_point()].has_value(), "after {}: entry point {} is not a live entry", after, x.entry_point());
        }
        for (size_t i = 0; i < ext.size(); ++i) {
            if (!ext[i]) {
                continue;
            }
            auto l = graph.get_node(i);
            VH_REQUIRE(l.size() <= params.degree, "after {}: node {} has {} edges, the maximum is {}", after, i, l.size(), params.degree);
            std::set<uint32_t> seen;
            for (auto t : l) {
                VH_REQUIRE(t < ext.size(), "after {}: node {} has an edge to {} of {}", after, i, t, ext.size());
                VH_REQUIRE(t != i, "after {}: node {} has an edge to itself", after, i);
                VH_REQUIRE(seen.insert(t).second, "after {}: node {} has two edges to {}", after, i, t);
                VH_REQUIRE(!clean || ext[t].has_value(), "after {}: live node {} has an edge to {}, which is not live", after, i, t);
            }
        }
    }

    struct Setting {
        size_t window, capacity, k, lookahead, step;
        std::string show() const { return fmt::format("window={} capacity={} k={}", window, capacity, k); }
        vam::VamanaSearchParameters params(bool filter) const {
            return vam::VamanaSearchParameters(vam::SearchBufferConfig(window, capacity), filter, lookahead, step);
        }
    };

    Setting gen_setting(vh::Gen& g) const {
        size_t n = std::max<size_t>(1, model.size());
        Setting s;
        switch (g.raw(2)) {
            case 0: s.window = n + g.range(0, 3); break;
            case 1: s.window = g.skew(1, n); break;
            default: s.window = g.range(1, 4); break;
        }
        s.capacity = g.flip() ? s.window : s.window + g.skew(0, n);
        s.k = g.chance(1, 5) ? g.range(1, n + 4) : g.range(1, std::min<size_t>(n, 10));
        s.lookahead = g.pick<size_t>({4, 0, 1, 8});
        s.step = g.pick<size_t>({1, 0, 2, 8});
        return s;
    }

    // Searches agree with the model: exact over what the graph reaches.
    void check_search(vh::Gen& g, vh::Ctx& ctx, const char* after) {
        auto& x = *index;
        size_t nq = g.range(1, 4);
        auto q = matrix<float>(nq, d, values == 2 ? 3 : values, g.seed());
        if (!model.empty() && g.flip()) {
            // A query at a stored vector.
            auto all = ids();
            auto& v = model[all[g.range(0, all.size() - 1)]];
            for (size_t j = 0; j < d; ++j) {
                q.row(0)[j] = float(v[j]);
            }
        }
        auto s = gen_setting(g);
        ctx.trace(" [search {} nq={}]", s.show(), nq);
        auto result = svs::QueryResult<size_t>(nq, s.k);
        if (g.flip()) {
            x.set_search_parameters(s.params(g.flip()));
            result = svs::index::search_batch(x, q.view(), s.k);
        } else {
            x.search(result.view(), q.view(), s.params(g.flip()));
        }
        auto ext = external();
        auto all = ids();
        std::map<size_t, size_t> dense;
        for (size_t i = 0; i < all.size(); ++i) {
            dense[all[i]] = i;
        }
        size_t slots = ext.size();
        std::vector<char> reach(slots, 0), live(slots, 0);
        auto adj = adjacency();
        for (size_t i = 0; i < slots; ++i) {
            live[i] = ext[i].has_value();
        }
        size_t nlive = 0;
        if (!model.empty()) {
            VH_REQUIRE(x.entry_point() < slots, "after {}: entry point {} of {}", after, x.entry_point(), slots);
            reach = reachable(adj, x.entry_point());
            for (size_t i = 0; i < slots; ++i) {
                nlive += reach[i] && live[i];
            }
        }
        bool exact = kind_exact(values) && kind != Dist::Cosine;
        size_t window = s.window, capacity = s.capacity;
        if (capacity < s.k) {
            window = capacity = s.k;
        }
        for (size_t i = 0; i < nq; ++i) {
            std::vector<std::optional<Ref>> ref(all.size());
            std::vector<float> lib(slots, 0);
            D dist{};
            svs::distance::maybe_fix_argument(dist, q.span(i));
            for (size_t j = 0; j < slots; ++j) {
                if (!reach[j]) {
                    continue;
                }
                lib[j] = svs::distance::compute(dist, q.span(i), x.view_data().get_datum(j));
                if (ext[j]) {
                    auto& v = model[*ext[j]];
                    auto r = ref_distance(kind, q.row(i), v.data(), d);
                    if (std::isnan(r.value)) {
                        throw vh::Discard{};
                    }
                    ref[dense[*ext[j]]] = r;
                }
            }
            std::vector<size_t> rids;
            std::vector<float> rds;
            bool padded = false;
            for (size_t j = 0; j < s.k; ++j) {
                size_t e = result.index(i, j);
                if (e == std::numeric_limits<size_t>::max()) {
                    padded = true;
                    continue;
                }
                VH_REQUIRE(!padded, "after {}: {}: neighbor {} after padding", after, s.show(), j);
                VH_REQUIRE(dense.count(e), "after {}: {}: neighbor {} is {}, which the index does not hold", after, s.show(), j, e);
                rids.push_back(dense[e]);
                rds.push_back(result.distance(i, j));
            }
            auto what = fmt::format("after {}: {} query {}", after, s.show(), i);
            size_t least = std::min({s.k, window, nlive});
            VH_REQUIRE(rids.size() >= least, "{}: {} results, but {} live entries can be reached", what, rids.size(), nlive);
            VH_REQUIRE(rids.size() <= nlive, "{}: {} results, but only {} live entries can be reached", what, rids.size(), nlive);
            check_topk(kind, ref, rids, rds, exact, what, window >= nlive && rids.size() >= std::min(s.k, nlive));
            // The traversal itself, where distances are distinct.
            std::vector<float> order;
            for (size_t j = 0; j < slots; ++j) {
                if (reach[j]) {
                    order.push_back(lib[j]);
                }
            }
            std::sort(order.begin(), order.end());
            if (!order.empty() && std::adjacent_find(order.begin(), order.end()) == order.end()) {
                auto m = best_first_live(adj, live, x.entry_point(), lib, window, capacity, !ascending(kind));
                VH_REQUIRE(rids.size() == std::min(s.k, m.size()), "{}: {} results, a traversal finds {}", what, rids.size(), std::min(s.k, m.size()));
                for (size_t j = 0; j < rids.size(); ++j) {
                    VH_REQUIRE(all[rids[j]] == *ext[m[j].first], "{}: neighbor {} is {} but a traversal of window {} finds {}", what, j, all[rids[j]], window, *ext[m[j].first]);
                }
                ctx.label("compared with the model traversal");
            }
        }
        if (soft) {
            ctx.label("search with unconsolidated deletions");
        }
    }

    // Everything observable without searching: to compare before and after a refused request.
    struct Snapshot {
        std::vector<std::optional<size_t>> ext;
        std::map<size_t, std::vector<size_t>> lists;
        size_t entry;
        bool operator==(const Snapshot&) const = default;
    };
    // Edges by external id; soft-deleted ends show as max.
    Snapshot snapshot() const {
        Snapshot s;
        auto ext = external();
        auto& graph = index->view_graph();
        for (size_t i = 0; i < ext.size(); ++i) {
            if (!ext[i]) {
                continue;
            }
            auto& l = s.lists[*ext[i]];
            for (auto t : graph.get_node(i)) {
                l.push_back(t < ext.size() && ext[t] ? *ext[t] : std::numeric_limits<size_t>::max());
            }
        }
        s.entry = index->entry_point() < ext.size() && ext[index->entry_point()] ? *ext[index->entry_point()] : std::numeric_limits<size_t>::max();
        return s;
    }

    void consolidate() {
        index->consolidate();
        soft = 0;
    }
    void remove(const std::vector<size_t>& eids) {
        index->delete_entries(eids);
        for (auto e : eids) {
            model.erase(e);
        }
        soft += eids.size();
    }
    void reload(const fs::path& dir, size_t threads, bool move) {
        auto sp = index->get_search_parameters();
        auto alpha = index->get_alpha();
        auto window = index->get_construction_window_size();
        auto cand = index->get_max_candidates();
        auto hist = index->get_full_search_history();
        fs::remove_all(dir);
        fs::create_directories(dir);
        index->save(dir / "config", dir / "graph", dir / "data");
        soft = 0;
        auto from = dir;
        if (move) {
            from = dir;
            from += "_moved";
            fs::remove_all(from);
            fs::rename(dir, from);
        }
        auto before = snapshot();
        index.reset();
        index.emplace(vam::auto_dynamic_assemble(
            from / "config", SVS_LAZY(Graph::load(from / "graph")), SVS_LAZY(Data::load(from / "data", alloc)), D(), threads
        ));
        fs::remove_all(from);
        VH_REQUIRE(index->get_search_parameters() == sp, "reloaded search parameters differ");
        VH_REQUIRE(index->get_alpha() == alpha, "reloaded alpha {} instead of {}", index->get_alpha(), alpha);
        VH_REQUIRE(index->get_construction_window_size() == window && index->get_max_candidates() == cand && index->get_full_search_history() == hist, "reloaded build parameters differ");
        VH_REQUIRE(snapshot() == before, "the reloaded index has another graph or entry point");
        VH_REQUIRE(index->get_num_threads() == threads, "reloaded with {} threads instead of {}", index->get_num_threads(), threads);
    }
};
} // namespace dyn
