// C05: candidate buffers of a graph search against a list of everything offered.
#include "vh.hpp"
#include "svs/index/vamana/dynamic_search_buffer.h"
#include "svs/index/vamana/filter.h"
#include "svs/index/vamana/search_buffer.h"

#include <algorithm>
#include <map>
#include <set>

namespace {
using namespace svs;
using index::vamana::SearchBufferConfig;
using Id = uint32_t;

struct Offer {
    Id id;
    float dist;
    bool valid;
};

float make_dist(vh::Gen& g, int style) {
    switch (style) {
        case 0: return float(g.raw(6));                       // many ties
        case 1: return float(g.raw(200)) * 0.25f - 20.0f;     // some ties, negative too
        case 2: return float(g.raw(1000000)) * 1e-3f;         // nearly none
        default: {
            static const float xs[] = {0.0f, -0.0f, 1.0f, -1.0f, 3.0e38f, -3.0e38f, 1e-40f,
                std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity()};
            return xs[g.raw(8)];
        }
    }
}

SearchBufferConfig make_config(vh::Gen& g, size_t maxcap) {
    size_t w = g.skew(1, maxcap);
    size_t c = g.flip() ? w : g.range(w, maxcap);
    return SearchBufferConfig(w, c);
}

template <typename Cmp> bool nearer(float a, float b) { return Cmp{}(a, b); }

// ---------------------------------------------------------------- static buffer
template <typename Cmp> struct StaticModel {
    size_t window = 0, cap = 0;
    std::map<Id, float> offered;  // distinct ids since the clear
    std::set<Id> handed;

    void check(const index::vamana::SearchBuffer<Id, Cmp>& b, const char* when) {
        size_t want = std::min(cap, offered.size());
        VH_REQUIRE(b.capacity() == cap, "capacity {} instead of {} {}", b.capacity(), cap, when);
        VH_REQUIRE(b.size() == want, "{} candidates instead of {} {}", b.size(), want, when);
        VH_REQUIRE(b.full() == (want == cap), "full() wrong {}", when);
        VH_REQUIRE(b.view().size() == want, "view() has {} entries {}", b.view().size(), when);
        VH_REQUIRE(size_t(b.end() - b.begin()) == want, "iterators span {} {}", b.end() - b.begin(), when);
        std::vector<float> ds;
        for (auto& [i, d] : offered) {
            ds.push_back(d);
        }
        std::stable_sort(ds.begin(), ds.end(), Cmp{});
        std::set<Id> seen;
        for (size_t i = 0; i < want; ++i) {
            auto& n = b[i];
            auto it = offered.find(n.id());
            VH_REQUIRE(it != offered.end(), "position {} holds id {} which was never offered {}", i, n.id(), when);
            VH_REQUIRE(it->second == n.distance(), "id {} has distance {} instead of {} {}", n.id(), n.distance(), it->second, when);
            VH_REQUIRE(seen.insert(n.id()).second, "id {} is held twice {}", n.id(), when);
            VH_REQUIRE(ds[i] == n.distance(), "position {} holds distance {} where the best candidates have {} {}", i, n.distance(), ds[i], when);
            VH_REQUIRE(n.visited() == (handed.count(n.id()) > 0), "id {} visited={} {}", n.id(), n.visited(), when);
            VH_REQUIRE(b.view()[i].id() == n.id() && (b.begin() + i)->id() == n.id(), "views disagree at {} {}", i, when);
        }
        if (want) {
            VH_REQUIRE(b.back().id() == b[want - 1].id(), "back() is not the last candidate {}", when);
        }
        // Next to hand out.
        size_t upper = std::min(want, window);
        bool left = false;
        for (size_t i = 0; i < upper; ++i) {
            left = left || !b[i].visited();
        }
        VH_REQUIRE(b.done() == !left, "done() = {} but {} unvisited in the window {}", b.done(), left ? "there is one" : "nothing is", when);
    }
};

template <typename Cmp> void static_history(vh::Gen& g, vh::Ctx& ctx) {
    using Buffer = index::vamana::SearchBuffer<Id, Cmp>;
    size_t maxcap = g.pick<size_t>({4, 8, 20, 64});
    int style = int(g.raw(3));
    size_t nids = g.pick<size_t>({6, 12, 40, 200});
    bool visited = g.chance(1, 3);
    auto config = make_config(g, maxcap);
    Buffer b;
    switch (g.raw(2)) {
        case 0: b = Buffer(config, Cmp{}, visited); break;
        case 1:
            b = Buffer{};
            b.change_maxsize(config);
            if (visited) {
                b.enable_visited_set();
            }
            break;
        default: {
            config = SearchBufferConfig(config.get_total_capacity());
            b = Buffer(config.get_total_capacity(), Cmp{}, visited);
        }
    }
    StaticModel<Cmp> m;
    m.window = config.get_search_window_size();
    m.cap = config.get_total_capacity();
    std::map<Id, float> dist; // every id has one distance
    auto distance_of = [&](Id id) {
        auto it = dist.find(id);
        if (it == dist.end()) {
            it = dist.emplace(id, make_dist(g, style)).first;
        }
        return it->second;
    };
    ctx.describe("static {} window={} cap={} ids={} style={}:", std::is_same_v<Cmp, std::less<>> ? "less" : "greater", m.window, m.cap, nids, style);
    b.clear();
    m.check(b, "after the first clear");
    size_t ops = g.skew(1, 120), inserts = 0, nexts = 0;
    bool fresh = true;
    for (size_t o = 0; o < ops; ++o) {
        switch (g.pick<int>({0, 0, 0, 0, 0, 1, 1, 2, 3, 4, 5})) {
            case 0: {
                Id id = Id(g.raw(nids));
                float d = distance_of(id);
                ctx.trace(" insert({},{})", id, d);
                bool skip = m.offered.empty() ? false : b.can_skip(d);
                auto before = b.size();
                std::vector<Id> was;
                if (skip) {
                    for (auto& n : b) {
                        was.push_back(n.id());
                    }
                }
                b.insert({id, d});
                if (skip) {
                    VH_REQUIRE(b.size() == before, "can_skip() held but insert changed the size");
                    for (size_t i = 0; i < was.size(); ++i) {
                        VH_REQUIRE(was[i] == b[i].id(), "can_skip() held but insert changed the buffer");
                    }
                }
                // An id that fell out and comes back was never handed out of *this* buffer state;
                // it can only come back where it cannot be retained.
                m.offered.emplace(id, d);
                ++inserts;
                fresh = false;
                break;
            }
            case 1: {
                if (b.done()) {
                    break;
                }
                // First unvisited, by position.
                size_t at = 0;
                while (b[at].visited()) {
                    ++at;
                }
                float want = b[at].distance();
                auto n = b.next();
                ctx.trace(" next={}", n.id());
                VH_REQUIRE(m.offered.count(n.id()), "next() returned id {} which was never offered", n.id());
                VH_REQUIRE(m.handed.insert(n.id()).second, "next() returned id {} twice", n.id());
                VH_REQUIRE(n.distance() == want, "next() returned distance {} while the best unvisited has {}", n.distance(), want);
                ++nexts;
                break;
            }
            case 2: {
                ctx.trace(" clear");
                b.clear();
                m.offered.clear();
                m.handed.clear();
                fresh = true;
                break;
            }
            case 3: {
                auto c = make_config(g, maxcap);
                if (g.flip()) {
                    // The plain-size form keeps what still fits.
                    size_t s = c.get_total_capacity();
                    std::vector<std::pair<Id, float>> was;
                    for (auto& n : b) {
                        was.emplace_back(n.id(), n.distance());
                    }
                    b.change_maxsize(s);
                    ctx.trace(" change_maxsize({})", s);
                    VH_REQUIRE(b.capacity() == s && b.size() == std::min(s, was.size()), "after change_maxsize({}): capacity {} size {}", s, b.capacity(), b.size());
                    for (size_t i = 0; i < b.size(); ++i) {
                        VH_REQUIRE(b[i].id() == was[i].first && b[i].distance() == was[i].second, "change_maxsize changed candidate {}", i);
                    }
                    c = SearchBufferConfig(s);
                } else {
                    b.change_maxsize(c);
                    ctx.trace(" change_maxsize({},{})", c.get_search_window_size(), c.get_total_capacity());
                }
                VH_REQUIRE(b.config() == c, "config() differs from the configuration just set");
                b.clear();
                m.window = c.get_search_window_size();
                m.cap = c.get_total_capacity();
                m.offered.clear();
                m.handed.clear();
                fresh = true;
                break;
            }
            case 4: {
                if (!fresh) {
                    break;
                }
                // Entry points: appended, then put in order.
                size_t n = g.range(1, 5);
                for (size_t i = 0; i < n; ++i) {
                    Id id = Id(g.raw(nids));
                    if (m.offered.count(id)) {
                        continue;
                    }
                    float d = distance_of(id);
                    ctx.trace(" push({},{})", id, d);
                    b.push_back({id, d});
                    if (m.offered.size() < m.cap) {
                        m.offered.emplace(id, d);
                    }
                }
                b.sort();
                fresh = false;
                break;
            }
            case 5: {
                if (g.flip()) {
                    auto c = b.shallow_copy();
                    VH_REQUIRE(c.config() == b.config() && c.size() == 0 && c.visited_set_enabled() == b.visited_set_enabled(), "shallow_copy differs");
                    c.clear();
                    c.insert({Id(1), 1.0f});
                    VH_REQUIRE(c.size() == 1 && c[0].id() == 1 && !c[0].visited(), "a shallow copy holds leftovers");
                } else if (g.flip()) {
                    b.enable_visited_set();
                    VH_REQUIRE(b.visited_set_enabled(), "enabling the visited set had no effect");
                } else {
                    b.disable_visited_set();
                    VH_REQUIRE(!b.visited_set_enabled() && !b.is_visited(3), "disabling the visited set had no effect");
                }
                break;
            }
        }
        m.check(b, "during the history");
    }
    ctx.interesting(inserts >= 4 && nexts >= 1);
    ctx.label(m.window == m.cap ? "window=capacity" : "window<capacity");
}

// ---------------------------------------------------------------- mutable buffer
template <typename Cmp> struct MutableModel {
    size_t window = 0, cap = 0;
    std::map<Id, Offer> offered;
    std::set<Id> handed;

    std::vector<float> valid_distances() const {
        std::vector<float> ds;
        for (auto& [i, o] : offered) {
            if (o.valid) {
                ds.push_back(o.dist);
            }
        }
        std::stable_sort(ds.begin(), ds.end(), Cmp{});
        return ds;
    }
    // The valid part of `b` (all of it after cleanup) must be the best valid offers.
    template <typename B> void check_valid(const B& b, bool only_valid, const char* when) {
        auto ds = valid_distances();
        size_t want = std::min(cap, ds.size());
        std::set<Id> seen;
        size_t v = 0;
        float last = 0;
        bool first = true;
        for (auto& n : b) {
            auto it = offered.find(n.id());
            VH_REQUIRE(it != offered.end(), "holds id {} which was never offered {}", n.id(), when);
            VH_REQUIRE(it->second.dist == n.distance(), "id {} has distance {} instead of {} {}", n.id(), n.distance(), it->second.dist, when);
            VH_REQUIRE(it->second.valid == n.valid(), "id {} valid={} {}", n.id(), n.valid(), when);
            VH_REQUIRE(seen.insert(n.id()).second, "id {} is held twice {}", n.id(), when);
            VH_REQUIRE(n.visited() == (handed.count(n.id()) > 0), "id {} visited={} {}", n.id(), n.visited(), when);
            VH_REQUIRE(first || !Cmp{}(n.distance(), last), "candidates out of order {}", when);
            first = false;
            last = n.distance();
            if (n.valid()) {
                VH_REQUIRE(v < want && ds[v] == n.distance(), "valid candidate {} has distance {} where the best have {} {}", v, n.distance(), v < want ? ds[v] : -1, when);
                ++v;
            } else {
                VH_REQUIRE(!only_valid, "an invalid candidate survived cleanup");
            }
        }
        VH_REQUIRE(v == want, "{} valid candidates instead of {} {}", v, want, when);
        if (!only_valid) {
            // Every invalid candidate nearer than the last retained valid one is still there,
            // and all of them while fewer than the capacity are valid.
            for (auto& [i, o] : offered) {
                if (!o.valid && (want < cap || Cmp{}(o.dist, ds[want - 1]))) {
                    VH_REQUIRE(seen.count(i), "skippable candidate {} (distance {}) was dropped {}", i, o.dist, when);
                }
            }
        }
    }
    template <typename B> void check(const B& b, const char* when) {
        check_valid(b, false, when);
        auto ds = valid_distances();
        size_t want = std::min(cap, ds.size());
        VH_REQUIRE(b.valid() == want, "valid() = {} instead of {} {}", b.valid(), want, when);
        VH_REQUIRE(b.full() == (want == cap), "full() = {} with {} of {} valid {}", b.full(), want, cap, when);
        // The window ends with its window-th valid candidate.
        size_t v = 0;
        bool left = false;
        for (auto& n : b) {
            left = left || !n.visited();
            v += n.valid();
            if (v == window) {
                break;
            }
        }
        VH_REQUIRE(b.done() == !left, "done() = {} but {} unvisited in the window {}", b.done(), left ? "there is one" : "nothing is", when);
    }
};

template <typename Cmp> void mutable_history(vh::Gen& g, vh::Ctx& ctx) {
    using Buffer = index::vamana::MutableBuffer<Id, Cmp>;
    size_t maxcap = g.pick<size_t>({3, 6, 12, 40});
    int style = int(g.raw(2));
    size_t nids = g.pick<size_t>({6, 12, 40, 200});
    unsigned pvalid = unsigned(g.pick<int>({1, 3, 5, 8, 9}));
    bool visited = g.chance(1, 3);
    auto config = make_config(g, maxcap);
    Buffer b;
    if (g.flip()) {
        b = Buffer(config, Cmp{}, visited);
    } else {
        b.change_maxsize(config);
    }
    MutableModel<Cmp> m;
    m.window = config.get_search_window_size();
    m.cap = config.get_total_capacity();
    std::map<Id, Offer> all;
    auto offer_of = [&](Id id) {
        auto it = all.find(id);
        if (it == all.end()) {
            float d = make_dist(g, style);
            it = all.emplace(id, Offer{id, d, g.chance(pvalid, 10)}).first;
        }
        return it->second;
    };
    ctx.describe("mutable {} window={} cap={} ids={} style={} valid={}/10:", std::is_same_v<Cmp, std::less<>> ? "less" : "greater", m.window, m.cap, nids, style, pvalid);
    b.clear();
    m.check(b, "after the first clear");
    size_t ops = g.skew(1, 120), inserts = 0, nexts = 0, cleanups = 0;
    bool fresh = true;
    for (size_t o = 0; o < ops; ++o) {
        switch (g.pick<int>({0, 0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6})) {
            case 0: {
                Id id = Id(g.raw(nids));
                auto f = offer_of(id);
                ctx.trace(" insert({},{}{})", id, f.dist, f.valid ? "" : ",skip");
                b.insert({id, f.dist, f.valid});
                m.offered.emplace(id, f);
                ++inserts;
                fresh = false;
                break;
            }
            case 1: {
                if (b.done()) {
                    break;
                }
                size_t at = 0;
                while ((b.begin() + at)->visited()) {
                    ++at;
                }
                float want = (b.begin() + at)->distance();
                auto n = b.next();
                ctx.trace(" next={}", n.id());
                VH_REQUIRE(m.offered.count(n.id()), "next() returned id {} which was never offered", n.id());
                VH_REQUIRE(m.handed.insert(n.id()).second, "next() returned id {} twice", n.id());
                VH_REQUIRE(n.distance() == want, "next() returned distance {} while the best unvisited has {}", n.distance(), want);
                ++nexts;
                break;
            }
            case 2:
                ctx.trace(" clear");
                b.clear();
                m.offered.clear();
                m.handed.clear();
                fresh = true;
                break;
            case 3: {
                auto c = make_config(g, maxcap);
                ctx.trace(" change_maxsize({},{})", c.get_search_window_size(), c.get_total_capacity());
                b.change_maxsize(c);
                VH_REQUIRE(b.config() == c, "config() differs from the configuration just set");
                b.clear();
                m.window = c.get_search_window_size();
                m.cap = c.get_total_capacity();
                m.offered.clear();
                m.handed.clear();
                fresh = true;
                break;
            }
            case 4: {
                if (!fresh) {
                    break;
                }
                size_t n = g.range(1, 5);
                size_t nvalid = 0;
                for (size_t i = 0; i < n; ++i) {
                    Id id = Id(g.raw(nids));
                    if (m.offered.count(id)) {
                        continue;
                    }
                    auto f = offer_of(id);
                    ctx.trace(" push({},{}{})", id, f.dist, f.valid ? "" : ",skip");
                    b.push_back({id, f.dist, f.valid});
                    if (f.valid && nvalid == m.cap) {
                        continue; // over capacity: refused
                    }
                    nvalid += f.valid;
                    m.offered.emplace(id, f);
                }
                b.sort();
                fresh = false;
                break;
            }
            case 5: {
                // The end of a search: only the valid candidates remain.
                if (!g.chance(1, 3)) {
                    break;
                }
                ctx.trace(" cleanup");
                b.cleanup();
                ++cleanups;
                m.check_valid(b, true, "after cleanup");
                VH_REQUIRE(b.size() == std::min(m.cap, m.valid_distances().size()), "size {} after cleanup", b.size());
                for (size_t i = 0; i < b.size(); ++i) {
                    VH_REQUIRE(b[i].id() == (b.begin() + i)->id(), "operator[] disagrees with begin()");
                }
                b.clear();
                m.offered.clear();
                m.handed.clear();
                fresh = true;
                break;
            }
            case 6: {
                auto c = b.shallow_copy();
                VH_REQUIRE(c.config() == b.config() && c.size() == 0 && c.visited_set_enabled() == b.visited_set_enabled(), "shallow_copy differs");
                break;
            }
        }
        m.check(b, "during the history");
    }
    ctx.interesting(inserts >= 4 && nexts >= 1);
    ctx.label(m.window == m.cap ? "window=capacity" : "window<capacity");
}

// A whole traversal offering tens of thousands of skippable candidates.
template <typename Cmp> void mutable_many(vh::Gen& g, vh::Ctx& ctx) {
    using Buffer = index::vamana::MutableBuffer<Id, Cmp>;
    size_t n = 65000 + g.raw(6000);
    size_t cap = g.range(1, 20);
    size_t nvalid = g.raw(2 * cap);
    double sign = std::is_same_v<Cmp, std::less<>> ? 1.0 : -1.0;
    ctx.describe("mutable: {} skippable then {} valid candidates, capacity {}", n, nvalid, cap);
    Buffer b(SearchBufferConfig(cap), Cmp{});
    b.clear();
    for (size_t i = 0; i < n; ++i) {
        b.insert({Id(i), float(sign * double(i)), false});
    }
    size_t steps = g.raw(3);
    for (size_t s = 0; s < steps; ++s) {
        VH_REQUIRE(!b.done(), "done() with {} unvisited candidates and none valid", n - s);
        auto x = b.next();
        VH_REQUIRE(x.id() == s, "next() returned {} instead of {}", x.id(), s);
    }
    for (size_t i = 0; i < nvalid; ++i) {
        b.insert({Id(n + i), float(sign * double(n + i)), true});
    }
    VH_REQUIRE(b.valid() == std::min(cap, nvalid), "valid() = {} after {} valid of {}", b.valid(), nvalid, cap);
    size_t limit = nvalid >= cap ? n + cap : n + nvalid;
    for (size_t s = steps; s < limit; ++s) {
        VH_REQUIRE(!b.done(), "done() after {} of {} candidates in the window", s, limit);
        auto x = b.next();
        VH_REQUIRE(x.id() == s, "next() returned {} instead of {}", x.id(), s);
    }
    VH_REQUIRE(b.done(), "not done() after every candidate was handed out");
    b.cleanup();
    VH_REQUIRE(b.size() == std::min(cap, nvalid), "{} results instead of {}", b.size(), std::min(cap, nvalid));
    for (size_t i = 0; i < b.size(); ++i) {
        VH_REQUIRE(b[i].id() == n + i, "result {} is {}", i, b[i].id());
    }
    ctx.interesting();
}

// ---------------------------------------------------------------- visited filter
template <size_t N> void filter_history(vh::Gen& g, vh::Ctx& ctx) {
    index::vamana::VisitedFilter<Id, N> f;
    std::set<Id> offered;
    VH_REQUIRE(f.capacity() == size_t(1) << N, "capacity {}", f.capacity());
    size_t ops = g.skew(1, 150);
    std::vector<Id> pool;
    for (size_t i = 0; i < 12; ++i) {
        switch (g.raw(4)) {
            case 0: pool.push_back(Id(g.raw(10))); break;
            case 1: pool.push_back(Id(g.raw(UINT32_MAX))); break;
            case 2: pool.push_back(Id(UINT32_MAX - g.raw(70000))); break;
            // Keys sharing low or high halves with another.
            case 3: pool.push_back((pool.empty() ? 0 : (pool[g.raw(pool.size() - 1)] & 0xffff)) | Id(g.raw(0xffff)) << 16); break;
            default: pool.push_back((pool.empty() ? 0 : (pool[g.raw(pool.size() - 1)] & 0xffff0000)) | Id(g.raw(0xffff))); break;
        }
    }
    ctx.describe("filter 2^{} keys {}", N, vh::show(pool));
    auto all = [&](const char* when) {
        for (Id k : pool) {
            VH_REQUIRE(!f.contains(k) || offered.count(k), "key {} reported as visited but never offered {}", k, when);
        }
    };
    all("at first");
    for (size_t o = 0; o < ops; ++o) {
        Id k = g.pickv(pool);
        switch (g.pick<int>({0, 0, 0, 0, 1, 2})) {
            case 0: {
                bool r = f.emplace(k);
                VH_REQUIRE(!r || offered.count(k), "emplace({}) reported a key never offered before", k);
                offered.insert(k);
                break;
            }
            case 1: f.prefetch(k); break;
            case 2:
                if (g.chance(1, 4)) {
                    f.reset();
                    offered.clear();
                }
                break;
        }
        all("during the history");
    }
    ctx.interesting(ops > 6);
}

VH_CASES("buffer config", 1) {
    size_t w = g.skew(0, 100), c = g.skew(0, 100);
    ctx.describe("SearchBufferConfig({}, {})", w, c);
    bool t = vh::throws([&] {
        SearchBufferConfig x(w, c);
        VH_REQUIRE(x.get_search_window_size() == w && x.get_total_capacity() == c, "accessors differ");
    });
    VH_REQUIRE(t == (w > c), "{} by the constructor", t ? "refused" : "accepted");
    SearchBufferConfig y(w);
    VH_REQUIRE(y.get_search_window_size() == w && y.get_total_capacity() == w, "one-argument form differs");
    ctx.interesting(w > 0);
}
} // namespace

static vh::Register r1{"static buffer, less", 10, static_history<std::less<>>};
static vh::Register r2{"static buffer, greater", 10, static_history<std::greater<>>};
static vh::Register r3{"mutable buffer, less", 14, mutable_history<std::less<>>};
static vh::Register r4{"mutable buffer, greater", 14, mutable_history<std::greater<>>};
static vh::Register r5{"many deleted candidates, less", 1, mutable_many<std::less<>>};
static vh::Register r6{"many deleted candidates, greater", 1, mutable_many<std::greater<>>};
static vh::Register r7{"visited filter 16", 6, filter_history<16>};
static vh::Register r8{"visited filter 5", 6, filter_history<5>};
