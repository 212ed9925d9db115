// Property-based testing engine used by every check in /verif.
//
// A case is a function of a `Gen`, and every random decision is drawn from the `Gen` as a
// bounded choice.  The sequence of choices IS the case: it is what is shrunk, stored in a
// replay file and replayed.  A choice of 0 is always the simplest alternative, and a
// sequence that runs out is continued with zeros, so that deleting or lowering choices
// always yields another valid case (internal shrinking).
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

#include <fmt/core.h>
#include <fmt/format.h>

namespace vh {

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t s = a * 0xD6E8FEB86659FD93ull + b + 0x1234567ull;
    splitmix(s);
    return splitmix(s);
}
inline uint64_t hash_str(const std::string& x) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : x) {
        h = (h ^ c) * 1099511628211ull;
    }
    return h;
}

// Deterministic stream for bulk payloads (matrix entries).  Always seeded by a choice.
struct Stream {
    uint64_t s;
    explicit Stream(uint64_t seed)
        : s{mix(seed, 77)} {}
    uint64_t next() { return splitmix(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    double gauss() {
        double a = 0;
        for (int i = 0; i < 6; ++i) {
            a += unit();
        }
        return (a - 3.0) * 1.41421356;
    }
};

// Non-zero: the library's spin loops yield often and sleep now and then (see vh_pause.hpp).
extern int jitter;

// Thrown by a property that does not hold.
struct Fail : std::runtime_error {
    std::string key; // non-empty: identifies a specific input/call site for known findings
    explicit Fail(const std::string& m, std::string k = {})
        : std::runtime_error(m)
        , key(std::move(k)) {}
};
// Thrown to leave a case which turned out to be outside the property's domain.
struct Discard {};

// When set, every choice is also mirrored here ([0] = count) so that it survives a crash.
extern uint64_t* rec_sink;
constexpr size_t REC_MAX = 1 << 20;
// When set, the description of the case is mirrored here for the same reason.
extern char* desc_sink;
constexpr size_t DESC_MAX = 8000;

class Gen {
  public:
    std::vector<uint64_t> rec{};    // choices made
    std::vector<uint64_t> src{};    // choices to replay
    bool random = true;
    uint64_t state = 0;

    static Gen fresh(uint64_t seed) {
        Gen g;
        g.state = seed;
        return g;
    }
    static Gen replay(std::vector<uint64_t> s) {
        Gen g;
        g.random = false;
        g.src = std::move(s);
        return g;
    }
    // In [0, bound].
    uint64_t raw(uint64_t bound) {
        uint64_t v = 0;
        if (random) {
            v = bound == UINT64_MAX ? splitmix(state) : splitmix(state) % (bound + 1);
        } else if (rec.size() < src.size()) {
            v = std::min(src[rec.size()], bound);
        }
        if (rec_sink != nullptr && rec.size() + 1 < REC_MAX) {
            rec_sink[rec.size() + 1] = v;
            rec_sink[0] = rec.size() + 1;
        }
        rec.push_back(v);
        return v;
    }
    size_t range(size_t lo, size_t hi) { return lo + raw(hi - lo); }
    // Skewed to the low end, but every value of [lo, hi] is possible.
    size_t skew(size_t lo, size_t hi) {
        size_t span = hi - lo;
        switch (raw(3)) {
            case 0: return lo + raw(std::min<size_t>(span, 4));
            case 1: return lo + raw(std::min<size_t>(span, 16));
            case 2: return lo + raw(span / 2);
            default: return lo + raw(span);
        }
    }
    bool chance(unsigned num, unsigned den) { return raw(den - 1) >= den - num; }
    bool flip() { return raw(1) == 1; }
    uint64_t seed() { return raw(UINT32_MAX); }
    template <typename T> T pick(std::initializer_list<T> xs) {
        return *(xs.begin() + raw(xs.size() - 1));
    }
    template <typename V> auto pickv(const V& xs) -> typename V::value_type {
        return xs[raw(xs.size() - 1)];
    }
};

struct Ctx {
    bool nontrivial = false;
    bool known = false;
    std::map<std::string, uint64_t> labels{};
    std::string description{};
    std::string scratch{}; // scratch directory of this worker (exists)
    void label(const std::string& l) { labels[l] += 1; }
    void interesting(bool b = true) { nontrivial = nontrivial || b; }
    template <typename... A> void describe(fmt::format_string<A...> f, A&&... a) {
        description = fmt::format(f, std::forward<A>(a)...);
        mirror();
    }
    template <typename... A> void trace(fmt::format_string<A...> f, A&&... a) {
        if (description.size() < 6000) {
            description += fmt::format(f, std::forward<A>(a)...);
            mirror();
        }
    }
    void mirror() const {
        if (desc_sink != nullptr) {
            size_t n = std::min(description.size(), DESC_MAX - 1);
            std::memcpy(desc_sink, description.data(), n);
            desc_sink[n] = 0;
        }
    }
};

using CaseFn = std::function<void(Gen&, Ctx&)>;
struct Group {
    std::string name;
    unsigned weight;
    CaseFn fn;
};
std::vector<Group>& groups();
struct Register {
    Register(std::string name, unsigned weight, CaseFn fn) {
        groups().push_back({std::move(name), weight, std::move(fn)});
    }
};
std::set<std::string>& known_keys();

#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
// Register a group of cases: VH_CASES("name", weight) { ...g, ctx... }
#define VH_CASES(NAME, WEIGHT)                                                             \
    static void VH_CAT(vh_case_, __LINE__)(::vh::Gen & g, ::vh::Ctx & ctx);                \
    static ::vh::Register VH_CAT(vh_reg_, __LINE__){                                       \
        NAME, WEIGHT, VH_CAT(vh_case_, __LINE__)};                                         \
    static void VH_CAT(vh_case_, __LINE__)(                                                \
        [[maybe_unused]] ::vh::Gen & g, [[maybe_unused]] ::vh::Ctx & ctx                   \
    )

#define VH_REQUIRE(COND, ...)                                                              \
    do {                                                                                   \
        if (!(COND)) {                                                                     \
            throw ::vh::Fail(fmt::format(__VA_ARGS__) + "  [" #COND "]");                  \
        }                                                                                  \
    } while (0)

// Run `f`, and report whether it threw a std::exception.
template <typename F> bool throws(F&& f, std::string* what = nullptr) {
    try {
        f();
    } catch (const Fail&) {
        throw;
    } catch (const std::exception& e) {
        if (what) {
            *what = e.what();
        }
        return true;
    }
    return false;
}

template <typename T> std::string show(const T& xs, size_t max = 40) {
    std::string out = "[";
    size_t i = 0;
    for (const auto& x : xs) {
        if (i == max) {
            out += "...";
            break;
        }
        out += fmt::format("{}{}", i ? " " : "", x);
        ++i;
    }
    return out + "]";
}

} // namespace vh
