// C22: run-time selection among registered implementations.
#include "svsgen.hpp"

#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/lib/dispatcher.h"
#include "svs/lib/meta.h"

#include <memory>
#include <variant>

namespace {
namespace lib = svs::lib;

// What a value of the dispatch arguments is worth to each target type; set anew for every case.
int64_t worth_a[4][6], worth_b[4][6], worth_c[3][6], worth_d[2][6];
bool flags[3][6];

struct Choice {
    int v = 0;
};
struct Other {
    int v = 0;
};
struct Flag {
    int v = 0;
};
// Counts how often it is copied; a value passed along is never copied.
struct Parcel {
    int v = 0, copies = 0;
    std::unique_ptr<int> own{};
    explicit Parcel(int x)
        : v{x}
        , own{std::make_unique<int>(x)} {}
};
template <size_t I> struct TagA {
    int v;
};
template <size_t I> struct TagB {
    int v;
    const Choice* from;
};
template <size_t I> struct TagC {
    int v;
    bool other;
};
template <size_t I> struct TagF {
    int v;
};
} // namespace

namespace svs::lib {
template <size_t I> struct DispatchConverter<Choice, TagA<I>> {
    static int64_t match(const Choice& x) { return worth_a[I][x.v]; }
    static TagA<I> convert(Choice&& x) { return {x.v}; }
    static std::string description() { return fmt::format("A{}", I); }
};
template <size_t I> struct DispatchConverter<const Choice&, TagB<I>> {
    static int64_t match(const Choice& x) { return worth_b[I][x.v]; }
    static TagB<I> convert(const Choice& x) { return {x.v, &x}; }
};
template <size_t I> struct DispatchConverter<Choice, TagC<I>> {
    static int64_t match(const Choice& x) { return worth_c[I][x.v]; }
    static TagC<I> convert(Choice&& x) { return {x.v, false}; }
    static std::string description() { return fmt::format("value C{}", I); }
};
template <size_t I>
    requires(I < 2)
struct DispatchConverter<Other, TagC<I>> {
    static int64_t match(const Other& x) { return worth_d[I][x.v]; }
    static TagC<I> convert(Other&& x) { return {x.v, true}; }
    static std::string description() { return fmt::format("other C{}", I); }
};
template <size_t I> struct DispatchConverter<Flag, TagF<I>> {
    static bool match(const Flag& x) { return flags[I][x.v]; }
    static TagF<I> convert(const Flag& x) { return {x.v}; }
    static const char* description() { return "a flag"; }
};
} // namespace svs::lib

namespace {
constexpr size_t EXTENTS[3] = {svs::Dynamic, 4, 8};

struct Called {
    int tag = -1; // which implementation
    int a = -1, b = -1, c = -1, f = -1, parcel = -1;
    const Choice* from = nullptr;
    bool other = false, intact = false;
    std::string* text = nullptr;
};
using Disp = lib::Dispatcher<Called, Choice, const Choice&, std::variant<Choice, Other>, Flag, lib::ExtentArg, Parcel, std::string&>;

struct Key {
    size_t a, b, c, f, n;
};
template <size_t A, size_t B, size_t C, size_t F, size_t N> auto target(int tag) {
    return [tag](TagA<A> a, TagB<B> b, TagC<C> c, TagF<F> f, lib::ExtentTag<EXTENTS[N]>, Parcel p, std::string& text) {
        text += "!";
        return Called{tag, a.v, b.v, c.v, f.v, p.own ? p.v : -7, b.from, c.other, p.own && *p.own == p.v, &text};
    };
}
template <size_t A, size_t B, size_t C, size_t F, size_t N> void add(Disp& d, int tag, bool docs) {
    if (docs) {
        d.register_target(lib::dispatcher_build_docs, target<A, B, C, F, N>(tag));
    } else {
        d.register_target(target<A, B, C, F, N>(tag));
    }
}
using Adder = void (*)(Disp&, int, bool);
// A selection of all the combinations, so that compilation stays quick.
template <size_t... I> auto table(std::index_sequence<I...>) {
    return std::vector<std::pair<Key, Adder>>{
        {Key{I % 4, (I / 4) % 4, (I * 5 / 7) % 3, (I * 7 / 5) % 3, (I / 3) % 3}, &add<I % 4, (I / 4) % 4, (I * 5 / 7) % 3, (I * 7 / 5) % 3, (I / 3) % 3>}...};
}
const auto& all() {
    static const auto t = table(std::make_index_sequence<48>());
    return t;
}
} // namespace

VH_CASES("dispatcher", 6) {
    auto score = [&] { return g.pick<int64_t>({0, 1, -1, 2, 10000, -5, 0, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min()}); };
    auto fillin = [&](auto& t) {
        for (auto& row : t) {
            for (auto& x : row) x = score();
        }
    };
    fillin(worth_a), fillin(worth_b), fillin(worth_c), fillin(worth_d);
    for (auto& row : flags) {
        for (auto& x : row) x = !g.chance(1, 4);
    }
    size_t m = g.skew(0, 40);
    Disp d;
    std::vector<Key> keys;
    std::vector<char> docs;
    VH_REQUIRE(Disp::num_args() == 7, "{} arguments", Disp::num_args());
    for (size_t i = 0; i < m; ++i) {
        auto& [key, adder] = all()[g.raw(all().size() - 1)];
        docs.push_back(g.flip());
        adder(d, int(i), docs.back());
        keys.push_back(key);
    }
    ctx.describe("dispatcher of {} implementations", m);
    VH_REQUIRE(d.size() == m, "{} of {} implementations are registered", d.size(), m);
    size_t found = 0;
    if (g.chance(1, 4)) {
        auto taken = std::move(d);
        d = std::move(taken);
    }
    for (size_t round = 0; round < 6; ++round) {
        int a = g.raw(5), b = g.raw(5), c = g.raw(5), f = g.raw(5);
        bool other = g.flip(), force = g.flip();
        size_t n = g.pick<size_t>({svs::Dynamic, 4, 8, 5});
        auto arg = other ? std::variant<Choice, Other>(Other{c}) : std::variant<Choice, Other>(Choice{c});
        std::optional<std::array<int64_t, 7>> best;
        std::vector<std::array<int64_t, 7>> matches;
        for (auto& k : keys) {
            int64_t e = EXTENTS[k.n] == n ? 0 : EXTENTS[k.n] == svs::Dynamic && !force ? 1 : -1;
            std::array<int64_t, 7> match{worth_a[k.a][a], worth_b[k.b][b], other ? (k.c < 2 ? worth_d[k.c][c] : -1) : worth_c[k.c][c], flags[k.f][f] ? 0 : -1, e, 10000, 10000};
            matches.push_back(match);
            bool valid = std::all_of(match.begin(), match.end(), [](auto x) { return x >= 0; });
            if (valid && (!best || match < *best)) best = match;
        }
        const Choice vb{b};
        Parcel p(17 + a);
        std::string text = "x";
        auto extent = lib::ExtentArg(n, force);
        auto what = fmt::format("a={} b={} c={}{} f={} extent={}{}", a, b, other ? "other " : "", c, f, n, force ? "!" : "");
        VH_REQUIRE(d.has_match(Choice{a}, vb, arg, Flag{f}, extent, p, text) == best.has_value(), "{}: has_match is {}", what, !best.has_value());
        auto [index, match] = d.best_match(Choice{a}, vb, arg, Flag{f}, extent, p, text);
        VH_REQUIRE(index.has_value() == best.has_value(), "{}: best_match finds {}", what, index.has_value() ? "one" : "none");
        if (!best) {
            VH_REQUIRE(vh::throws([&] { d.invoke(Choice{a}, vb, arg, Flag{f}, extent, std::move(p), text); }), "{}: nothing matches, but something was called", what);
            VH_REQUIRE(text == "x", "{}: nothing matches, but something was called", what);
            continue;
        }
        ++found;
        VH_REQUIRE(*index < m && matches[*index] == *best && match == *best, "{}: implementation {} of quality {} (said to be {}) was selected, the best is {}", what, *index, *index < m ? vh::show(matches[*index], 7) : "?", vh::show(match, 7), vh::show(*best, 7));
        auto r = d.invoke(Choice{a}, vb, arg, Flag{f}, extent, std::move(p), text);
        VH_REQUIRE(r.tag >= 0 && size_t(r.tag) < m && matches[r.tag] == *best, "{}: implementation {} was called", what, r.tag);
        VH_REQUIRE(r.a == a && r.b == b && r.c == c && r.f == f && r.other == other && r.parcel == 17 + a && r.intact, "{}: called with a={} b={} c={}{} f={} parcel={}", what, r.a, r.b, r.other ? "other " : "", r.c, r.f, r.parcel);
        VH_REQUIRE(r.from == &vb && r.text == &text && text == "x!", "{}: references do not refer to what was passed", what);
    }
    for (size_t i = 0; i < m; ++i) {
        auto& k = keys[i];
        std::string want[7] = {fmt::format("A{}", k.a), "unknown", k.c < 2 ? fmt::format("value C{} OR other C{} -- (union alternatives 0, 1)", k.c, k.c) : "value C2 -- (union alternative 0)", "a flag", k.n == 0 ? "any" : fmt::format("{}", EXTENTS[k.n]), "all values", "all values"};
        for (size_t j = 0; j < 7; ++j) {
            auto got = d.description(i, j);
            VH_REQUIRE(got == (docs[i] ? want[j] : "unknown"), "argument {} of implementation {} is described as '{}'", j, i, got);
        }
        VH_REQUIRE(vh::throws([&] { d.description(i, 7); }), "there is a description of an eighth argument");
    }
    VH_REQUIRE(vh::throws([&] { d.description(m, 0); }), "there is a description of an implementation beyond the last");
    ctx.label(found == 0 ? "nothing matches" : found == 6 ? "always a match" : "sometimes a match");
    ctx.interesting(m > 2 && found > 0);
}

namespace {
// The element types and extents that stored data may be dispatched to.
using Loader = svs::UnspecializedVectorDataLoader<svs::HugepageAllocator<std::byte>>;
using Loads = lib::Dispatcher<std::string, Loader, svs::DistanceType, svs::DataType>;
template <typename T> std::string tname() { return std::string(svs::name(svs::datatype_v<T>)); }
template <typename T, size_t N, typename D, typename Q> void load_target(Loads& d) {
    d.register_target(lib::dispatcher_build_docs, [](svs::VectorDataLoader<T, N> loader, D, lib::Type<Q>) {
        auto data = loader.load();
        std::string out = fmt::format("{} {} {} {}:", tname<T>(), N, tname<Q>(), svs::name(svs::distance_type_v<D>));
        for (size_t i = 0; i < data.size(); ++i) {
            for (auto x : data.get_datum(i)) out += fmt::format(" {}", double(float(x)));
        }
        return out;
    });
}
struct LoadKey {
    svs::DataType t;
    size_t n;
    svs::DistanceType d;
    svs::DataType q;
};
template <typename T, size_t N, typename D, typename Q> std::pair<LoadKey, void (*)(Loads&)> entry() {
    return {LoadKey{svs::datatype_v<T>, N, svs::distance_type_v<D>, svs::datatype_v<Q>}, &load_target<T, N, D, Q>};
}
const auto& loads() {
    using svs::Dynamic;
    using namespace svs;
    static const std::vector<std::pair<LoadKey, void (*)(Loads&)>> t{
        entry<float, Dynamic, DistanceL2, float>(), entry<float, 3, DistanceL2, float>(), entry<float, 5, DistanceL2, float>(), entry<float, 3, DistanceIP, float>(), entry<float, Dynamic, DistanceIP, uint8_t>(),
        entry<int8_t, Dynamic, DistanceL2, int8_t>(), entry<int8_t, 3, DistanceL2, int8_t>(), entry<uint8_t, Dynamic, DistanceCosineSimilarity, uint8_t>(), entry<uint8_t, 5, DistanceL2, float>(), entry<Float16, Dynamic, DistanceL2, float>(), entry<Float16, 3, DistanceIP, Float16>()};
    return t;
}
template <typename T> void save_rows(const vg::Mat<T>& m, const std::string& path) { lib::save_to_disk(vg::simple(m), path); }
} // namespace

VH_CASES("stored data", 2) {
    size_t n = g.range(1, 4), d = g.pick<size_t>({3, 5, 2, 8});
    auto type = g.pick<svs::DataType>({svs::DataType::float32, svs::DataType::int8, svs::DataType::uint8, svs::DataType::float16});
    auto seed = g.seed();
    std::string path = ctx.scratch + "/data";
    std::filesystem::remove_all(path);
    std::string rows;
    auto write = [&]<typename T>(T) {
        auto m = vg::matrix<T>(n, d, 0, seed);
        save_rows(m, path);
        for (auto x : m.v) rows += fmt::format(" {}", double(float(x)));
    };
    switch (type) {
        case svs::DataType::float32: write(0.0f); break;
        case svs::DataType::int8: write(int8_t(0)); break;
        case svs::DataType::uint8: write(uint8_t(0)); break;
        default: write(svs::Float16(0.0f));
    }
    auto distance = g.pick<svs::DistanceType>({svs::DistanceType::L2, svs::DistanceType::MIP, svs::DistanceType::Cosine});
    auto query = g.pick<svs::DataType>({svs::DataType::float32, svs::DataType::int8, svs::DataType::uint8, svs::DataType::float16, svs::DataType::undef});
    Loads dispatch;
    std::vector<LoadKey> keys;
    for (size_t i = 0, m = g.range(0, 14); i < m; ++i) {
        auto& [k, add] = loads()[g.raw(loads().size() - 1)];
        keys.push_back(k);
        add(dispatch);
    }
    // What the file holds, or what the caller says it holds.
    bool told = g.flip();
    auto loader = told ? Loader(path, type, d) : g.flip() ? Loader(path, type) : Loader(path);
    ctx.describe("{}x{} of {} for {} queries of {}, {} implementations", n, d, svs::name(type), svs::name(distance), svs::name(query), keys.size());
    VH_REQUIRE(loader.type_ == type && loader.dims_ == d, "the file of {} and {} dimensions is taken for {} and {}", svs::name(type), d, svs::name(loader.type_), loader.dims_);
    std::optional<std::array<int64_t, 3>> best;
    std::vector<std::string> accept;
    for (auto& k : keys) {
        if (k.t != type || k.d != distance || k.q != query || (k.n != d && k.n != svs::Dynamic)) continue;
        std::array<int64_t, 3> match{k.n == d ? 0 : 1, 0, 0};
        if (!best || match < *best) best = match;
    }
    size_t extent = best && (*best)[0] == 0 ? d : svs::Dynamic;
    std::string got, error;
    bool threw = vh::throws([&] { got = dispatch.invoke(loader, distance, query); }, &error);
    if (!best) {
        VH_REQUIRE(threw, "nothing is registered for this, but '{}' ran", got);
    } else {
        auto want = fmt::format("{} {} {} {}:{}", svs::name(type), extent, svs::name(query), svs::name(distance), rows);
        VH_REQUIRE(!threw && got == want, "'{}{}' ran instead of '{}'", got, error, want);
        ctx.label("loaded");
    }
    ctx.interesting(keys.size() > 2);
}

namespace {
template <typename... Ts> void type_lists(vh::Gen& g, lib::Types<Ts...> types) {
    std::vector<svs::DataType> have{svs::datatype_v<Ts>...};
    auto every = std::vector<svs::DataType>{svs::DataType::uint8, svs::DataType::uint16, svs::DataType::uint32, svs::DataType::uint64, svs::DataType::int8, svs::DataType::int16, svs::DataType::int32, svs::DataType::int64, svs::DataType::float16, svs::DataType::float32, svs::DataType::float64, svs::DataType::byte, svs::DataType::undef};
    for (auto type : every) {
        bool in = std::count(have.begin(), have.end(), type);
        VH_REQUIRE(lib::in(type, types) == in, "{} is said to be{} in the list", svs::name(type), in ? " not" : "");
        size_t calls = 0, errors = 0;
        auto f = [&]<typename T>(lib::Type<T>) {
            ++calls;
            return svs::datatype_v<T>;
        };
        auto r = lib::match(types, type, f, [&](svs::DataType t) {
            ++errors;
            VH_REQUIRE(t == type, "the error is about {}", svs::name(t));
            return svs::DataType::undef;
        });
        VH_REQUIRE(calls == in && errors == !in && (!in || r == type), "match calls {} implementations and {} error handlers for {}", calls, errors, svs::name(type));
        VH_REQUIRE(vh::throws([&] { lib::match(types, type, f); }) == !in, "match {} {}", in ? "refuses" : "accepts", svs::name(type));
        VH_REQUIRE(vh::throws([&] { lib::match(types, type, f, [](svs::DataType) {}); }) == !in, "match {} {}", in ? "refuses" : "accepts", svs::name(type));
    }
    std::vector<svs::DataType> seen;
    lib::for_each_type(types, [&]<typename T>(lib::Type<T>) { seen.push_back(svs::datatype_v<T>); });
    VH_REQUIRE(seen == have && lib::make_vec<svs::DataType>(types, [](auto t) { return svs::DataType(t); }) == have, "the types of the list are not visited in order");
    (void)g;
}

template <typename T> void pointers(vh::Gen& g) {
    T x[3]{};
    auto p = svs::ConstErasedPointer(&x[0]);
    auto arr = svs::AnonymousArray<2>(&x[0], size_t(g.range(1, 3)), size_t(1));
    VH_REQUIRE(p.type() == svs::datatype_v<T> && arr.type() == svs::datatype_v<T> && bool(p), "a pointer to {} is of type {}", svs::name(svs::datatype_v<T>), svs::name(p.type()));
    auto get = [&]<typename U>(U) {
        const void *a = nullptr, *b = nullptr;
        bool same = std::is_same_v<T, U>;
        VH_REQUIRE(vh::throws([&] { a = p.template get<U>(); }) == !same && vh::throws([&] { b = svs::template get<U>(arr); }) == !same, "a pointer to {} {} taken for one to {}", svs::name(svs::datatype_v<T>), same ? "cannot be" : "is", svs::name(svs::datatype_v<U>));
        VH_REQUIRE(!same || (a == x && b == x), "another address");
    };
    get(float(0)), get(double(0)), get(svs::Float16(0.0f)), get(uint8_t(0)), get(int8_t(0)), get(uint16_t(0)), get(int16_t(0)), get(uint32_t(0)), get(int32_t(0)), get(uint64_t(0)), get(int64_t(0));
}
} // namespace

VH_CASES("type lists and erased pointers", 1) {
    ctx.describe("type lists and erased pointers");
    type_lists(g, lib::Types<float>());
    type_lists(g, lib::Types<float, svs::Float16>());
    type_lists(g, lib::Types<int8_t, uint8_t, double, uint64_t>());
    type_lists(g, lib::Types<uint16_t, float, int64_t, int8_t, svs::Float16, uint32_t>());
    switch (g.raw(5)) {
        case 0: pointers<float>(g); break;
        case 1: pointers<svs::Float16>(g); break;
        case 2: pointers<uint8_t>(g); break;
        case 3: pointers<int64_t>(g); break;
        case 4: pointers<uint16_t>(g); break;
        default: pointers<double>(g);
    }
    for (auto d : {svs::DistanceType::L2, svs::DistanceType::MIP, svs::DistanceType::Cosine}) {
        int extra = 5;
        auto got = svs::DistanceDispatcher(d)([](auto f, int& x) { ++x; return svs::distance_type_v<decltype(f)>; }, extra);
        VH_REQUIRE(got == d && extra == 6, "distance {} is dispatched as {}", svs::name(d), svs::name(got));
    }
}
