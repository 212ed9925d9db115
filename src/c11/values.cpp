#include "common.hpp"
#include "svs/index/inverted/clustering.h"
#include "svs/index/inverted/memory_build_params.h"
#include "svs/index/inverted/memory_search_params.h"
#include "svs/index/vamana/index.h"

namespace {
using namespace c11;
namespace vam = svs::index::vamana;
namespace inv = svs::index::inverted;

struct Sub {
    int32_t a = 0;
    std::string b{};
    std::vector<std::vector<float>> c{};
    static constexpr lib::Version save_version{1, 2, 3};
    static constexpr std::string_view serialization_schema = "vh_sub";
    lib::SaveTable save() const {
        return lib::SaveTable(serialization_schema, save_version, {SVS_LIST_SAVE(a), SVS_LIST_SAVE(b), SVS_LIST_SAVE(c)});
    }
    static Sub load(const lib::ContextFreeLoadTable& t) {
        return Sub{SVS_LOAD_MEMBER_AT(t, a), SVS_LOAD_MEMBER_AT(t, b), SVS_LOAD_MEMBER_AT(t, c)};
    }
    static lib::TryLoadResult<Sub> try_load(const lib::ContextFreeLoadTable& t) { return load(t); }
    static Sub gen(vh::Gen& g) {
        Sub s{gen_int<int32_t>(g), gen_text(g), {}};
        for (size_t i = g.raw(2); i > 0; --i) {
            s.c.emplace_back();
            for (size_t j = g.raw(2); j > 0; --j) {
                s.c.back().push_back(gen_float<float>(g));
            }
        }
        return s;
    }
    bool same(const Sub& o) const {
        bool eq = a == o.a && b == o.b && c.size() == o.c.size();
        for (size_t i = 0; eq && i < c.size(); ++i) {
            eq = c[i].size() == o.c[i].size();
            for (size_t j = 0; eq && j < c[i].size(); ++j) {
                eq = same_float(c[i][j], o.c[i][j]);
            }
        }
        return eq;
    }
};

constexpr svs::DataType TYPES[] = {
    svs::DataType::uint8, svs::DataType::uint16, svs::DataType::uint32, svs::DataType::uint64, svs::DataType::int8, svs::DataType::int16,
    svs::DataType::int32, svs::DataType::int64, svs::DataType::float16, svs::DataType::float32, svs::DataType::float64, svs::DataType::byte};

struct Rec {
    int8_t i8 = 0;
    uint8_t u8 = 0;
    int16_t i16 = 0;
    uint16_t u16 = 0;
    int32_t i32 = 0;
    uint32_t u32 = 0;
    int64_t i64 = 0;
    lib::FullUnsigned u64{0};
    float f32 = 0;
    double f64 = 0;
    bool flag = false;
    std::string text{};
    fs::path path{};
    svs::DataType type{};
    svs::DistanceType distance{};
    lib::UUID uuid{};
    lib::Percent percent{0.0};
    std::vector<int64_t> ints{};
    std::vector<double> reals{};
    std::vector<std::string> texts{};
    std::vector<uint8_t> bytes{};
    Sub sub{};
    std::vector<Sub> subs{};

    static constexpr lib::Version save_version{0, 7, 0};
    static constexpr std::string_view serialization_schema = "vh_rec";

#define ALL(X) \
    X(i8) X(u8) X(i16) X(u16) X(i32) X(u32) X(i64) X(u64) X(f32) X(f64) X(flag) X(text) X(path) X(type) X(distance) X(uuid) X(percent) X(ints) \
        X(reals) X(texts) X(bytes) X(sub) X(subs)

    lib::SaveTable save() const {
        auto t = lib::SaveTable(serialization_schema, save_version);
#define X(name) SVS_INSERT_SAVE(t, name);
        ALL(X)
#undef X
        return t;
    }
    static Rec load(const lib::ContextFreeLoadTable& t) {
        Rec r;
#define X(name) r.name = lib::load_at<std::decay_t<decltype(r.name)>>(t, #name);
        ALL(X)
#undef X
        return r;
    }
    static Rec gen(vh::Gen& g) {
        Rec r;
        r.i8 = gen_int<int8_t>(g);
        r.u8 = gen_int<uint8_t>(g);
        r.i16 = gen_int<int16_t>(g);
        r.u16 = gen_int<uint16_t>(g);
        r.i32 = gen_int<int32_t>(g);
        r.u32 = gen_int<uint32_t>(g);
        r.i64 = gen_int<int64_t>(g);
        r.u64 = lib::FullUnsigned(gen_int<uint64_t>(g));
        r.f32 = gen_float<float>(g);
        r.f64 = gen_float<double>(g);
        r.flag = g.flip();
        r.text = gen_text(g);
        r.path = gen_text(g, true);
        r.type = TYPES[g.raw(std::size(TYPES) - 1)];
        r.distance = g.pick<svs::DistanceType>({svs::DistanceType::L2, svs::DistanceType::MIP, svs::DistanceType::Cosine});
        std::array<uint8_t, 16> id;
        vh::Stream s(g.seed());
        for (auto& b : id) {
            b = uint8_t(s.next());
        }
        r.uuid = lib::UUID(id);
        r.percent = lib::Percent(double(g.raw(1u << 30)) / double(1u << 30));
        for (size_t i = g.raw(3); i > 0; --i) r.ints.push_back(gen_int<int64_t>(g));
        for (size_t i = g.raw(3); i > 0; --i) r.reals.push_back(gen_float<double>(g));
        for (size_t i = g.raw(3); i > 0; --i) r.texts.push_back(gen_text(g));
        for (size_t i = g.raw(3); i > 0; --i) r.bytes.push_back(gen_int<uint8_t>(g));
        r.sub = Sub::gen(g);
        for (size_t i = g.raw(2); i > 0; --i) r.subs.push_back(Sub::gen(g));
        return r;
    }
    void same(const Rec& o, const char* how) const {
        auto eq = [](const auto& a, const auto& b) {
            using T = std::decay_t<decltype(a)>;
            if constexpr (std::is_floating_point_v<T>) {
                return same_float(a, b);
            } else if constexpr (std::is_same_v<T, std::vector<double>>) {
                bool ok = a.size() == b.size();
                for (size_t i = 0; ok && i < a.size(); ++i) ok = same_float(a[i], b[i]);
                return ok;
            } else if constexpr (std::is_same_v<T, Sub>) {
                return a.same(b);
            } else if constexpr (std::is_same_v<T, std::vector<Sub>>) {
                bool ok = a.size() == b.size();
                for (size_t i = 0; ok && i < a.size(); ++i) ok = a[i].same(b[i]);
                return ok;
            } else if constexpr (std::is_same_v<T, lib::FullUnsigned>) {
                return a.value() == b.value();
            } else if constexpr (std::is_same_v<T, lib::Percent>) {
                return same_float(a.value(), b.value());
            } else {
                return a == b;
            }
        };
#define X(name) VH_REQUIRE(eq(name, o.name), "field {} changed ({})", #name, how);
        ALL(X)
#undef X
    }
};

// Save and load a context-free object in every way.
template <typename T, typename Same> void all_ways(vh::Gen& g, vh::Ctx& ctx, const T& x, Same&& same) {
    auto node = lib::save(x);
    same(lib::load<T>(lib::node_view(node)), "in memory");
    fs::path file = ctx.scratch + "/" + g.pick<std::string>({"object.toml", "x", "with space.toml"});
    lib::save_to_file(x, file);
    same(lib::load_from_file<T>(file), "in a file");
    fs::path dir = ctx.scratch + "/objdir";
    lib::save_to_disk(x, dir);
    same(lib::load_from_disk<T>(dir), "in a directory");
    if (g.flip()) {
        fs::path moved = ctx.scratch + "/moved dir";
        fs::rename(dir, moved);
        same(lib::load_from_disk<T>(moved), "in a moved directory");
        same(lib::load_from_disk<T>(moved / "svs_config.toml"), "from the configuration file");
        VH_REQUIRE(vh::throws([&] { (void)lib::load_from_disk<T>(dir); }), "loaded from a directory that is not there");
        fs::remove_all(moved);
    } else {
        // From within the directory.
        auto cwd = fs::current_path();
        fs::current_path(dir);
        std::string bad;
        try {
            same(lib::load_from_disk<T>("."), "from the current directory");
            same(lib::load_from_disk<T>("svs_config.toml"), "by a bare file name");
        } catch (...) {
            fs::current_path(cwd);
            throw;
        }
        fs::current_path(cwd);
    }
    // Written anew over the old one.
    lib::save_to_disk(x, dir);
    same(lib::load_from_disk<T>(dir), "written twice");
    fs::remove_all(dir);
    // A save that cannot complete is reported.
    size_t size = fs::file_size(file), limit = g.range(0, size - 1);
    {
        auto cap = FileLimit(limit);
        VH_REQUIRE(vh::throws([&] { lib::save_to_file(x, file); }), "saved an object of {} bytes where only {} can be written", size, limit);
    }
    VH_REQUIRE(vh::throws([&] { (void)lib::save_to_file(x, ctx.scratch + "/no/such/dir/file"); }), "saved into a directory that is not there");
    VH_REQUIRE(vh::throws([&] { (void)lib::save_to_disk(x, ctx.scratch + "/no/such/dir"); }), "saved into a directory whose parent is not there");
}

// A value of one type offered to a loader of another.
template <typename From, typename To> void retype(vh::Gen& g, vh::Ctx& ctx) {
    From x{};
    if constexpr (std::is_same_v<From, bool>) {
        x = g.flip();
    } else if constexpr (std::is_integral_v<From>) {
        x = gen_int<From>(g);
    } else if constexpr (std::is_floating_point_v<From>) {
        x = gen_float<From>(g);
    } else {
        x = gen_text(g);
    }
    ctx.describe("{} of {} bytes as {} of {} bytes", typeid(From).name(), sizeof(From), typeid(To).name(), sizeof(To));
    if constexpr (std::is_integral_v<From> && !std::is_same_v<From, bool>) {
        ctx.trace(" value {}", x);
        if (!std::in_range<int64_t>(x)) {
            ctx.label("refused on saving");
            VH_REQUIRE(vh::throws([&] { (void)lib::save(x); }), "{} was saved", x);
            return;
        }
    }
    auto node = lib::save(x);
    std::optional<To> y;
    try {
        y = lib::load<To>(lib::node_view(node));
    } catch (const std::exception&) {}
    constexpr bool ints = std::is_integral_v<From> && std::is_integral_v<To> && std::is_same_v<From, bool> == std::is_same_v<To, bool>;
    constexpr bool floats = std::is_floating_point_v<From> && std::is_floating_point_v<To>;
    if constexpr (ints) {
        if constexpr (std::is_same_v<From, bool>) {
            VH_REQUIRE(y && *y == x, "flag");
        } else {
            bool fits = std::in_range<To>(x);
            VH_REQUIRE(bool(y) == fits, "{} {}", x, y ? "was loaded" : "was refused");
            VH_REQUIRE(!y || std::cmp_equal(*y, x), "{} became {}", x, *y);
            ctx.label(fits ? "fits" : "refused on loading");
        }
    } else if constexpr (floats) {
        // Rounded to the nearest; a finite value does not become infinite.
        bool fits = !std::isfinite(x) || std::abs(double(x)) <= double(std::numeric_limits<To>::max());
        if (fits) {
            VH_REQUIRE(y && same_float(*y, To(x)), "{} became {}", x, y ? double(*y) : std::nan(""));
        } else {
            // Values that round to the largest float may go either way.
            VH_REQUIRE(!y || std::isfinite(*y), "{} became {}", x, *y);
        }
        ctx.label(fits ? "fits" : "refused on loading");
    } else if constexpr (std::is_same_v<From, std::string> && std::is_same_v<To, fs::path>) {
        VH_REQUIRE(y && y->native() == x, "text as a path");
    } else {
        ctx.label("another kind");
        VH_REQUIRE(!y, "loaded as another kind of value");
    }
    ctx.interesting();
}

vam::VamanaBuildParameters gen_build(vh::Gen& g) {
    auto n = [&] { return size_t(g.raw(1) ? g.raw(1000) : g.raw(INT64_MAX)); };
    return vam::VamanaBuildParameters(gen_float<float>(g), n(), n(), n(), n(), g.flip());
}
vam::VamanaSearchParameters gen_search(vh::Gen& g) {
    size_t w = g.raw(1000);
    return vam::VamanaSearchParameters(vam::SearchBufferConfig(w, w + g.raw(1000)), g.flip(), g.raw(100), g.raw(100));
}
bool same_build(const vam::VamanaBuildParameters& a, const vam::VamanaBuildParameters& b) {
    auto c = b;
    if (same_float(a.alpha, b.alpha)) {
        c.alpha = 0;
    }
    auto d = a;
    d.alpha = 0;
    return c == d;
}
inv::ClusteringParameters gen_clustering(vh::Gen& g) {
    auto n = [&] { return size_t(g.raw(1) ? g.raw(1000) : g.raw(INT64_MAX)); };
    auto f = [&] { return double(g.raw(100000)) / 777; };
    return inv::ClusteringParameters(
        lib::Percent(double(g.raw(1000)) / 1000), f(), n(), n(), gen_int<uint64_t>(g), n(), n(), n(), float(f())
    );
}
} // namespace

VH_CASES("values of every kind", 4) {
    auto r = Rec::gen(g);
    std::ostringstream os;
    os << lib::save(r);
    ctx.describe("{}", os.str());
    ctx.interesting(!r.text.empty() && !r.subs.empty());
    all_ways(g, ctx, r, [&](const Rec& o, const char* how) { r.same(o, how); });
}

VH_CASES("one value", 2) {
    // Values saved directly, without an enclosing class.
    ctx.interesting();
    switch (g.raw(4)) {
        case 0: {
            auto x = gen_text(g);
            ctx.describe("text");
            return all_ways(g, ctx, x, [&](const std::string& o, const char* how) { VH_REQUIRE(o == x, "text changed ({})", how); });
        }
        case 1: {
            auto x = gen_float<double>(g);
            ctx.describe("number {}", x);
            return all_ways(g, ctx, x, [&](double o, const char* how) { VH_REQUIRE(same_float(o, x), "{} became {} ({})", x, o, how); });
        }
        case 2: {
            auto x = gen_int<int64_t>(g);
            ctx.describe("integer {}", x);
            return all_ways(g, ctx, x, [&](int64_t o, const char* how) { VH_REQUIRE(o == x, "{} became {} ({})", x, o, how); });
        }
        case 3: {
            std::vector<uint32_t> x;
            for (size_t i = g.raw(20); i > 0; --i) x.push_back(gen_int<uint32_t>(g));
            ctx.describe("{}", vh::show(x, 20));
            return all_ways(g, ctx, x, [&](const std::vector<uint32_t>& o, const char* how) { VH_REQUIRE(o == x, "list changed ({})", how); });
        }
        default: {
            std::vector<std::string> x;
            for (size_t i = g.raw(8); i > 0; --i) x.push_back(gen_text(g));
            ctx.describe("{} texts", x.size());
            return all_ways(g, ctx, x, [&](const std::vector<std::string>& o, const char* how) { VH_REQUIRE(o == x, "list changed ({})", how); });
        }
    }
}

VH_CASES("values loaded as another type", 2) {
    switch (g.raw(16)) {
        case 0: return retype<int64_t, int8_t>(g, ctx);
        case 1: return retype<int64_t, uint8_t>(g, ctx);
        case 2: return retype<int64_t, uint64_t>(g, ctx);
        case 3: return retype<uint64_t, int32_t>(g, ctx);
        case 4: return retype<uint64_t, uint64_t>(g, ctx);
        case 5: return retype<int32_t, uint16_t>(g, ctx);
        case 6: return retype<uint32_t, int32_t>(g, ctx);
        case 7: return retype<double, float>(g, ctx);
        case 8: return retype<float, double>(g, ctx);
        case 9: return retype<double, int64_t>(g, ctx);
        case 10: return retype<int64_t, std::string>(g, ctx);
        case 11: return retype<std::string, int64_t>(g, ctx);
        case 12: return retype<bool, bool>(g, ctx);
        case 13: return retype<std::string, fs::path>(g, ctx);
        case 14: return retype<std::string, double>(g, ctx);
        case 15: return retype<bool, int64_t>(g, ctx);
        default: return retype<int64_t, bool>(g, ctx);
    }
}

VH_CASES("parameter sets", 3) {
    ctx.interesting();
    switch (g.raw(6)) {
        case 0: {
            auto p = gen_build(g);
            ctx.describe("build parameters alpha={} {} {} {} {}", p.alpha, p.graph_max_degree, p.window_size, p.max_candidate_pool_size, p.prune_to);
            return all_ways(g, ctx, p, [&](const auto& o, const char* how) { VH_REQUIRE(same_build(p, o), "parameters changed ({})", how); });
        }
        case 1: {
            auto p = gen_search(g);
            ctx.describe("search parameters");
            return all_ways(g, ctx, p, [&](const auto& o, const char* how) { VH_REQUIRE(o == p, "parameters changed ({})", how); });
        }
        case 2: {
            auto p = vam::VamanaIndexParameters(g.raw(INT64_MAX), gen_build(g), gen_search(g));
            ctx.describe("index parameters");
            return all_ways(g, ctx, p, [&](const auto& o, const char* how) {
                VH_REQUIRE(o.entry_point == p.entry_point && same_build(p.build_parameters, o.build_parameters) && o.search_parameters == p.search_parameters, "parameters changed ({})", how);
            });
        }
        case 3: {
            auto p = gen_clustering(g);
            ctx.describe("clustering parameters seed={}", p.seed_);
            return all_ways(g, ctx, p, [&](const auto& o, const char* how) { VH_REQUIRE(o == p, "parameters changed ({})", how); });
        }
        case 4: {
            auto p = inv::InvertedSearchParameters(gen_search(g), double(g.raw(1000)) / 7);
            ctx.describe("inverted search parameters");
            return all_ways(g, ctx, p, [&](const auto& o, const char* how) { VH_REQUIRE(o == p, "parameters changed ({})", how); });
        }
        case 5: {
            auto b = gen_build(g);
            b.alpha = float(g.raw(100)) / 64;
            auto p = inv::InvertedBuildParameters(gen_clustering(g), b);
            ctx.describe("inverted build parameters");
            return all_ways(g, ctx, p, [&](const auto& o, const char* how) { VH_REQUIRE(o == p, "parameters changed ({})", how); });
        }
        default: {
            ctx.describe("distance functions");
            auto go = [&](auto d, auto other, auto third) {
                using D = decltype(d);
                auto node = lib::save(d);
                (void)lib::load<D>(lib::node_view(node));
                VH_REQUIRE(vh::throws([&] { (void)lib::load<decltype(other)>(lib::node_view(node)); }), "a distance was loaded as another");
                VH_REQUIRE(vh::throws([&] { (void)lib::load<decltype(third)>(lib::node_view(node)); }), "a distance was loaded as another");
            };
            svs::DistanceL2 a;
            svs::DistanceIP b;
            svs::DistanceCosineSimilarity c;
            switch (g.raw(2)) {
                case 0: return go(a, b, c);
                case 1: return go(b, c, a);
                default: return go(c, a, b);
            }
        }
    }
}

VH_CASES("older versions", 2) {
    // Tables as written by earlier versions of the library.
    ctx.interesting();
    auto n = [&] { return int64_t(g.raw(1000)); };
    auto num = [&](int64_t x) { return toml::value<int64_t>(x); };
    switch (g.raw(2)) {
        case 0: {
            // Index parameters 0.0.0 to 0.0.2.
            int minor = int(g.raw(2));
            int64_t degree = n(), entry = n(), cand = n(), cw = n(), sw = n(), prune = n();
            bool vis = g.flip(), full = g.flip(), has_full = minor >= 1, has_prune = minor >= 2;
            double alpha = double(g.raw(100)) / 64;
            ctx.describe("index parameters of version 0.0.{}", minor);
            auto t = toml::table{
                {"__schema__", "vamana_index_parameters"}, {"__version__", fmt::format("v0.0.{}", minor)}, {"name", "vamana config parameters"},
                {"entry_point", num(entry)}, {"max_out_degree", num(degree)}, {"construction_window_size", num(cw)}, {"max_candidates", num(cand)},
                {"default_search_window_size", num(sw)}, {"visited_set", vis}, {"alpha", alpha}};
            if (has_full) t.insert("use_full_search_history", full);
            if (has_prune) t.insert("prune_to", num(prune));
            auto p = lib::load<vam::VamanaIndexParameters>(lib::node_view(t));
            auto& b = p.build_parameters;
            VH_REQUIRE(p.entry_point == size_t(entry) && b.alpha == float(alpha) && b.graph_max_degree == size_t(degree) && b.window_size == size_t(cw) && b.max_candidate_pool_size == size_t(cand), "parameters changed");
            VH_REQUIRE(b.prune_to == size_t(has_prune ? prune : degree), "prune_to is {}", b.prune_to);
            VH_REQUIRE(b.use_full_search_history == (has_full ? full : true), "use_full_search_history");
            auto& s = p.search_parameters;
            VH_REQUIRE(s.buffer_config_ == vam::SearchBufferConfig(size_t(sw)) && s.search_buffer_visited_set_ == vis, "search parameters");
            // What is missing or of the wrong kind is reported.
            auto key = g.pick<std::string>({"entry_point", "max_out_degree", "construction_window_size", "max_candidates", "default_search_window_size", "visited_set", "alpha", "name", "__version__", "__schema__"});
            auto cut = t;
            cut.erase(key);
            VH_REQUIRE(vh::throws([&] { (void)lib::load<vam::VamanaIndexParameters>(lib::node_view(cut)); }), "loaded without {}", key);
            return;
        }
        case 1: {
            int minor = int(g.raw(1));
            int64_t degree = n(), w = n(), cand = n(), prune = n();
            bool full = g.flip();
            ctx.describe("build parameters of version 0.0.{}", minor);
            auto t = toml::table{
                {"__schema__", "vamana_build_parameters"}, {"__version__", fmt::format("v0.0.{}", minor)}, {"name", "vamana build parameters"},
                {"graph_max_degree", num(degree)}, {"window_size", num(w)}, {"max_candidate_pool_size", num(cand)}, {"use_full_search_history", full}, {"alpha", 1.5}};
            if (minor >= 1) t.insert("prune_to", num(prune));
            auto b = lib::load<vam::VamanaBuildParameters>(lib::node_view(t));
            VH_REQUIRE(b == vam::VamanaBuildParameters(1.5f, size_t(degree), size_t(w), size_t(cand), size_t(minor ? prune : degree), full), "parameters changed");
            return;
        }
        default: {
            int minor = int(g.raw(1));
            int64_t w = n(), cap = w + n(), la = n(), st = n();
            bool vis = g.flip();
            ctx.describe("search parameters of version 0.0.{}", minor);
            auto t = toml::table{
                {"__schema__", "vamana_search_parameters"}, {"__version__", fmt::format("v0.0.{}", minor)}, {"search_window_size", num(w)},
                {"search_buffer_capacity", num(cap)}, {"search_buffer_visited_set", vis}};
            if (minor >= 1) {
                t.insert("prefetch_lookahead", num(la));
                t.insert("prefetch_step", num(st));
            }
            auto p = lib::load<vam::VamanaSearchParameters>(lib::node_view(t));
            VH_REQUIRE(p.buffer_config_ == vam::SearchBufferConfig(size_t(w), size_t(cap)) && p.search_buffer_visited_set_ == vis, "parameters changed");
            VH_REQUIRE(minor == 0 || (p.prefetch_lookahead_ == size_t(la) && p.prefetch_step_ == size_t(st)), "prefetch parameters");
            return;
        }
    }
}

VH_CASES("foreign schemas and versions", 1) {
    auto s = Sub::gen(g);
    auto node = lib::save(s);
    bool wrong_schema = g.flip();
    ctx.describe("{}", wrong_schema ? "another schema" : "another version");
    ctx.interesting();
    if (wrong_schema) {
        node.insert_or_assign("__schema__", g.pick<std::string>({"vh_su", "vh_sub2", "", "VH_SUB", "vh_rec"}));
    } else {
        node.insert_or_assign("__version__", fmt::format("v{}.{}.{}", g.raw(2), g.raw(2) + 3, g.raw(4)));
    }
    VH_REQUIRE(vh::throws([&] { (void)lib::load<Sub>(lib::node_view(node)); }), "loaded from another schema or version");
    auto r = lib::try_load<Sub>(lib::node_view(node));
    VH_REQUIRE(!r, "try_load accepts another schema or version");
    auto fine = lib::save(s);
    auto ok = lib::try_load<Sub>(lib::node_view(fine));
    VH_REQUIRE(ok && ok->same(s), "try_load refuses its own schema");
    auto outer = toml::table{{"inner", fine}};
    outer.insert("__schema__", "x");
    outer.insert("__version__", "v0.0.0");
    auto at = lib::try_load_at<Sub>(lib::node_view(outer), "inner");
    VH_REQUIRE(at && at->same(s), "try_load_at");
    VH_REQUIRE(!lib::try_load_at<Sub>(lib::node_view(outer), "absent"), "try_load_at of an absent key");
}
