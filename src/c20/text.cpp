// C20: textual forms parse back, anything else is refused.
#include "vh.hpp"
#include "svs/core/data/io.h"
#include "svs/core/distance.h"
#include "svs/core/io/native.h"
#include "svs/core/logging.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/lib/datatype.h"
#include "svs/lib/saveload.h"
#include "svs/lib/uuid.h"
#include "svs/lib/version.h"

#include <algorithm>
#include <cctype>
#include <set>

namespace {
using namespace svs;

// A random change to a text (may leave it as it was).
std::string mutate(vh::Gen& g, std::string s, const std::vector<std::string>& family) {
    size_t times = g.skew(1, 4);
    for (size_t t = 0; t < times; ++t) {
        static const char specials[] = " \t\n\0-+.v0129aAfFgG{}x_:/";
        char c = g.chance(1, 4) ? char(g.raw(255)) : specials[g.raw(sizeof(specials) - 2)];
        size_t at = s.empty() ? 0 : g.raw(s.size());
        switch (g.raw(8)) {
            case 0: s.insert(s.begin() + at, c); break;
            case 1: if (at < s.size()) { s.erase(at, 1); } break;
            case 2: if (at < s.size()) { s[at] = c; } break;
            case 3: if (at < s.size()) { s[at] = std::isupper((unsigned char)s[at]) ? std::tolower(s[at]) : std::toupper(s[at]); } break;
            case 4: s = s.substr(0, at); break;
            case 5: s = s.substr(at); break;
            case 6: s += family[g.raw(family.size() - 1)]; break;
            case 7: s.push_back(c); break;
            default: if (s.size() >= 2) { std::swap(s[g.raw(s.size() - 1)], s[g.raw(s.size() - 1)]); } break;
        }
    }
    return s;
}

std::string shown(const std::string& s) {
    std::string out = "\"";
    for (unsigned char c : s) {
        if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            out += b;
        } else {
            out += char(c);
        }
    }
    return out + "\"";
}

std::string lower(std::string s) {
    for (auto& c : s) {
        c = std::tolower((unsigned char)c);
    }
    return s;
}

///// UUID
bool uuid_form(const std::string& s) {
    if (s.size() != 36) {
        return false;
    }
    for (size_t i = 0; i < 36; ++i) {
        bool hyphen = i == 8 || i == 13 || i == 18 || i == 23;
        if (hyphen ? s[i] != '-' : !((s[i] >= '0' && s[i] <= '9') || (s[i] >= 'a' && s[i] <= 'f') || (s[i] >= 'A' && s[i] <= 'F'))) {
            return false;
        }
    }
    return true;
}

void uuid_case(vh::Gen& g, vh::Ctx& ctx) {
    std::array<uint8_t, 16> raw;
    vh::Stream st(g.seed());
    size_t kind = g.raw(3);
    for (auto& b : raw) {
        b = kind == 0 ? 0 : kind == 1 ? "\x00\x01\x0f\x10\x9f\xa0\x7f\x80\xfe\xff"[st.below(10)] : uint8_t(st.next());
    }
    if (kind == 0) {
        raw[g.raw(15)] = uint8_t(g.raw(255));
    }
    lib::UUID u = raw;
    if (g.chance(1, 4)) {
        u = lib::UUID();
        raw = u.raw();
        std::string s = u.str();
        VH_REQUIRE(s.size() == 36 && s[14] == '4', "a random UUID is not of version 4: {}", s);
        VH_REQUIRE(s[19] == '8' || s[19] == '9' || s[19] == 'a' || s[19] == 'b', "a random UUID is not of variant 1: {}", s);
        VH_REQUIRE(!(lib::UUID() == u), "two random UUIDs are equal: {}", s);
        ctx.label("random UUID");
    }
    std::string text = u.str();
    ctx.describe("UUID {}", text);
    ctx.interesting(kind != 0);
    VH_REQUIRE(uuid_form(text), "UUID formatted as {}", shown(text));
    VH_REQUIRE(lib::UUID(std::string_view(text)) == u, "{} parses to another UUID: {}", text, lib::UUID(std::string_view(text)).str());
    VH_REQUIRE(lib::UUID(std::string_view(text)).raw() == raw, "{} parses to other bytes", text);
    std::string mixed = text;
    for (auto& c : mixed) {
        if (g.flip()) {
            c = std::toupper((unsigned char)c);
        }
    }
    VH_REQUIRE(lib::UUID(std::string_view(mixed)) == u, "{} and {} differ", mixed, text);
    // Distinct values format differently and are unequal.
    auto other = raw;
    other[g.raw(15)] ^= uint8_t(1 + g.raw(254));
    VH_REQUIRE(!(lib::UUID(other) == u), "UUIDs of different bytes are equal: {}", text);
    VH_REQUIRE(lib::UUID(other).str() != text, "UUIDs of different bytes have the same text {}", text);
    VH_REQUIRE((u == lib::ZeroUUID) == (raw == std::array<uint8_t, 16>{}), "comparison of {} with the zero UUID", text);
    // Save and load as part of a table.
    for (size_t i = 0; i < 6; ++i) {
        std::string m = mutate(g, g.flip() ? mixed : text, {text, "-", "0", "}"});
        ctx.trace("parse {}", shown(m));
        std::string what;
        bool threw = false;
        lib::UUID v = lib::ZeroUUID;
        try {
            v = lib::UUID(std::string_view(m));
        } catch (const ANNException&) {
            threw = true;
        }
        if (uuid_form(m)) {
            VH_REQUIRE(!threw, "{} is refused", shown(m));
            VH_REQUIRE(v.str() == lower(m), "{} parses to {}", shown(m), v.str());
            ctx.label("mutant still a UUID");
        } else {
            VH_REQUIRE(threw, "{} is accepted as UUID {}", shown(m), v.str());
        }
    }
}

///// Versions
// nullopt: refused; otherwise the value. `doubt` is set for the forms the documentation leaves open.
struct VersionForm {
    bool ok = false, doubt = false;
    size_t part[3];
};
VersionForm version_form(const std::string& s) {
    VersionForm f;
    if (s.empty() || s[0] != 'v') {
        return f;
    }
    size_t i = 1;
    for (size_t p = 0; p < 3; ++p) {
        size_t start = i;
        unsigned __int128 v = 0;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
            v = v * 10 + (s[i] - '0');
            if (v > std::numeric_limits<size_t>::max()) {
                return f;
            }
            ++i;
        }
        if (i == start) {
            return f;
        }
        if (i > start + 1 && s[start] == '0') {
            f.doubt = true;
        }
        f.part[p] = size_t(v);
        if (p < 2) {
            if (i >= s.size() || s[i] != '.') {
                return f;
            }
            ++i;
        }
    }
    f.ok = i == s.size();
    return f;
}

size_t part(vh::Gen& g) {
    switch (g.raw(4)) {
        case 0: return g.raw(3);
        case 1: return g.raw(30);
        case 2: return g.raw(1000000);
        case 3: return std::numeric_limits<size_t>::max() - g.raw(3);
        default: return g.seed();
    }
}

void version_case(vh::Gen& g, vh::Ctx& ctx) {
    size_t a[3], b[3];
    for (auto& x : a) {
        x = part(g);
    }
    for (size_t i = 0; i < 3; ++i) {
        b[i] = g.chance(2, 3) ? a[i] + (a[i] < 100 ? g.raw(1) : 0) : part(g);
    }
    lib::Version x(a[0], a[1], a[2]), y(b[0], b[1], b[2]);
    std::string text = x.str();
    ctx.describe("versions {} and {}", text, y.str());
    ctx.interesting(a[0] + a[1] + a[2] > 0);
    VH_REQUIRE(text == "v" + std::to_string(a[0]) + "." + std::to_string(a[1]) + "." + std::to_string(a[2]), "formatted as {}", text);
    VH_REQUIRE(lib::Version(std::string_view(text)) == x, "{} parses to {}", text, lib::Version(std::string_view(text)).str());
    int order = 0;
    for (size_t i = 0; i < 3 && order == 0; ++i) {
        order = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0;
    }
    VH_REQUIRE((x < y) == (order < 0), "{} < {} is {}", text, y.str(), x < y);
    VH_REQUIRE((x > y) == (order > 0), "{} > {} is {}", text, y.str(), x > y);
    VH_REQUIRE((x <= y) == (order <= 0), "{} <= {} is {}", text, y.str(), x <= y);
    VH_REQUIRE((x >= y) == (order >= 0), "{} >= {} is {}", text, y.str(), x >= y);
    VH_REQUIRE((x == y) == (order == 0), "{} == {} is {}", text, y.str(), x == y);
    VH_REQUIRE((x != y) == (order != 0), "{} != {} is {}", text, y.str(), x != y);
    for (size_t i = 0; i < 6; ++i) {
        std::string m = mutate(g, g.flip() ? text : "v" + std::to_string(g.raw(20)) + "." + std::to_string(g.raw(9)) + "." + std::to_string(g.raw(9)), {text, ".0", "v", "00000000000000000000", "99999999999999999999"});
        ctx.trace("parse {}", shown(m));
        auto form = version_form(m);
        bool threw = false;
        lib::Version v(0, 0, 0);
        try {
            v = lib::Version(std::string_view(m));
        } catch (const ANNException&) {
            threw = true;
        }
        if (!form.ok) {
            VH_REQUIRE(threw, "{} is accepted as version {}", shown(m), v.str());
        } else if (!threw) {
            VH_REQUIRE(v == lib::Version(form.part[0], form.part[1], form.part[2]), "{} parses to {}", shown(m), v.str());
            ctx.label("mutant still a version");
        } else {
            VH_REQUIRE(form.doubt, "{} is refused", shown(m));
        }
    }
}

///// Names
struct Names {
    std::string kind;
    std::vector<std::string> names;
    // Name of what the text parses to; "" when refused.
    std::function<std::string(std::string_view)> parse;
    std::string unknown; // what unknown text gives
};

template <typename F> std::string attempt(F&& f) {
    try {
        return std::string(f());
    } catch (const ANNException&) {
        return "";
    }
}

const std::vector<Names>& families() {
    static const std::vector<Names> all = [] {
        std::vector<Names> v;
        v.push_back({"element type", {"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float16", "float32", "float64", "byte", "undef"},
                     [](std::string_view s) { return attempt([&] { return name(parse_datatype(s)); }); }, "undef"});
        v.push_back({"distance", {"L2", "MIP", "Cosine"}, [](std::string_view s) { return attempt([&] { return name(parse_distance_type(s)); }); }, ""});
        v.push_back({"file schema", {"Vtest", "V1", "Database"}, [](std::string_view s) { return attempt([&] { return io::name(io::parse_schema(s)); }); }, ""});
        return v;
    }();
    return all;
}

void names_case(vh::Gen& g, vh::Ctx& ctx) {
    const auto& f = families()[g.raw(families().size() - 1)];
    std::string base = f.names[g.raw(f.names.size() - 1)];
    ctx.describe("{} {}", f.kind, base);
    VH_REQUIRE(f.parse(base) == base, "{} {} parses to {}", f.kind, base, f.parse(base));
    bool changed = false;
    for (size_t i = 0; i < 8; ++i) {
        std::string m = mutate(g, base, f.names);
        ctx.trace("parse {}", shown(m));
        bool known = std::find(f.names.begin(), f.names.end(), m) != f.names.end();
        std::string got = f.parse(m);
        if (known) {
            VH_REQUIRE(got == m, "{} {} parses to {}", f.kind, shown(m), shown(got));
        } else {
            changed = true;
            VH_REQUIRE(got == f.unknown, "{} {} is accepted as {}", f.kind, shown(m), shown(got));
        }
    }
    ctx.interesting(changed);
}

// Properties of whole enumerations.
template <typename T> void datatype_of(DataType type, const char* text, bool is_signed_int, bool is_unsigned_int, bool is_float) {
    (void)is_signed_int;
    (void)is_unsigned_int;
    (void)is_float;
    VH_REQUIRE(datatype_v<T> == type, "{}: wrong element type", text);
    VH_REQUIRE(name(type) == text, "{} is named {}", text, name(type));
    VH_REQUIRE(parse_datatype(text) == type, "{} parses to {}", text, name(parse_datatype(text)));
    VH_REQUIRE(element_size(type) == sizeof(T), "{}: element size {}", text, element_size(type));
}

void tables_case(vh::Gen& g, vh::Ctx& ctx) {
    ctx.describe("enumerations");
    datatype_of<uint8_t>(DataType::uint8, "uint8", 0, 1, 0);
    datatype_of<uint16_t>(DataType::uint16, "uint16", 0, 1, 0);
    datatype_of<uint32_t>(DataType::uint32, "uint32", 0, 1, 0);
    datatype_of<uint64_t>(DataType::uint64, "uint64", 0, 1, 0);
    datatype_of<int8_t>(DataType::int8, "int8", 1, 0, 0);
    datatype_of<int16_t>(DataType::int16, "int16", 1, 0, 0);
    datatype_of<int32_t>(DataType::int32, "int32", 1, 0, 0);
    datatype_of<int64_t>(DataType::int64, "int64", 1, 0, 0);
    datatype_of<Float16>(DataType::float16, "float16", 0, 0, 1);
    datatype_of<float>(DataType::float32, "float32", 0, 0, 1);
    datatype_of<double>(DataType::float64, "float64", 0, 0, 1);
    datatype_of<std::byte>(DataType::byte, "byte", 0, 0, 0);
    VH_REQUIRE(element_size(DataType::undef) == 0, "size of undef");
    VH_REQUIRE(name(distance_type_v<distance::DistanceL2>) == "L2" && name(distance_type_v<distance::DistanceIP>) == "MIP" && name(distance_type_v<distance::DistanceCosineSimilarity>) == "Cosine", "distance functor names");
    using index::vamana::SlotMetadata;
    std::set<std::string> slots;
    for (auto s : {SlotMetadata::Empty, SlotMetadata::Valid, SlotMetadata::Deleted}) {
        slots.insert(std::string(index::vamana::name(s)));
    }
    VH_REQUIRE(slots == (std::set<std::string>{"Empty", "Valid", "Deleted"}), "names of slot states");
    // Lists of element types in words.
    size_t n = g.raw(6);
    std::vector<DataType> types;
    std::vector<std::string> words;
    for (size_t i = 0; i < n; ++i) {
        types.push_back(DataType(g.raw(size_t(DataType::undef))));
        words.push_back(std::string(name(types.back())));
    }
    std::string want;
    for (size_t i = 0; i < n; ++i) {
        want += (i == 0 ? "" : i + 1 < n ? ", " : n == 2 ? " and " : ", and ") + words[i];
    }
    VH_REQUIRE(lib::format(types) == want, "list formatted as {} instead of {}", lib::format(types), want);
    ctx.interesting(n > 1);
}

// Verbosity levels and log sinks, read from the environment.
void logging_case(vh::Gen& g, vh::Ctx& ctx) {
    using logging::Level;
    static const std::vector<std::pair<std::string, Level>> levels = {
        {"trace", Level::Trace}, {"debug", Level::Debug}, {"info", Level::Info}, {"warn", Level::Warn}, {"warning", Level::Warn},
        {"error", Level::Error}, {"critical", Level::Critical}, {"off", Level::Off}};
    auto [text, level] = levels[g.raw(levels.size() - 1)];
    for (auto& c : text) {
        if (g.flip()) {
            c = std::toupper((unsigned char)c);
        }
    }
    ctx.describe("logging level {}", text);
    ctx.interesting(true);
    VH_REQUIRE(logging::detail::level_from_string(text) == level, "{} parses to level {}", text, int(logging::detail::level_from_string(text)));
    ::setenv("SVS_LOG_LEVEL", text.c_str(), 1);
    auto got = logging::detail::get_level_from_environment();
    ::unsetenv("SVS_LOG_LEVEL");
    VH_REQUIRE(got == level, "{} in the environment gives level {}", text, int(got));
    VH_REQUIRE(logging::detail::get_level_from_environment() == Level::Warn, "default level");
    for (auto l : logging::all_levels) {
        VH_REQUIRE(logging::detail::from_spdlog(logging::detail::to_spdlog(l)) == l, "level {}", int(l));
    }
    if (g.chance(1, 8)) {
        std::string longer(1001 + g.raw(100), 'x');
        ::setenv("SVS_LOG_LEVEL", longer.c_str(), 1);
        bool threw = vh::throws([&] { logging::detail::get_level_from_environment(); });
        ::unsetenv("SVS_LOG_LEVEL");
        VH_REQUIRE(threw, "a level of {} characters is accepted", longer.size());
    }
    // Sinks
    static const std::vector<std::string> sinks = {"null", "none", "stdout", "stderr"};
    std::string sink = g.chance(1, 3) ? mutate(g, sinks[g.raw(3)], sinks) : sinks[g.raw(3)];
    sink = sink.c_str(); // no embedded zero in the environment
    for (auto& c : sink) {
        if (g.chance(1, 4)) {
            c = std::toupper((unsigned char)c);
        }
    }
    if (lower(sink).starts_with("file:")) {
        return;
    }
    ctx.trace("sink {}", shown(sink));
    ::setenv("SVS_LOG_SINK", sink.c_str(), 1);
    std::string kind;
    try {
        auto ptr = logging::detail::get_sink_from_environment();
        auto* p = ptr.get();
        kind = dynamic_cast<spdlog::sinks::null_sink_mt*>(p) ? "null" : dynamic_cast<spdlog::sinks::stdout_sink_mt*>(p) ? "stdout" : dynamic_cast<spdlog::sinks::stderr_sink_mt*>(p) ? "stderr" : "other";
    } catch (const ANNException&) {
        kind = "refused";
    }
    ::unsetenv("SVS_LOG_SINK");
    std::string low = lower(sink);
    std::string want = low == "null" || low == "none" ? "null" : low == "stdout" || low.empty() ? "stdout" : low == "stderr" ? "stderr" : "stdout"; // the default for all else
    VH_REQUIRE(kind == want, "sink {} is {} instead of {}", shown(sink), kind, want);
    if (g.chance(1, 8)) {
        std::string file = ctx.scratch + "/Log_" + (g.flip() ? "A" : "b") + ".TXT";
        std::string setting = (g.flip() ? "file:" : "File:") + file;
        ::setenv("SVS_LOG_SINK", setting.c_str(), 1);
        logging::sink_ptr ptr;
        std::string what;
        bool threw = vh::throws([&] { ptr = logging::detail::get_sink_from_environment(); }, &what);
        ::unsetenv("SVS_LOG_SINK");
        VH_REQUIRE(!threw, "sink {} is refused: {}", setting, what);
        VH_REQUIRE(std::filesystem::exists(file), "sink {} made no such file", setting);
        ctx.label("file sink");
    }
}

// Names of files decide how they are read.
void files_case(vh::Gen& g, vh::Ctx& ctx) {
    static const std::vector<std::string> stems = {"", "a", "x/y", "data.", "svs_", "tomb", "a.b"};
    static const std::vector<std::string> ends = {".svs", ".fvecs", ".ivecs", ".hvecs", ".bvecs", ".fbin", ".u8bin", ".bin", ".toml", ".txt", "", ".SVS", ".svsx", ".tom"};
    std::string path = stems[g.raw(stems.size() - 1)] + ends[g.raw(ends.size() - 1)];
    ctx.describe("path {}", path);
    ctx.interesting(!path.empty());
    auto ends_in = [&](const std::string& e) { return path.size() >= e.size() && path.compare(path.size() - e.size(), e.size(), e) == 0; };
    bool special = ends_in("svs") || ends_in("vecs") || ends_in("bin");
    VH_REQUIRE(io::special_by_file_extension(path) == special, "{} is {}recognised as a vector file", path, special ? "not " : "");
    bool config = std::filesystem::path(path).extension() == ".toml";
    VH_REQUIRE(config_file_by_extension(path) == config, "{} is {}recognised as a configuration file", path, config ? "not " : "");
    // Hexadecimal digits
    char c = char(g.raw(255));
    const std::string digits = "0123456789abcdef";
    auto at = digits.find(char(std::tolower((unsigned char)c)));
    if (c != 0 && at != std::string::npos) {
        VH_REQUIRE(lib::ascii_hex_to_byte(c) == at, "digit {}", c);
    } else {
        VH_REQUIRE(vh::throws([&] { (void)lib::ascii_hex_to_byte(c); }), "character {} is accepted as a digit", int(c));
    }
    uint8_t byte = uint8_t(g.raw(255));
    auto [hi, lo] = lib::byte_to_ascii_hex(byte);
    VH_REQUIRE(hi == digits[byte >> 4] && lo == digits[byte & 15], "byte {} formatted as {}{}", byte, hi, lo);
    VH_REQUIRE(lib::ascii_octet_to_byte(hi, lo) == byte, "byte {} parses to {}", byte, lib::ascii_octet_to_byte(hi, lo));
    // Integers
    std::string num = g.flip() ? std::to_string(int64_t(g.seed())) : std::to_string(int(g.raw(400)) - 200);
    std::string m = g.flip() ? num : mutate(g, num, {"1", "0", "-"});
    bool form = !m.empty();
    size_t start = !m.empty() && m[0] == '-' ? 1 : 0;
    form = m.size() > start;
    for (size_t i = start; i < m.size(); ++i) {
        form = form && m[i] >= '0' && m[i] <= '9';
    }
    auto check = [&]<typename T>(T) {
        bool fits = form;
        __int128 v = 0;
        if (form) {
            for (size_t i = start; i < m.size() && v < (__int128(1) << 100); ++i) {
                v = v * 10 + (m[i] - '0');
            }
            v = start ? -v : v;
            fits = v >= __int128(std::numeric_limits<T>::min()) && v <= __int128(std::numeric_limits<T>::max());
            if (start && !std::is_signed_v<T>) {
                fits = false;
            }
        }
        T got{};
        bool threw = vh::throws([&] { got = lib::parse_int<T>(m); });
        VH_REQUIRE(threw == !fits, "{} is {} as an integer of {} bytes", shown(m), threw ? "refused" : "accepted", sizeof(T));
        VH_REQUIRE(threw || __int128(got) == v, "{} parses to {}", shown(m), got);
    };
    check(int8_t{});
    check(uint8_t{});
    check(int32_t{});
    check(size_t{});
    check(int64_t{});
}

vh::Register r1{"UUID", 5, uuid_case};
vh::Register r2{"version", 6, version_case};
vh::Register r3{"names", 4, names_case};
vh::Register r4{"enumerations", 1, tables_case};
vh::Register r5{"logging", 2, logging_case};
vh::Register r6{"files, digits and integers", 4, files_case};
} // namespace
