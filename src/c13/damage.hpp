// C13: damaged files are refused or give well-formed objects.
#pragma once
// The parser of toml++ (not part of the repository) asserts on some malformed headers that it refuses
// without assertions.
#define TOML_ASSERT(expr) static_cast<void>(0)
#include "../c11/common.hpp"
#include "svs/core/io.h"
#include "svs/third-party/toml.h"

#include <map>
#include <optional>
#include <sstream>

extern "C" size_t vh_mmap_largest; // mmap_watch.cpp

namespace c13 {
using namespace c11;
using Bytes = std::string;

inline Bytes slurp(const fs::path& p) {
    std::ifstream f(p, std::ios::binary);
    return Bytes(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
inline void spit(const fs::path& p, const Bytes& b) {
    std::ofstream f(p, std::ios::binary);
    f.write(b.data(), std::streamsize(b.size()));
}

// The files below a directory, to damage and to restore.
struct Snapshot {
    fs::path root;
    std::map<std::string, Bytes> files{};
    explicit Snapshot(fs::path r)
        : root{std::move(r)} {
        for (auto& e : fs::recursive_directory_iterator(root)) {
            if (e.is_regular_file()) {
                files[fs::relative(e.path(), root).string()] = slurp(e.path());
            }
        }
    }
    void restore() const {
        fs::remove_all(root);
        for (auto& [name, bytes] : files) {
            fs::create_directories((root / name).parent_path());
            spit(root / name, bytes);
        }
    }
};

struct Damage {
    std::string what{};
    bool must_throw = false; // the damage contradicts something else in the files
    bool payload = false;    // only bytes of the elements may have changed
    std::string file{};
};

// Fields that say how much a file holds, or what it holds.
inline bool is_count(const std::string& key) {
    static const std::set<std::string> k{"num_vectors", "dims", "num_points", "num_clusters", "num_elements", "filesize", "num_vertices", "max_degree"};
    return k.count(key) > 0;
}
inline bool is_kind(const std::string& key) {
    static const std::set<std::string> k{"eltype", "integer_type", "external_id_type", "internal_id_type", "element_type", "kind", "__schema__"};
    return k.count(key) > 0;
}
// Not read: descriptive only, or redundant.
inline bool is_free(const std::string& key) {
    static const std::set<std::string> k{"name", "binary_file", "element_size"};
    return k.count(key) > 0;
}

struct Spot {
    toml::table* table = nullptr;
    toml::array* array = nullptr;
    std::string key{};
    size_t index = 0;
    toml::node& node() const { return table ? *table->get(key) : *array->get(index); }
    template <typename V> void set(V&& v) const {
        if (table) {
            table->insert_or_assign(key, std::forward<V>(v));
        } else {
            array->replace(array->cbegin() + std::ptrdiff_t(index), std::forward<V>(v));
        }
    }
};
inline void spots(toml::table& t, std::vector<Spot>& out);
inline void spots(toml::array& a, std::vector<Spot>& out) {
    for (size_t i = 0; i < a.size(); ++i) {
        out.push_back({nullptr, &a, "", i});
        if (auto* t = a.get(i)->as_table()) spots(*t, out);
        if (auto* b = a.get(i)->as_array()) spots(*b, out);
    }
}
inline void spots(toml::table& t, std::vector<Spot>& out) {
    for (auto&& [k, v] : t) {
        out.push_back({&t, nullptr, std::string(k.str()), 0});
        if (auto* u = v.as_table()) spots(*u, out);
        if (auto* a = v.as_array()) spots(*a, out);
    }
}

// The schema of the innermost table around a spot.
inline std::string schema_of(const Spot& s) {
    if (s.table) {
        if (auto v = (*s.table)["__schema__"].value<std::string>()) return *v;
    }
    return "";
}

inline std::string print(const toml::table& t) {
    std::ostringstream o;
    o << toml::toml_formatter(t, toml::toml_formatter::default_flags & ~toml::format_flags::allow_multi_line_strings);
    return o.str();
}

// Damage of one field of a configuration.
inline std::optional<Damage> damage_field(vh::Gen& g, Bytes& text) {
    auto parsed = toml::parse(text);
    std::vector<Spot> all;
    spots(parsed, all);
    auto& s = all[g.raw(all.size() - 1)];
    Damage d;
    std::string at = s.table ? s.key : fmt::format("[{}]", s.index);
    std::string schema = schema_of(s);
    auto& n = s.node();
    size_t how = g.raw(3);
    if (how == 0) {
        if (s.table) {
            s.table->erase(s.key);
            d.must_throw = (is_count(at) || is_kind(at) || at == "uuid" || at == "filename" || at == "filepath" || at == "__version__") &&
                           !(schema == "" && at != "__schema__");
        } else {
            s.array->erase(s.array->cbegin() + std::ptrdiff_t(s.index));
        }
        d.what = at + " deleted";
    } else if (how == 1) {
        // Another type.
        bool was_int = n.is_integer(), was_str = n.is_string(), was_bool = n.is_boolean();
        switch (g.raw(7)) {
            case 0: s.set(int64_t(g.raw(5))); d.must_throw = was_str; break;
            case 1: s.set(double(g.raw(100)) / 8); d.must_throw = was_int || was_str; break;
            case 2: s.set(std::string("text")); d.must_throw = was_int || was_bool; break;
            case 3: s.set(g.flip()); d.must_throw = was_int || was_str; break;
            case 4: s.set(toml::array{1, 2}); d.must_throw = was_int || was_str || was_bool; break;
            case 5: s.set(toml::table{{"__schema__", "x"}, {"__version__", "v0.0.0"}}); d.must_throw = was_int || was_str || was_bool; break;
            case 6: s.set(std::numeric_limits<double>::quiet_NaN()); d.must_throw = was_int || was_str; break;
            default: s.set(toml::date{2000, 1, 1}); d.must_throw = was_int || was_str || was_bool; break;
        }
        d.must_throw = d.must_throw && s.table && !is_free(at);
        d.what = at + " with another type";
    } else if (auto v = n.value_exact<int64_t>()) {
        int64_t w = *v;
        switch (g.raw(8)) {
            case 0: w = 0; break;
            case 1: w += 1; break;
            case 2: w -= 1; break;
            case 3: w = -1; break;
            case 4: w = std::numeric_limits<int64_t>::max(); break;
            case 5: w = std::numeric_limits<int64_t>::min(); break;
            case 6: w = int64_t(g.raw(300)); break;
            case 7: w = int64_t(1) << g.raw(62); break;
            default: w ^= int64_t(1) << g.raw(40); break;
        }
        s.set(w);
        d.what = fmt::format("{} {} instead of {}", at, w, *v);
        if (w == *v) {
            return std::nullopt;
        }
        d.must_throw = (is_count(at) || (w < 0 && at != "seed")) && !is_free(at);
    } else if (auto v = n.value_exact<std::string>()) {
        std::string w = *v;
        switch (g.raw(6)) {
            case 0: w = ""; break;
            case 1: w += "x"; break;
            case 2: w = "."; break;
            case 3: {
                std::vector<std::string> other;
                for (auto& o : all) {
                    if (auto x = o.node().value_exact<std::string>()) other.push_back(*x);
                }
                w = other[g.raw(other.size() - 1)];
                break;
            }
            case 4: w = g.pick<std::string>({"v0.0.1", "v1.0.0", "v0.1.0", "v0.0.99", "v99999999999999999999.0.0", "vx", "0.0.0"}); break;
            case 5: w = g.pick<std::string>({"float32", "float16", "uint8", "int64", "uint32", "undef", "none", "00000000-0000-0000-0000-000000000000"}); break;
            default:
                if (!w.empty()) {
                    w[g.raw(w.size() - 1)] = char('0' + g.raw(70));
                }
                break;
        }
        s.set(w);
        if (w == *v) {
            return std::nullopt;
        }
        d.what = fmt::format("{} \"{}\" instead of \"{}\"", at, w, *v);
        // Parameters of a Vamana index load from older versions as well.
        d.must_throw = is_kind(at) || (at == "__version__" && schema.rfind("vamana", 0) != 0 && schema != "");
        // A dynamic index deliberately loads configurations of either kind.
        if (*v == "vamana_dynamic_auxiliary_parameters" && w == "vamana_index_parameters") d.must_throw = false;
        if (at == "uuid") {
            // Hexadecimal digits of either case are the same.
            auto lower = [](std::string x) { for (auto& c : x) c = char(std::tolower(c)); return x; };
            d.must_throw = lower(w) != lower(*v) && w.size() == v->size() && w.find_first_not_of("0123456789abcdefABCDEF-") == std::string::npos;
            for (auto& o : all) {
                if (auto x = o.node().value_exact<std::string>(); x && &o != &s && lower(*x) == lower(w)) d.must_throw = false;
            }
        }
    } else {
        s.set(g.pick<double>({0, -1, 1e300, -1e-300, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()}));
        d.what = at + " with another number";
    }
    text = print(parsed);
    return d;
}

// Bytes moved within a header may make up another header, which the file agrees with.
constexpr size_t header_bytes = 40;

// Damage of the bytes of a file.  fixed: the size of the file is stated in it or elsewhere.
inline std::optional<Damage> damage_bytes(vh::Gen& g, Bytes& b, bool fixed) {
    Damage d;
    switch (g.raw(7)) {
        case 0:
        case 1: {
            if (b.empty()) return std::nullopt;
            size_t k = g.flip() ? g.raw(b.size() - 1) : b.size() - 1 - g.raw(std::min<size_t>(b.size() - 1, 16));
            d.what = fmt::format("cut from {} to {} bytes", b.size(), k);
            b.resize(k);
            d.must_throw = fixed;
            break;
        }
        case 2: {
            size_t k = g.skew(1, 5000);
            bool zeros = g.flip();
            vh::Stream s(g.seed());
            d.what = fmt::format("{} bytes appended", k);
            for (size_t i = 0; i < k; ++i) b += char(zeros ? 0 : s.next());
            d.must_throw = fixed;
            break;
        }
        case 3:
        case 4: {
            if (b.empty()) return std::nullopt;
            size_t k = g.skew(1, 8);
            size_t low = g.chance(1, 2) ? std::min<size_t>(b.size() - 1, 63) : b.size() - 1;
            std::string at;
            for (size_t i = 0; i < k; ++i) {
                size_t p = g.raw(low);
                b[p] ^= char(1u << g.raw(7));
                at += fmt::format(" {}", p);
            }
            d.what = "bits flipped at" + at;
            break;
        }
        case 5: {
            // A word of the header or of the contents.
            size_t w = g.pick<size_t>({8, 4, 4, 2, 1});
            if (b.size() < w) return std::nullopt;
            size_t p = g.flip() ? w * g.raw(std::min<size_t>(b.size() / w - 1, 8)) : g.raw(b.size() - w);
            uint64_t x = g.pick<uint64_t>({0, 1, 2, ~uint64_t(0), uint64_t(1) << 31, uint64_t(1) << 32, uint64_t(1) << 62, uint64_t(1) << 40, b.size(), b.size() / 4, 0x7fffffff});
            if (size_t how = g.raw(3); how == 1) {
                // Just above or below what it was.
                x = 0;
                std::memcpy(&x, b.data() + p, w);
                x += g.flip() ? 1 : -1;
            } else if (how >= 2) {
                // A count of the header, or one next to it, in the place of an element.
                std::vector<uint64_t> counts{0};
                for (size_t i = 0; i + 8 <= std::min<size_t>(b.size(), 64); i += 8) {
                    uint64_t y;
                    std::memcpy(&y, b.data() + i, 8);
                    if (y < 1000000) counts.push_back(y);
                }
                x = counts[g.raw(counts.size() - 1)] + g.raw(2) - 1;
                p = w * g.raw(b.size() / w - 1);
            }
            std::memcpy(b.data() + p, &x, w);
            d.what = fmt::format("{} byte word at {} set to {}", w, p, x);
            break;
        }
        case 6: {
            size_t p = g.raw(b.size()), k = g.skew(1, 16);
            vh::Stream s(g.seed());
            Bytes in;
            for (size_t i = 0; i < k; ++i) in += char(s.next());
            b.insert(p, in);
            d.what = fmt::format("{} bytes inserted at {}", k, p);
            d.must_throw = fixed && p >= header_bytes;
            break;
        }
        default: {
            if (b.empty()) return std::nullopt;
            size_t p = g.raw(b.size() - 1), k = g.skew(1, 16);
            b.erase(p, k);
            d.what = fmt::format("bytes from {} removed", p);
            d.must_throw = fixed && p >= header_bytes;
            break;
        }
    }
    return d;
}

// Damage one of the files; all files other than configurations have a stated size.
inline std::optional<Damage> damage(vh::Gen& g, const Snapshot& snap) {
    std::vector<std::string> names;
    for (auto& f : snap.files) names.push_back(f.first);
    std::string name = names[g.raw(names.size() - 1)];
    Bytes b = snap.files.at(name);
    bool config = name.size() > 5 && name.substr(name.size() - 5) == ".toml";
    fs::path p = snap.root / name;
    std::optional<Damage> d;
    size_t how = g.raw(11);
    if (how == 0) {
        d = Damage{"missing", true};
        fs::remove(p);
    } else if (how == 1) {
        d = Damage{"a directory", true};
        fs::remove(p);
        fs::create_directory(p);
    } else if (how == 2) {
        std::string other = names[g.raw(names.size() - 1)];
        if (other == name || snap.files.at(other) == b) return std::nullopt;
        bool both = g.flip();
        spit(p, snap.files.at(other));
        if (both) spit(snap.root / other, b);
        // Files of one object may be found by their contents wherever they are.
        d = Damage{fmt::format("{} with {}", both ? "exchanged" : "replaced", other), !both && !config};
        if (!both && !config && snap.files.at(other).size() == b.size()) d->must_throw = false;
    } else if (config && how < 9) {
        d = damage_field(g, b);
        if (d && b == snap.files.at(name)) return std::nullopt;
        if (d) spit(p, b);
    } else {
        d = damage_bytes(g, b, !config);
        if (d && b == snap.files.at(name)) return std::nullopt;
        if (d) spit(p, b);
    }
    if (d) {
        d->file = name;
        d->what = name + ": " + d->what;
    }
    return d;
}

// Try to load what was saved in snap.root with one damage after the other.  use() loads the object,
// checks that it is well-formed and throws what the library throws.
template <typename F> void try_damages(vh::Gen& g, vh::Ctx& ctx, const Snapshot& snap, const std::string& what, F&& use) {
    // As saved, it loads.
    std::string why;
    Damage none;
    VH_REQUIRE(!vh::throws([&] { use(none); }, &why), "{} did not load as saved: {}", what, why);
    size_t tries = g.range(1, 6), done = 0;
    std::string all;
    for (size_t i = 0; i < tries; ++i) {
        auto d = damage(g, snap);
        if (d && g.chance(1, 6)) {
            // A second one, which may hide the first.
            auto e = damage(g, snap);
            if (e) {
                bool same = e->file == d->file;
                d->must_throw = false;
                d->what += same ? " (undone)" : "";
                d->what += " and " + e->what;
                d->file = "";
            }
        }
        if (d) {
            ++done;
            all += (all.empty() ? "" : "; ") + d->what;
            ctx.describe("{}: {}", what, all);
            vh_mmap_largest = 0;
            bool threw = vh::throws([&] { use(*d); }, &why);
            ctx.label(threw ? "refused" : "well-formed");
            VH_REQUIRE(vh_mmap_largest <= (size_t(2) << 30), "{} with {}: {} bytes were mapped", what, d->what, vh_mmap_largest);
            VH_REQUIRE(threw || !d->must_throw, "{} was loaded with {}", what, d->what);
        }
        snap.restore();
    }
    ctx.interesting(done > 0);
    if (done == 0) {
        throw vh::Discard{};
    }
}
} // namespace c13
