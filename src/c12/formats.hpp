// C12: vector files against byte layouts written and parsed by this file.
#pragma once
#include "vh.hpp"
#include "svs/core/data.h"
#include "svs/core/data/io.h"
#include "svs/core/io.h"
#include "svs/core/query_result.h"

#include <cstring>
#include <filesystem>
#include <fstream>

namespace {
namespace io = svs::io;
namespace fs = std::filesystem;
using svs::Float16;
using Bytes = std::string;

template <typename T> const char* tname() {
    if constexpr (std::is_same_v<T, float>) return "f32";
    if constexpr (std::is_same_v<T, double>) return "f64";
    if constexpr (std::is_same_v<T, Float16>) return "f16";
    static const char* s[] = {"", "8", "16", "", "32", "", "", "", "64"};
    static std::string name = std::string(std::is_signed_v<T> ? "i" : "u") + s[sizeof(T)];
    return name.c_str();
}

template <typename X> void put(Bytes& b, const X& x) {
    static_assert(std::is_trivially_copyable_v<X>);
    b.append(reinterpret_cast<const char*>(&x), sizeof x);
}
template <typename X> X get(const Bytes& b, size_t at) {
    X x;
    VH_REQUIRE(at + sizeof x <= b.size(), "the file ends at {} bytes, before offset {}", b.size(), at + sizeof x);
    std::memcpy(&x, b.data() + at, sizeof x);
    return x;
}
Bytes slurp(const fs::path& p) {
    std::ifstream f(p, std::ios::binary);
    VH_REQUIRE(bool(f), "cannot open {}", p.string());
    return Bytes(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
void spit(const fs::path& p, const Bytes& b) {
    std::ofstream f(p, std::ios::binary);
    f.write(b.data(), std::streamsize(b.size()));
}

// A matrix compared by the bits of its elements.
template <typename T> struct M {
    size_t n = 0, d = 0;
    std::vector<T> v;
    std::span<const T> row(size_t i) const { return {v.data() + i * d, d}; }
    bool same_row(size_t i, const T* p) const { return std::memcmp(v.data() + i * d, p, d * sizeof(T)) == 0; }
};

template <typename T> T bits(uint64_t x) {
    T t;
    static_assert(sizeof t <= 8);
    std::memcpy(&t, &x, sizeof t);
    return t;
}

// Elements: any bits, small numbers, bytes that look like row headers, zeros.
template <typename T> M<T> matrix(vh::Gen& g, size_t n, size_t d, const char** kind) {
    size_t k = g.raw(3);
    static const char* names[] = {"bits", "small", "headers", "zeros"};
    *kind = names[k];
    vh::Stream s(g.seed());
    M<T> m{n, d, std::vector<T>(n * d)};
    for (auto& x : m.v) {
        switch (k) {
            case 0: x = bits<T>(s.next()); break;
            case 1: x = T(float(s.below(100))); break;
            case 2: {
                // 32-bit words that hold the number of dimensions.
                uint64_t w = s.below(4) ? uint64_t(d) : 0;
                if (sizeof(T) >= 4) {
                    w = s.below(2) ? w : w | uint64_t(d) << 32;
                    x = bits<T>(w);
                } else {
                    x = bits<T>(s.below(3) ? (s.below(2) ? d : 0) : d >> 8 * sizeof(T));
                }
                break;
            }
            default: x = T(float(0)); break;
        }
    }
    // Rows that are entirely row headers, aligned in bytes.
    if (k == 2 && sizeof(T) < 4 && g.flip()) {
        uint32_t w = uint32_t(d);
        auto* p = reinterpret_cast<char*>(m.v.data());
        for (size_t i = 0; i + 4 <= m.v.size() * sizeof(T); i += 4) {
            std::memcpy(p + i, &w, 4);
        }
    }
    return m;
}

template <typename T> Bytes vecs_bytes(const M<T>& m) {
    Bytes b;
    for (size_t i = 0; i < m.n; ++i) {
        put(b, uint32_t(m.d));
        b.append(reinterpret_cast<const char*>(m.row(i).data()), m.d * sizeof(T));
    }
    return b;
}
template <typename T> Bytes bin_bytes(const M<T>& m) {
    Bytes b;
    put(b, uint32_t(m.n));
    put(b, uint32_t(m.d));
    b.append(reinterpret_cast<const char*>(m.v.data()), m.v.size() * sizeof(T));
    return b;
}
using Id = std::array<uint8_t, 16>;
template <typename T> Bytes v1_bytes(const M<T>& m, const Id& id) {
    Bytes b;
    put(b, uint64_t(0xcad4a6b2579980feull));
    put(b, id);
    put(b, uint64_t(m.n));
    put(b, uint64_t(m.d));
    b.resize(1024, '\0');
    b.append(reinterpret_cast<const char*>(m.v.data()), m.v.size() * sizeof(T));
    return b;
}
template <typename T> Bytes vtest_bytes(const M<T>& m, const Id& id) {
    Bytes b;
    put(b, uint64_t(0xf83ad4901d434f04ull));
    put(b, uint64_t(m.n));
    put(b, uint64_t(m.d));
    put(b, id);
    b.resize(64, '\0');
    b.append(reinterpret_cast<const char*>(m.v.data()), m.v.size() * sizeof(T));
    return b;
}
Id gen_id(vh::Gen& g, svs::lib::UUID* out) {
    vh::Stream s(g.seed());
    Id id{};
    for (auto& x : id) {
        x = uint8_t(s.next());
    }
    if (g.chance(1, 4)) {
        id = Id{};
    }
    static_assert(sizeof(svs::lib::UUID) == 16);
    std::memcpy(static_cast<void*>(out), id.data(), 16);
    return id;
}

void same_bytes(const fs::path& p, const Bytes& want, const char* what) {
    Bytes got = slurp(p);
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) {
        ++i;
    }
    VH_REQUIRE(got == want, "{}: wrote {} bytes instead of {}, differing first at byte {}", what, got.size(), want.size(), i);
}

// Iterate over a reader and compare with the first rows of m.
template <typename R, typename T> void same_rows(R& r, const M<T>& m, size_t want, const char* what) {
    size_t i = 0;
    auto it = r.begin();
    static_assert(std::is_same_v<typename R::value_type, T>);
    for (; it != r.end(); ++it) {
        VH_REQUIRE(i < want, "{}: more than {} vectors", what, want);
        auto row = *it;
        VH_REQUIRE(row.size() == m.d, "{}: vector {} has {} elements instead of {}", what, i, row.size(), m.d);
        VH_REQUIRE(m.same_row(i, row.data()), "{}: vector {} differs", what, i);
        ++i;
    }
    VH_REQUIRE(i == want, "{}: {} vectors instead of {}", what, i, want);
}

template <typename D, typename T> void same_data(const D& data, const M<T>& m, const char* what) {
    VH_REQUIRE(data.size() == m.n && data.dimensions() == m.d, "{}: {}x{} instead of {}x{}", what, data.size(), data.dimensions(), m.n, m.d);
    for (size_t i = 0; i < m.n; ++i) {
        auto row = data.get_datum(i);
        VH_REQUIRE(row.size() == m.d && m.same_row(i, row.data()), "{}: vector {} differs", what, i);
    }
}

size_t gen_limit(vh::Gen& g, size_t n) {
    switch (g.raw(3)) {
        case 0: return n;
        case 1: return g.range(0, n);
        case 2: return n + g.range(0, 3);
        default: return svs::Dynamic;
    }
}

template <typename T> using Blocked = svs::data::SimpleData<T, svs::Dynamic, svs::data::Blocked<svs::HugepageAllocator<T>>>;

// Blocks that hold at least one row.
template <typename T> auto blocks(vh::Gen& g, size_t d) {
    size_t k = 7;
    while ((size_t(1) << k) < d * sizeof(T)) {
        ++k;
    }
    auto p = svs::data::BlockingParameters{.blocksize_bytes = svs::lib::PowerOfTwo(g.range(k, k + 5))};
    return svs::data::Blocked<svs::HugepageAllocator<T>>(p);
}
template <typename T> Blocked<T> blocked(vh::Gen& g, size_t n, size_t d) {
    return Blocked<T>(n, d, blocks<T>(g, d));
}

// Load through the dataset classes (type by file extension).
template <typename T> void load_as_dataset(vh::Gen& g, const fs::path& p, const M<T>& m, const char* what) {
    switch (g.raw(3)) {
        case 0: same_data(svs::data::SimpleData<T>::load(p), m, what); break;
        case 1: {
            same_data(Blocked<T>::load(p, blocks<T>(g, m.d)), m, what);
            break;
        }
        case 2: {
            auto d = io::auto_load<T>(p, svs::lib::Lazy([&](size_t n, size_t d) { return blocked<T>(g, n, d); }));
            same_data(d, m, what);
            break;
        }
        default: {
            // An extent fixed at compile time.
            constexpr size_t E = 7;
            bool blk = g.flip();
            auto go = [&] {
                if (blk) {
                    using D = svs::data::SimpleData<T, E, svs::data::Blocked<svs::HugepageAllocator<T>>>;
                    same_data(D::load(p, blocks<T>(g, std::max(E, m.d))), m, what);
                } else {
                    same_data(svs::data::SimpleData<T, E>::load(p), m, what);
                }
            };
            if (m.d == E) {
                go();
            } else {
                VH_REQUIRE(vh::throws(go), "{}: {} dimensions were loaded into a dataset of {}", what, m.d, E);
            }
        }
    }
    VH_REQUIRE(io::deduce_dimensions(p) == m.d, "{}: deduced {} dimensions instead of {}", what, io::deduce_dimensions(p), m.d);
}

// Append all rows, in one of the ways to do it.
template <typename W, typename T> void append_all(vh::Gen& g, W& w, const M<T>& m) {
    size_t how = g.raw(2);
    for (size_t i = 0; i < m.n; ++i) {
        auto r = m.row(i);
        switch (how) {
            case 0: w << r; break;
            case 1: w.append(std::vector<T>(r.begin(), r.end())); break;
            default: {
                const std::vector<T> v(r.begin(), r.end());
                w.append(v) << v;
                // The second copy of the row must be undone by the caller's reference: not used.
                break;
            }
        }
    }
}
template <typename T> M<T> doubled(const M<T>& m) {
    M<T> o{m.n * 2, m.d, {}};
    for (size_t i = 0; i < m.n; ++i) {
        for (int c = 0; c < 2; ++c) {
            o.v.insert(o.v.end(), m.row(i).begin(), m.row(i).end());
        }
    }
    return o;
}

size_t gen_d(vh::Gen& g) {
    return g.chance(1, 4) ? 7 : g.chance(1, 30) ? g.range(200, 1500) : g.skew(1, 70);
}
std::string ext(vh::Gen& g, std::initializer_list<const char*> xs) { return std::string("/file.") + g.pick(xs); }

// Element sizes under which the bytes are whole rows, the first `inspect` of which have one number of dimensions.
std::vector<size_t> consistent_sizes(const Bytes& b, size_t inspect) {
    std::vector<size_t> out;
    for (size_t s : {1, 2, 4, 8}) {
        uint32_t d = get<uint32_t>(b, 0);
        size_t line = 4 + s * size_t(d);
        bool ok = b.size() % line == 0;
        for (size_t at = 0; ok && at < b.size() && at / line < inspect; at += line) {
            ok = get<uint32_t>(b, at) == d;
        }
        if (ok) {
            out.push_back(s);
        }
    }
    return out;
}

// Reading with another element type must not succeed unless the file allows it.
template <typename U> bool reads_as(const io::vecs::VecsFile& f) {
    return !vh::throws([&] {
        auto r = f.reader(svs::lib::Type<U>());
        for (auto it = r.begin(); it != r.end(); ++it) {
            (void)*it;
        }
    });
}

template <typename T> void vecs(vh::Gen& g, vh::Ctx& ctx) {
    size_t n = g.skew(1, 60), d = gen_d(g);
    const char* kind;
    auto m = matrix<T>(g, n, d, &kind);
    fs::path p = ctx.scratch + ext(g, {"fvecs", "bvecs", "ivecs", "hvecs", "vecs"});
    size_t how = g.raw(5);
    ctx.describe("vecs {} {}x{} {} writer {}", tname<T>(), n, d, kind, how);
    ctx.label(std::string("vecs ") + tname<T>());
    ctx.interesting(n > 1 && d > 1);
    auto file = io::vecs::VecsFile(p);
    auto write = [&](auto type) {
        using W = typename decltype(type)::type;
        auto w = file.template writer<W>(d);
        append_all(g, w, m);
        if (g.flip()) {
            w.flush();
        }
    };
    M<T> stored = m;
    size_t before = g.rec.size();
    switch (how) {
        case 0: write(svs::lib::Type<T>()); break;
        case 1: write(svs::lib::Type<void>()); break;
        case 2: {
            auto s = svs::data::SimpleData<T>(n, d);
            for (size_t i = 0; i < n; ++i) s.set_datum(i, m.row(i));
            io::save_vecs(s, p);
            break;
        }
        case 3: io::save_vecs(svs::data::ConstSimpleDataView<T>(m.v.data(), n, d), p); break;
        case 4: {
            auto s = blocked<T>(g, n, d);
            for (size_t i = 0; i < n; ++i) s.set_datum(i, m.row(i));
            io::save_vecs(s, p);
            break;
        }
        default: spit(p, vecs_bytes(m)); break;
    }
    if (how <= 1 && g.rec[before] == 2) {
        stored = doubled(m);
    }
    Bytes want = vecs_bytes(stored);
    same_bytes(p, want, "vecs writer");

    // Dimensions with and without knowledge of the type.
    auto dims = file.get_dims(sizeof(T));
    VH_REQUIRE(dims.first == stored.n && dims.second == d, "get_dims({}): {}x{} instead of {}x{}", sizeof(T), dims.first, dims.second, stored.n, d);
    auto sizes = consistent_sizes(want, 10); // the library looks at ten rows
    auto guess = file.get_dims();
    VH_REQUIRE(guess.second == d, "get_dims: {} dimensions instead of {}", guess.second, d);
    bool ok = false;
    for (size_t s : sizes) {
        ok = ok || guess.first == want.size() / (4 + s * d);
    }
    VH_REQUIRE(ok, "get_dims: {} vectors instead of {} (element sizes {})", guess.first, stored.n, vh::show(sizes, 4));
    if (sizes.size() == 1) {
        ctx.label("element size certain");
        VH_REQUIRE(guess.first == stored.n, "get_dims: {} vectors instead of {}", guess.first, stored.n);
    } else {
        ctx.label("element size ambiguous");
    }

    // Read with and without limits, repeatedly.
    size_t limit = gen_limit(g, stored.n);
    auto r = limit == svs::Dynamic && g.flip() ? file.reader(svs::lib::Type<T>()) : file.reader(svs::lib::Type<T>(), limit);
    VH_REQUIRE(r.ndims() == d && r.nvectors() == stored.n, "reader: {}x{}", r.nvectors(), r.ndims());
    size_t k = std::min(limit, stored.n);
    VH_REQUIRE(r.vectors_to_read() == k, "reader limited to {}: would read {}", limit, r.vectors_to_read());
    same_rows(r, stored, k, "vecs reader");
    same_rows(r, stored, k, "vecs reader again");
    size_t limit2 = gen_limit(g, stored.n);
    r.resize(limit2);
    same_rows(r, stored, std::min(limit2, stored.n), "vecs reader resized");

    load_as_dataset(g, p, stored, "vecs dataset");

    sizes = consistent_sizes(want, want.size());
    auto has = [&](size_t s) { return std::find(sizes.begin(), sizes.end(), s) != sizes.end(); };
    if (sizeof(T) != 1) {
        VH_REQUIRE(!reads_as<uint8_t>(file) || has(1), "elements of {} bytes were read as bytes", sizeof(T));
    }
    if (sizeof(T) != 4) {
        VH_REQUIRE(!reads_as<float>(file) || has(4), "elements of {} bytes were read as floats", sizeof(T));
    }
    if (sizeof(T) != 8) {
        VH_REQUIRE(!reads_as<double>(file) || has(8), "elements of {} bytes were read as doubles", sizeof(T));
    }
}

template <typename T> void bin(vh::Gen& g, vh::Ctx& ctx) {
    size_t n = g.skew(0, 60), d = gen_d(g);
    const char* kind;
    auto m = matrix<T>(g, n, d, &kind);
    fs::path p = ctx.scratch + ext(g, {"fbin", "u8bin", "bin"});
    size_t how = g.raw(2);
    ctx.describe("bin {} {}x{} {} writer {}", tname<T>(), n, d, kind, how);
    ctx.label(std::string("bin ") + tname<T>());
    ctx.interesting(n > 1 && d > 1);
    auto file = io::binary::BinaryFile(p);
    M<T> stored = m;
    auto write = [&](auto type) {
        using W = typename decltype(type)::type;
        bool twice = g.chance(1, 3);
        if (twice) {
            stored = doubled(m);
        }
        auto w = file.template writer<W>(stored.n, d);
        for (size_t i = 0; i < stored.n; ++i) {
            w << stored.row(i);
        }
        if (g.flip()) {
            w.flush();
        }
    };
    switch (how) {
        case 0: write(svs::lib::Type<T>()); break;
        case 1: write(svs::lib::Type<void>()); break;
        default: spit(p, bin_bytes(m)); break;
    }
    same_bytes(p, bin_bytes(stored), "binary writer");
    for (size_t hint : {size_t(0), sizeof(T)}) {
        auto dims = file.get_dims(hint);
        VH_REQUIRE(dims.first == stored.n && dims.second == d, "get_dims({}): {}x{} instead of {}x{}", hint, dims.first, dims.second, stored.n, d);
    }
    size_t limit = gen_limit(g, stored.n);
    auto r = file.reader(svs::lib::Type<T>(), limit);
    VH_REQUIRE(r.ndims() == d && r.nvectors() == stored.n, "reader: {}x{}", r.nvectors(), r.ndims());
    size_t k = std::min(limit, stored.n);
    VH_REQUIRE(r.vectors_to_read() == k, "reader limited to {}: would read {}", limit, r.vectors_to_read());
    same_rows(r, stored, k, "binary reader");
    same_rows(r, stored, k, "binary reader again");
    size_t limit2 = gen_limit(g, stored.n);
    r.resize(limit2);
    same_rows(r, stored, std::min(limit2, stored.n), "binary reader resized");
    load_as_dataset(g, p, stored, "binary dataset");
    if (stored.n > 0 && sizeof(T) != 2) {
        VH_REQUIRE(vh::throws([&] { (void)file.reader(svs::lib::Type<uint16_t>()); }), "elements of {} bytes were read as 2 bytes", sizeof(T));
        VH_REQUIRE(vh::throws([&] { (void)file.get_dims(2); }), "elements of {} bytes were taken for 2 bytes", sizeof(T));
    }
    // Fewer or more rows than the header promises.
    size_t wrong = g.raw(stored.n + 2);
    if (wrong != stored.n && (wrong > 0 || stored.n > 0)) {
        {
            auto w = file.template writer<T>(wrong, d);
            for (size_t i = 0; i < stored.n; ++i) {
                w << stored.row(i);
            }
        }
        VH_REQUIRE(vh::throws([&] { (void)file.reader(svs::lib::Type<T>()); }), "{} vectors behind a header of {} were read", stored.n, wrong);
    }
}

template <typename T> void native(vh::Gen& g, vh::Ctx& ctx) {
    size_t n = g.skew(0, 60), d = gen_d(g);
    const char* kind;
    auto m = matrix<T>(g, n, d, &kind);
    fs::path p = ctx.scratch + "/file.svs";
    svs::lib::UUID uuid{};
    Id id = gen_id(g, &uuid);
    size_t how = g.raw(6);
    ctx.describe("native {} {}x{} {} writer {}", tname<T>(), n, d, kind, how);
    ctx.label(std::string("native ") + tname<T>());
    ctx.interesting(n > 1 && d > 1);
    fs::remove(p);
    auto f1 = io::v1::NativeFile(p);
    auto fg = io::NativeFile(p);
    auto feed = [&](auto& w) {
        size_t at = g.chance(1, 3) ? g.range(0, n) : n + 1;
        for (size_t i = 0; i < n; ++i) {
            if (i == at) {
                w.writeheader();
            }
            w << m.row(i);
        }
        if (g.flip()) {
            w.flush();
        }
    };
    bool vtest = false;
    switch (how) {
        case 0: {
            auto w = f1.writer(svs::lib::Type<T>(), d, uuid);
            feed(w);
            break;
        }
        case 1: {
            auto w = fg.writer(d, uuid);
            feed(w);
            break;
        }
        case 2: {
            auto s = svs::data::SimpleData<T>(n, d);
            for (size_t i = 0; i < n; ++i) s.set_datum(i, m.row(i));
            io::save(s, std::as_const(fg), uuid);
            break;
        }
        case 3: {
            auto s = blocked<T>(g, n, d);
            for (size_t i = 0; i < n; ++i) s.set_datum(i, m.row(i));
            io::save(s, std::as_const(f1), uuid);
            break;
        }
        case 4: {
            // Elements one by one, with the count set by hand.
            auto w = f1.writer(d, uuid);
            for (size_t i = 0; i < n; ++i) {
                size_t j = 0;
                for (; j + 3 <= d; j += 3) {
                    w.append(std::make_tuple(m.row(i)[j], m.row(i)[j + 1], m.row(i)[j + 2]));
                }
                for (; j < d; ++j) {
                    w.append(std::make_tuple(m.row(i)[j]));
                }
            }
            w.overwrite_num_vectors(n);
            break;
        }
        case 5: {
            // Through a new memory mapping.
            auto mapper = svs::MemoryMapper(svs::MemoryMapper::ReadWrite, g.flip() ? svs::MemoryMapper::MustCreate : svs::MemoryMapper::MayCreate);
            auto ptr = f1.mmap(svs::lib::Type<T>(), svs::lib::Bytes(n * d * sizeof(T)), mapper);
            if (n > 0) {
                std::memcpy(ptr.data(), m.v.data(), n * d * sizeof(T));
            }
            ptr.save(io::v1::Header(n, d, uuid));
            break;
        }
        default: spit(p, vtest_bytes(m, id)); vtest = true; break;
    }
    same_bytes(p, vtest ? vtest_bytes(m, id) : v1_bytes(m, id), "native writer");

    auto read = [&](auto file, auto tag) {
        using F = decltype(file);
        (void)tag;
        auto h = file.header();
        VH_REQUIRE(h.num_vectors_ == n && h.dimensions_per_vector_ == d && h.uuid_ == uuid, "header of {}x{}", h.num_vectors_, h.dimensions_per_vector_);
        VH_REQUIRE(file.uuid() == uuid, "uuid");
        auto dims = file.get_dims();
        VH_REQUIRE(dims.first == n && dims.second == d, "get_dims: {}x{}", dims.first, dims.second);
        size_t limit = gen_limit(g, n);
        auto r = file.reader(svs::lib::Type<T>(), limit);
        size_t k = std::min(limit, n);
        VH_REQUIRE(r.ndims() == d && r.nvectors() == k, "reader limited to {}: {}x{}", limit, r.nvectors(), r.ndims());
        same_rows(r, m, k, "native reader");
        same_rows(r, m, k, "native reader again");
        size_t k2 = g.range(0, n);
        r.resize(k2);
        same_rows(r, m, k2, "native reader resized");
        // Through a read-only mapping.
        auto mapper = svs::MemoryMapper(svs::MemoryMapper::ReadOnly, g.flip() ? svs::MemoryMapper::MustUseExisting : svs::MemoryMapper::MayCreate);
        auto ptr = file.mmap(svs::lib::Type<T>(), svs::lib::Bytes(n * d * sizeof(T)), mapper);
        VH_REQUIRE(n == 0 || std::memcmp(ptr.data(), m.v.data(), n * d * sizeof(T)) == 0, "mapped contents differ");
        VH_REQUIRE(ptr.uuid() == uuid, "uuid of the mapping");
        VH_REQUIRE(vh::throws([&] { (void)file.mmap(svs::lib::Type<T>(), svs::lib::Bytes(n * d * sizeof(T) + 1), mapper); }), "mapped more than the file");
        auto create = svs::MemoryMapper(svs::MemoryMapper::ReadWrite, svs::MemoryMapper::MustCreate);
        VH_REQUIRE(vh::throws([&] { (void)file.mmap(svs::lib::Type<T>(), svs::lib::Bytes(n * d * sizeof(T)), create); }), "MustCreate mapped an existing file");
        auto none = F(fs::path(ctx.scratch + "/absent.svs"));
        VH_REQUIRE(
            vh::throws([&] { (void)none.mmap(svs::lib::Type<T>(), svs::lib::Bytes(8), svs::MemoryMapper()); }) && !fs::exists(ctx.scratch + "/absent.svs"),
            "mapped a file that does not exist"
        );
    };
    VH_REQUIRE(io::classify(p) == (vtest ? io::FileSchema::Vtest : io::FileSchema::V1), "classify");
    VH_REQUIRE(io::get_uuid(p) == uuid, "get_uuid");
    if (vtest) {
        read(io::vtest::NativeFile(p), 0);
    } else {
        read(f1, 0);
    }
    auto dims = fg.get_dims();
    VH_REQUIRE(dims.first == n && dims.second == d, "get_dims: {}x{}", dims.first, dims.second);
    load_as_dataset(g, p, m, "native dataset");
    if (n > 0) {
        using W = std::conditional_t<sizeof(T) == 8, uint32_t, uint64_t>;
        VH_REQUIRE(
            vh::throws([&] { (void)f1.reader(svs::lib::Type<W>()); }) && vh::throws([&] { (void)svs::data::SimpleData<W>::load(p); }),
            "elements of {} bytes were read as {} bytes", sizeof(T), sizeof(W)
        );
    }
    same_bytes(p, vtest ? vtest_bytes(m, id) : v1_bytes(m, id), "file after reading");

    // Found by identifier among other files.
    fs::path dir = ctx.scratch + "/dir";
    fs::create_directories(dir / "sub");
    fs::rename(p, dir / "x");
    Id other = id;
    other[g.raw(15)] ^= uint8_t(1u << g.raw(7));
    spit(dir / "a", v1_bytes(m, other));
    spit(dir / "b", Bytes("text, not a vector file"));
    spit(dir / "c", Bytes("tiny"));
    spit(dir / "d", Bytes());
    auto found = io::find_uuid(dir, uuid);
    VH_REQUIRE(found && found->filename() == "x", "find_uuid: {}", found ? found->string() : "nothing");
    fs::remove(dir / "x");
    VH_REQUIRE(!io::find_uuid(dir, uuid), "find_uuid found {}", io::find_uuid(dir, uuid)->string());
    fs::remove_all(dir);
}

// The value of x as a T, or nothing when x has no exact equal among the values of T.
template <typename T, typename U> std::optional<T> exact(U x) {
    if constexpr (std::is_integral_v<T> && std::is_integral_v<U>) {
        if (!std::in_range<T>(x)) return std::nullopt;
        return T(x);
    } else if constexpr (std::is_integral_v<T>) {
        long double v = (long double)(double(x));
        if (v != std::floor(v) || v < (long double)(std::numeric_limits<T>::min()) || v > (long double)(std::numeric_limits<T>::max())) return std::nullopt;
        return T(v);
    } else {
        T t = T(x);
        if ((long double)(t) != (long double)(x)) return std::nullopt;
        return t;
    }
}

template <typename T, typename U> void convert(vh::Gen& g, vh::Ctx& ctx) {
    size_t n = g.skew(1, 12), d = g.skew(1, 20);
    vh::Stream s(g.seed());
    bool mild = g.chance(2, 3);
    std::vector<U> v(n * d);
    auto one = [&](bool any) -> U {
        if constexpr (std::is_integral_v<U>) {
            if (any) {
                U u = bits<U>(s.next());
                return s.below(2) ? u : U(u >> s.below(8 * sizeof(U)));
            }
            return U(s.below(100));
        } else if constexpr (std::is_integral_v<T>) {
            return U(any ? double(s.below(64)) / 2 : double(s.below(100)));
        } else {
            return U(any ? s.gauss() * 100 : double(s.below(1000)) / 4);
        }
    };
    for (auto& x : v) {
        x = one(!mild);
    }
    if (mild && g.flip()) {
        v[g.raw(v.size() - 1)] = one(true);
    }
    // The reference: every element converted, or the first row that cannot be.
    M<T> m{n, d, {}};
    size_t bad = n;
    for (size_t i = 0; i < v.size() && bad == n; ++i) {
        std::optional<T> t;
        if constexpr (std::is_same_v<T, Float16> && std::is_same_v<U, float>) {
            t = Float16(v[i]);
        } else {
            t = exact<T, U>(v[i]);
        }
        if (!t) {
            bad = i / d;
        } else {
            m.v.push_back(*t);
        }
    }
    size_t format = g.raw(2);
    static const char* names[] = {"vecs", "bin", "native"};
    ctx.describe("{} {}x{} from {} to {}, first row that does not fit {}", names[format], n, d, tname<U>(), tname<T>(), bad);
    ctx.label(bad == n ? "all elements fit" : "an element does not fit");
    ctx.interesting(n > 1);
    fs::path p = ctx.scratch + "/conv.x";
    auto feed = [&](auto&& w) {
        for (size_t i = 0; i < n; ++i) {
            auto row = std::span<const U>(v.data() + i * d, d);
            bool threw = vh::throws([&] { w << row; });
            VH_REQUIRE(threw == (i == bad), "row {} {}", i, threw ? "was refused" : "was altered");
            if (threw) {
                return;
            }
        }
    };
    switch (format) {
        case 0: feed(io::vecs::VecsFile(p).template writer<T>(d)); break;
        case 1: feed(io::binary::BinaryFile(p).template writer<T>(n, d)); break;
        default: feed(io::v1::NativeFile(p).writer(svs::lib::Type<T>(), d)); break;
    }
    if (bad == n) {
        same_bytes(p, format == 0 ? vecs_bytes(m) : format == 1 ? bin_bytes(m) : v1_bytes(m, Id{}), "converting writer");
    }
}

template <typename I> void results(vh::Gen& g, vh::Ctx& ctx) {
    size_t n = g.skew(1, 20), k = g.skew(1, 20);
    vh::Stream s(g.seed());
    bool big = sizeof(I) > 4 && g.chance(1, 3);
    auto fill = [&](auto&& q) {
        M<uint32_t> m{n, k, {}};
        size_t bad = 0;
        for (size_t i = 0; i < n; ++i) {
            for (size_t j = 0; j < k; ++j) {
                uint64_t x = s.next() >> s.below(64);
                x = big && s.below(10) == 0 ? x : x & (std::is_signed_v<I> && sizeof(I) == 4 ? 0x7fffffffu : 0xffffffffu);
                bad += x > 0xffffffffu || I(x) < I(0);
                q.index(i, j) = I(x);
                q.distance(i, j) = float(s.unit());
                m.v.push_back(uint32_t(x));
            }
        }
        fs::path p = ctx.scratch + "/res.ivecs";
        ctx.describe("result of {} queries and {} neighbours, {} ids do not fit", n, k, bad);
        bool threw = vh::throws([&] { q.save_vecs(p.string()); });
        VH_REQUIRE(threw == (bad > 0), "{} ids beyond 32 bits: {}", bad, threw ? "refused" : "saved");
        if (!threw) {
            same_bytes(p, vecs_bytes(m), "save_vecs");
            same_data(svs::data::SimpleData<uint32_t>::load(p), m, "saved results");
        }
    };
    ctx.label("results");
    ctx.interesting(n > 1 && k > 1);
    auto q = svs::QueryResult<I>(n, k);
    if (g.flip()) {
        fill(q);
    } else {
        fill(q.view());
    }
}

template <typename F> void each_type(vh::Gen& g, F&& f) {
    switch (g.raw(10)) {
        case 0: return f(svs::lib::Type<float>());
        case 1: return f(svs::lib::Type<Float16>());
        case 2: return f(svs::lib::Type<uint8_t>());
        case 3: return f(svs::lib::Type<int8_t>());
        case 4: return f(svs::lib::Type<double>());
        case 5: return f(svs::lib::Type<uint32_t>());
        case 6: return f(svs::lib::Type<int32_t>());
        case 7: return f(svs::lib::Type<uint64_t>());
        case 8: return f(svs::lib::Type<int64_t>());
        case 9: return f(svs::lib::Type<uint16_t>());
        default: return f(svs::lib::Type<int16_t>());
    }
}
} // namespace

