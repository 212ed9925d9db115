#include "damage.hpp"
#include "svs/core/data/io.h"

namespace {
using namespace c13;
namespace io = svs::io;

template <typename X> void put(Bytes& b, const X& x) { b.append(reinterpret_cast<const char*>(&x), sizeof x); }

// Well-formed as far as the format can tell: rows of one length, all of the file in them.
template <typename T> void check(const svs::data::SimpleData<T>& x, const fs::path& p, size_t format, const std::string& what) {
    Bytes b = slurp(p);
    size_t at = 0, w = x.dimensions() * sizeof(T);
    for (size_t i = 0; i < x.size(); ++i) {
        if (format == 0) {
            uint32_t d = 0;
            VH_REQUIRE(at + 4 <= b.size(), "{}: vector {} is not in the file", what, i);
            std::memcpy(&d, b.data() + at, 4);
            VH_REQUIRE(d == x.dimensions(), "{}: vector {} has {} elements in the file instead of {}", what, i, d, x.dimensions());
            at += 4;
        } else if (i == 0) {
            at = format == 1 ? 8 : format == 2 ? 1024 : 64;
        }
        VH_REQUIRE(at + w <= b.size() && std::memcmp(b.data() + at, x.get_datum(i).data(), w) == 0, "{}: vector {} is not what the file holds", what, i);
        at += w;
    }
    VH_REQUIRE(x.size() == 0 || at == b.size(), "{}: {} bytes of {} were read", what, at, b.size());
}

template <typename T> void raw(vh::Gen& g, vh::Ctx& ctx) {
    size_t n = g.skew(1, 20), d = g.skew(1, 20), format = g.raw(3);
    static const char* names[] = {"vecs", "bin", "svs", "vtest"};
    vh::Stream s(g.seed());
    bool headers = g.chance(1, 4); // elements that look like headers
    auto row = [&](Bytes& b) {
        for (size_t i = 0; i < d; ++i) {
            T x = T(float(s.below(50)));
            if (headers) {
                uint64_t v = d;
                std::memcpy(static_cast<void*>(&x), &v, sizeof x);
            }
            put(b, x);
        }
    };
    Bytes b;
    switch (format) {
        case 0: break;
        case 1:
            put(b, uint32_t(n));
            put(b, uint32_t(d));
            break;
        case 2:
            put(b, uint64_t(0xcad4a6b2579980feull));
            b.resize(24);
            put(b, uint64_t(n));
            put(b, uint64_t(d));
            b.resize(1024);
            break;
        default:
            put(b, uint64_t(0xf83ad4901d434f04ull));
            put(b, uint64_t(n));
            put(b, uint64_t(d));
            b.resize(64);
            break;
    }
    for (size_t i = 0; i < n; ++i) {
        if (format == 0) put(b, uint32_t(d));
        row(b);
    }
    fs::path dir = ctx.scratch + "/raw";
    fs::create_directories(dir);
    fs::path p = dir / (std::string("file.") + (format == 0 ? g.pick<std::string>({"fvecs", "bvecs", "hvecs", "ivecs", "vecs"}) : format == 1 ? "fbin" : "svs"));
    spit(p, b);
    size_t how = g.raw(2), limit = g.raw(2) ? svs::Dynamic : g.range(0, n + 2);
    ctx.label(names[format]);
    std::string what = fmt::format("{} file of {}x{} elements of {} bytes", names[format], n, d, sizeof(T));
    // Whole vectors more or fewer cannot be told in a vecs file.
    auto unseen = [&](const Damage& dm, bool partial) {
        size_t line = 4 + d * sizeof(T);
        if (dm.must_throw && (partial || (format == 0 && fs::file_size(p) % line == 0))) {
            throw std::runtime_error("not looked at");
        }
    };
    try_damages(g, ctx, Snapshot(dir), what, [&](const Damage& dm) {
        auto each = [&](auto&& file) {
            auto r = file.reader(svs::lib::Type<T>(), limit);
            size_t count = 0;
            for (auto it = r.begin(); it != r.end(); ++it) {
                auto v = *it;
                double sum = 0;
                VH_REQUIRE(v.size() == r.ndims(), "row of {} elements instead of {}", v.size(), r.ndims());
                for (auto x : v) sum += double(float(x));
                ++count;
            }
            VH_REQUIRE(count <= limit, "{} vectors instead of {}", count, limit);
        };
        switch (how) {
            case 0:
                check(svs::data::SimpleData<T>::load(p), p, format, what + " with " + dm.what);
                return unseen(dm, false);
            case 1: {
                auto x = svs::data::SimpleData<T, svs::Dynamic, svs::data::Blocked<svs::HugepageAllocator<T>>>::load(p, svs::data::Blocked<svs::HugepageAllocator<T>>(svs::data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(10)}));
                auto y = svs::data::SimpleData<T>(x.size(), x.dimensions());
                svs::data::copy(x, y);
                check(y, p, format, what + " with " + dm.what);
                return unseen(dm, false);
            }
            default: break;
        }
        // The readers alone.  A limited reader may not look at all of the file.
        (void)io::deduce_dimensions(p);
        try {
            if (format == 0) {
                each(io::vecs::VecsFile(p));
            } else if (format == 1) {
                each(io::binary::BinaryFile(p));
            } else if (format == 2) {
                each(io::v1::NativeFile(p));
            } else {
                each(io::vtest::NativeFile(p));
            }
        } catch (const vh::Fail&) {
            throw;
        }
        unseen(dm, limit < n);
    });
}
} // namespace

VH_CASES("raw files", 8) {
    switch (g.raw(4)) {
        case 0: return raw<float>(g, ctx);
        case 1: return raw<uint8_t>(g, ctx);
        case 2: return raw<Float16>(g, ctx);
        case 3: return raw<int32_t>(g, ctx);
        default: return raw<double>(g, ctx);
    }
}
