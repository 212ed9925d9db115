// C21: numeric conversions and helpers against exact arithmetic.
#include "svsgen.hpp"
#include "vh.hpp"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/core/distance/simd_utils.h"
#include "svs/lib/algorithms.h"
#include "svs/lib/float16.h"
#include "svs/lib/misc.h"
#include "svs/lib/narrow.h"
#include "svs/lib/static.h"

#include <cfenv>
#include <cmath>
#include <cstring>
#include <functional>
#include <list>
#include <set>

namespace {
using namespace svs;

float float_of(uint32_t b) {
    float f;
    std::memcpy(&f, &b, 4);
    return f;
}
uint32_t bits_of(float f) {
    uint32_t b;
    std::memcpy(&b, &f, 4);
    return b;
}

// The half-precision number with the given bits, exactly.
double half_value(uint16_t h) {
    int e = (h >> 10) & 31, m = h & 1023;
    double v = e == 0 ? std::ldexp(m, -24) : e == 31 ? (m ? NAN : INFINITY) : std::ldexp(1024 + m, e - 25);
    return h & 0x8000 ? -v : v;
}

// Nearest half-precision number (ties to even); -1 for not-a-number.
int nearest_half(double x) {
    if (std::isnan(x)) {
        return -1;
    }
    int sign = std::signbit(x) ? 0x8000 : 0;
    double a = std::fabs(x);
    if (a >= 65520) {
        return sign | 0x7C00;
    }
    int e = a == 0 ? -14 : std::max(std::ilogb(a), -14);
    double q = std::nearbyint(std::ldexp(a, 10 - e)); // multiple of the spacing
    if (q == 2048) {
        q = 1024;
        ++e;
    }
    if (q < 1024) {
        return sign | int(q); // denormalized: e == -14
    }
    return sign | ((e + 15) << 10) | (int(q) - 1024);
}

bool is_nan_half(uint16_t h) { return (h & 0x7C00) == 0x7C00 && (h & 0x3FF) != 0; }

bool matches(uint16_t got, int want) { return want < 0 ? is_nan_half(got) : got == want; }

///// All floats with the same upper half.
void float_to_half(vh::Gen& g, vh::Ctx& ctx) {
    static const uint32_t special[] = {0x0000, 0x3f80, 0x3880, 0x387f, 0x3300, 0x32ff, 0x477f, 0x4780, 0x7f7f, 0x7f80, 0x7fc0, 0x3380, 0x3340, 0x33c0};
    uint32_t hi = g.chance(1, 4) ? special[g.raw(13)] | (g.flip() ? 0x8000 : 0) : g.chance(1, 2) ? 0x3200 + g.raw(0x4800 - 0x3200) + (g.flip() ? 0x8000 : 0) : uint32_t(g.raw(65535));
    ctx.describe("floats {:04x}0000 to {:04x}ffff", hi, hi);
    ctx.interesting((hi & 0x7fff) >= 0x3300 && (hi & 0x7fff) < 0x4780);
    for (uint32_t lo = 0; lo < 65536; ++lo) {
        float f = float_of(hi << 16 | lo);
        int want = nearest_half(double(f));
        Float16 h(f);
        VH_REQUIRE(matches(h.raw(), want), "{:a} ({:08x}) converts to {:04x} instead of {:04x}", f, hi << 16 | lo, h.raw(), want);
        float back = h;
        if (want < 0) {
            VH_REQUIRE(std::isnan(back), "not-a-number {:08x} becomes {}", hi << 16 | lo, back);
        } else {
            VH_REQUIRE(double(back) == half_value(uint16_t(want)) && std::signbit(back) == std::signbit(f), "{:a} comes back as {:a}", f, back);
        }
        if (lo % 4096 == 0) {
            Float16 assigned;
            assigned = f;
            VH_REQUIRE(assigned.raw() == h.raw(), "assigning {:a} gives {:04x}, constructing {:04x}", f, assigned.raw(), h.raw());
            Float16 d{double(f)};
            VH_REQUIRE(matches(d.raw(), want), "the double {:a} converts to {:04x} instead of {:04x}", f, d.raw(), want);
            VH_REQUIRE(lib::narrow_cast<Float16>(f).raw() == h.raw(), "narrow_cast of {:a}", f);
            VH_REQUIRE(lib::relaxed_narrow<Float16>(f).raw() == h.raw(), "relaxed_narrow of {:a}", f);
            bool threw = false;
            Float16 n{};
            try {
                n = lib::narrow<Float16>(f);
            } catch (const lib::narrowing_error&) {
                threw = true;
            }
            bool exact = want >= 0 && half_value(uint16_t(want)) == double(f);
            VH_REQUIRE(threw == !exact, "narrowing {:a} to half precision {}", f, threw ? "is refused" : "is accepted");
            VH_REQUIRE(threw || n.raw() == uint16_t(want), "narrowing {:a} gives {:04x}", f, n.raw());
        }
    }
}

///// Half precision in bulk: datasets and distance kernels.
void halves_in_bulk(vh::Gen& g, vh::Ctx& ctx) {
    size_t n = g.skew(1, 40), dims = g.skew(1, 100);
    vh::Stream st(g.seed());
    size_t kind = g.raw(2);
    ctx.describe("{} rows of {} halves, kind {}", n, dims, kind);
    ctx.interesting(n * dims > 4);
    auto value = [&]() -> float {
        if (kind == 0) {
            return float(half_value(uint16_t(st.below(0x7C00) | (st.next() & 0x8000))));
        } else if (kind == 1) {
            // ties and their neighbours
            uint16_t h = uint16_t(st.below(0x7BFF));
            double mid = (half_value(h) + half_value(h + 1)) / 2;
            float f = float(mid);
            int step = int(st.below(3)) - 1;
            return step < 0 ? std::nextafterf(f, -INFINITY) : step > 0 ? std::nextafterf(f, INFINITY) : f;
        }
        return float_of(uint32_t(st.next()) & 0xBFFFFFFF);
    };
    data::SimpleData<float> from(n, dims);
    std::vector<std::vector<float>> rows(n, std::vector<float>(dims));
    for (size_t i = 0; i < n; ++i) {
        for (auto& x : rows[i]) {
            x = value();
        }
        from.set_datum(i, std::span<const float>(rows[i]));
    }
    data::SimpleData<Float16> to(n, dims);
    data::copy(from, to);
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < dims; ++j) {
            int want = nearest_half(rows[i][j]);
            VH_REQUIRE(matches(to.get_datum(i)[j].raw(), want), "row {} element {}: {:a} stored as {:04x} instead of {:04x}", i, j, rows[i][j], to.get_datum(i)[j].raw(), want);
        }
    }
    data::SimpleData<float> back(n, dims);
    data::copy(to, back);
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < dims; ++j) {
            double want = half_value(to.get_datum(i)[j].raw());
            float got = back.get_datum(i)[j];
            VH_REQUIRE(std::isnan(want) ? std::isnan(got) : double(got) == want, "half {:04x} widened to {:a}", to.get_datum(i)[j].raw(), got);
        }
    }
    // A distance kernel against a unit vector reads one element exactly.
    for (size_t t = 0; t < 4; ++t) {
        size_t i = g.raw(n - 1), j = g.raw(dims - 1);
        std::vector<Float16> row(dims, Float16(0.0f));
        uint16_t raw = to.get_datum(i)[j].raw();
        if (!std::isfinite(half_value(raw))) {
            continue;
        }
        row[j] = Float16::from_raw(raw);
        std::vector<float> unit(dims, 0.0f);
        unit[j] = 1.0f;
        distance::DistanceIP ip;
        float got = distance::compute(ip, std::span<const float>(unit), std::span<const Float16>(row));
        VH_REQUIRE(double(got) == half_value(raw), "the distance kernel reads {:04x} at {} of {} as {:a}", raw, j, dims, got);
        std::vector<Float16> hunit(dims, Float16(0.0f));
        hunit[j] = Float16(1.0f);
        got = distance::compute(ip, std::span<const Float16>(row), std::span<const Float16>(hunit));
        VH_REQUIRE(double(got) == half_value(raw), "the distance kernel of halves reads {:04x} at {} of {} as {:a}", raw, j, dims, got);
    }
    // Comparison, hashing
    uint16_t a = uint16_t(g.raw(65535)), b = g.flip() ? uint16_t(a ^ 0x8000) : uint16_t(g.raw(65535));
    double va = half_value(a), vb = half_value(b);
    Float16 ha = Float16::from_raw(a), hb = Float16::from_raw(b);
    VH_REQUIRE((ha == hb) == (va == vb), "{:04x} == {:04x} is {}", a, b, ha == hb);
    if (va == vb) {
        VH_REQUIRE(std::hash<Float16>()(ha) == std::hash<Float16>()(hb), "equal halves {:04x} and {:04x} hash differently", a, b);
    }
    VH_REQUIRE(ha.raw() == a, "raw value {:04x} comes back as {:04x}", a, ha.raw());
}

///// narrow
template <typename T> T pick_value(vh::Gen& g) {
    if constexpr (std::is_same_v<T, Float16>) {
        return Float16::from_raw(uint16_t(g.raw(65535)));
    } else if constexpr (std::is_floating_point_v<T>) {
        switch (g.raw(6)) {
            case 0: return T(int(g.raw(600)) - 300);
            case 1: { // around powers of two
                T p = std::ldexp(T(1), int(g.raw(66)));
                size_t k = g.raw(4);
                T v = k == 0 ? p : k == 1 ? std::nextafter(p, T(0)) : k == 2 ? std::nextafter(p, T(INFINITY)) : k == 3 ? p - 1 : p + 1;
                return g.flip() ? v : -v;
            }
            case 2: return T(int(g.raw(600)) - 300) / T(4);
            case 3: return std::numeric_limits<T>::infinity() * (g.flip() ? 1 : -1);
            case 4: return std::numeric_limits<T>::quiet_NaN();
            case 5: {
                uint64_t b = g.seed();
                T v;
                std::memcpy(&v, &b, sizeof v);
                return v;
            }
            default: return g.flip() ? T(half_value(uint16_t(g.raw(65535)))) : T(float_of(uint32_t(g.seed())));
        }
    } else {
        switch (g.raw(4)) {
            case 0: return T(g.raw(600)) - T(std::is_signed_v<T> ? 100 : 0);
            case 1: return std::numeric_limits<T>::max() - T(g.raw(3));
            case 2: return std::numeric_limits<T>::min() + T(g.raw(3));
            case 3: {
                uint64_t p = uint64_t(1) << g.raw(63);
                uint64_t v = p + g.raw(2) - 1;
                return g.flip() ? T(v) : T(-v);
            }
            default: return T(g.seed());
        }
    }
}

// Exact (long double has a 64-bit significand).
template <typename T> long double exact(T x) {
    if constexpr (std::is_same_v<T, Float16>) {
        return half_value(x.raw());
    } else {
        return x;
    }
}

template <typename T> bool representable(long double x) {
    if (std::isnan(x)) {
        return false;
    }
    if constexpr (std::is_same_v<T, Float16>) {
        if (std::isinf(x)) {
            return true;
        }
        return std::fabs(x) <= 65504 && (long double)half_value(uint16_t(nearest_half(double(x)))) == x && (long double)double(x) == x;
    } else if constexpr (std::is_floating_point_v<T>) {
        return std::isinf(x) || (std::fabs(x) <= (long double)std::numeric_limits<T>::max() && (long double)T(x) == x);
    } else {
        return x == std::trunc(x) && x >= (long double)std::numeric_limits<T>::min() && x <= (long double)std::numeric_limits<T>::max();
    }
}

template <typename T> const char* type_name() {
    static const std::string s(svs::name(datatype_v<T>));
    return s.c_str();
}

// Types that half precision converts from.
template <typename X> constexpr bool with_half = std::is_same_v<X, Float16> || std::is_floating_point_v<X> || sizeof(X) <= 2 || std::is_same_v<X, int> || std::is_same_v<X, size_t>;

template <typename T, typename U> void narrow_one(vh::Gen& g, vh::Ctx& ctx) {
    if constexpr ((!std::is_same_v<T, Float16> || with_half<U>) && (!std::is_same_v<U, Float16> || with_half<T>)) {
        U u = pick_value<U>(g);
        long double x = exact(u);
        ctx.trace("narrow {} {:a} to {}", type_name<U>(), double(x), type_name<T>());
        bool fits = representable<T>(x);
        T t{};
        bool threw = false;
        try {
            t = lib::narrow<T>(u);
        } catch (const lib::narrowing_error&) {
            threw = true;
        }
        // Converting to the same type is the identity.
        if (std::is_same_v<T, U>) {
            VH_REQUIRE(!threw && (exact(t) == x || std::isnan(x)), "{} {} to itself", type_name<U>(), double(x));
        } else if (threw) {
            VH_REQUIRE(!fits, "{} {:a} is refused as {}", type_name<U>(), double(x), type_name<T>());
        } else {
            VH_REQUIRE(fits && exact(t) == x, "{} {:a} becomes {} {:a}", type_name<U>(), double(x), type_name<T>(), double(exact(t)));
        }
        if constexpr (!(std::is_same_v<U, double> && std::is_same_v<T, float>) && !(std::is_same_v<U, float> && std::is_same_v<T, Float16>)) {
            bool threw2 = false;
            T t2{};
            try {
                t2 = lib::relaxed_narrow<T>(u);
            } catch (const lib::narrowing_error&) {
                threw2 = true;
            }
            VH_REQUIRE(threw2 == threw && (threw || exact(t2) == exact(t) || std::isnan(x)), "relaxed narrowing of {} {:a} to {} differs", type_name<U>(), double(x), type_name<T>());
        } else if (!std::isnan(x)) {
            T t2 = lib::relaxed_narrow<T>(u);
            VH_REQUIRE(exact(t2) == exact(static_cast<T>(u)), "relaxed narrowing of {} {:a} to {} differs from a cast", type_name<U>(), double(x), type_name<T>());
        }
    } else {
        (void)g;
        (void)ctx;
    }
}

template <typename U> void narrow_from(vh::Gen& g, vh::Ctx& ctx) {
    switch (g.raw(10)) {
        case 0: narrow_one<int8_t, U>(g, ctx); break;
        case 1: narrow_one<uint8_t, U>(g, ctx); break;
        case 2: narrow_one<int16_t, U>(g, ctx); break;
        case 3: narrow_one<uint16_t, U>(g, ctx); break;
        case 4: narrow_one<int32_t, U>(g, ctx); break;
        case 5: narrow_one<uint32_t, U>(g, ctx); break;
        case 6: narrow_one<int64_t, U>(g, ctx); break;
        case 7: narrow_one<uint64_t, U>(g, ctx); break;
        case 8: narrow_one<float, U>(g, ctx); break;
        case 9: narrow_one<double, U>(g, ctx); break;
        default: narrow_one<Float16, U>(g, ctx); break;
    }
}

void narrow_case(vh::Gen& g, vh::Ctx& ctx) {
    ctx.describe("narrowing\n");
    ctx.interesting(true);
    for (size_t i = 0; i < 24; ++i) {
        switch (g.raw(10)) {
            case 0: narrow_from<int8_t>(g, ctx); break;
            case 1: narrow_from<uint8_t>(g, ctx); break;
            case 2: narrow_from<int16_t>(g, ctx); break;
            case 3: narrow_from<uint16_t>(g, ctx); break;
            case 4: narrow_from<int32_t>(g, ctx); break;
            case 5: narrow_from<uint32_t>(g, ctx); break;
            case 6: narrow_from<int64_t>(g, ctx); break;
            case 7: narrow_from<uint64_t>(g, ctx); break;
            case 8: narrow_from<float>(g, ctx); break;
            case 9: narrow_from<double>(g, ctx); break;
            default: narrow_from<Float16>(g, ctx); break;
        }
    }
}

///// Helpers
size_t wide(vh::Gen& g) {
    switch (g.raw(3)) {
        case 0: return g.raw(20);
        case 1: return (size_t(1) << g.raw(63)) + g.raw(2) - 1;
        case 2: return std::numeric_limits<size_t>::max() - g.raw(5);
        default: return g.seed() >> g.raw(63);
    }
}

using u128 = unsigned __int128;

template <size_t V> void mask_of(size_t n) {
    uint64_t got = uint64_t(create_mask<V>(lib::MaybeStatic(n)));
    size_t rest = n % V;
    constexpr size_t bits = 8 * sizeof(mask_repr_t<V>);
    uint64_t all = bits == 64 ? ~uint64_t(0) : (uint64_t(1) << bits) - 1;
    uint64_t want = rest == 0 ? all : (uint64_t(1) << rest) - 1;
    VH_REQUIRE(got == want, "mask of {} lanes for {} elements is {:x} instead of {:x}", V, n, got, want);
    VH_REQUIRE(uint64_t(no_mask<V>()) == all, "full mask of {} lanes", V);
}

template <size_t Step> void last_of(size_t n, size_t i) {
    bool want = n > 0 && i % Step == 0 && i < n && n - i <= Step;
    bool got = lib::islast<Step>(lib::MaybeStatic(n), i);
    if (n > 0 && i % Step == 0) {
        VH_REQUIRE(got == want, "iteration at {} of {} in steps of {} is {}the last", i, n, Step, got ? "" : "not ");
    }
}

void helpers(vh::Gen& g, vh::Ctx& ctx) {
    size_t x = wide(g), y = std::max<size_t>(1, wide(g));
    ctx.describe("helpers of {} and {}", x, y);
    ctx.interesting(x > 1 && y > 1);
    VH_REQUIRE(lib::div_round_up(x, y) == size_t((u128(x) + y - 1) / y), "{} / {} rounded up is {}", x, y, lib::div_round_up(x, y));
    u128 multiple = (u128(x) + y - 1) / y * y;
    if (multiple <= std::numeric_limits<size_t>::max()) {
        VH_REQUIRE(lib::round_up_to_multiple_of(x, y) == size_t(multiple), "{} rounded up to a multiple of {} is {}", x, y, lib::round_up_to_multiple_of(x, y));
    }
    if (x > 0) {
        auto p = lib::prevpow2(x);
        size_t log = 0;
        while (log < 63 && (x >> (log + 1)) != 0) {
            ++log;
        }
        VH_REQUIRE(p.raw() == log && p.value() == size_t(1) << log, "the power of two below {} is {}", x, p.value());
        VH_REQUIRE(p.mod_mask() == p.value() - 1, "mask of {}", p.value());
        VH_REQUIRE(y / p == y / p.value(), "{} / {} is {}", y, p.value(), y / p);
        VH_REQUIRE(y % p == y % p.value(), "{} % {} is {}", y, p.value(), y % p);
        VH_REQUIRE(y * p == y * p.value() && p * y == y * p.value(), "{} * {} is {}", y, p.value(), y * p);
        VH_REQUIRE((p == lib::PowerOfTwo(log)) && !(p == lib::PowerOfTwo(log ^ 1)), "comparison of powers of two");
    } else {
        VH_REQUIRE(vh::throws([&] { (void)lib::prevpow2(0); }), "0 has a previous power of two");
    }
    size_t align = x % 64 == 0 ? 64 : x % 32 == 0 ? 32 : 0;
    VH_REQUIRE(lib::compute_alignment(x) == align, "alignment of {} is {}", x, lib::compute_alignment(x));
    size_t n = g.raw(300);
    mask_of<4>(n);
    mask_of<8>(n);
    mask_of<16>(n);
    mask_of<32>(n);
    mask_of<64>(n);
    size_t i = g.raw(310);
    last_of<1>(n, i);
    last_of<4>(n, i);
    last_of<16>(n, i / 16 * 16);
    last_of<64>(n, i / 64 * 64);
}

void sequences(vh::Gen& g, vh::Ctx& ctx) {
    size_t n = g.skew(0, 60), m = g.skew(0, 60);
    vh::Stream st(g.seed());
    size_t range = g.skew(1, 200);
    std::vector<int> a(n), b(m);
    for (auto& v : a) {
        v = int(st.below(range)) - int(range / 2);
    }
    for (auto& v : b) {
        v = int(st.below(range)) - int(range / 2);
    }
    ctx.describe("sequences {} and {}", vh::show(a, 60), vh::show(b, 60));
    ctx.interesting(n > 2 && m > 2);
    std::set<int> sa(a.begin(), a.end()), sb(b.begin(), b.end());
    size_t common = 0;
    for (auto v : sa) {
        common += sb.count(v);
    }
    VH_REQUIRE(lib::count_intersect(a, b) == common, "intersection of {} elements instead of {}", lib::count_intersect(a, b), common);
    VH_REQUIRE(lib::ranges::all_unique(a) == (sa.size() == n), "all_unique of {}", vh::show(a, 60));
    VH_REQUIRE(lib::all_unique(b.begin(), b.end()) == (sb.size() == m), "all_unique of {}", vh::show(b, 60));
    if (n > 0) {
        auto mm = lib::extrema(a.begin(), a.end());
        VH_REQUIRE(mm.min == *sa.begin() && mm.max == *sa.rbegin(), "extrema {} and {}", mm.min, mm.max);
        std::vector<float> f(a.begin(), a.end());
        auto mf = lib::extrema(f.begin(), f.end());
        VH_REQUIRE(mf.min == float(*sa.begin()) && mf.max == float(*sa.rbegin()), "extrema {} and {}", mf.min, mf.max);
    }
    bool down = g.flip();
    auto cmp = [down](int p, int q) { return down ? p > q : p < q; };
    std::sort(a.begin(), a.end(), cmp);
    std::sort(b.begin(), b.end(), cmp);
    std::vector<int> all;
    all.insert(all.end(), a.begin(), a.end());
    all.insert(all.end(), b.begin(), b.end());
    std::sort(all.begin(), all.end(), cmp);
    size_t k = g.raw(n + m);
    std::vector<int> out(k, 12345);
    lib::ranges::bounded_merge(a, b, out, cmp);
    all.resize(k);
    VH_REQUIRE(out == all, "merging the first {}: {} instead of {}", k, vh::show(out, 60), vh::show(all, 60));
}

vh::Register r1{"float to half precision", 3, float_to_half};
vh::Register r2{"half precision in bulk", 2, halves_in_bulk};
vh::Register r3{"narrowing", 4, narrow_case};
vh::Register r4{"integer helpers", 2, helpers};
vh::Register r5{"sequence helpers", 2, sequences};
} // namespace
