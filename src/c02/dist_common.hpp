#pragma once
#include "svsgen.hpp"
#include <sys/mman.h>
#include <unistd.h>

namespace c02 {
using namespace vg;

// Memory with an unreadable page on both sides.
class Guarded {
    char* base_;
    size_t bytes_;

  public:
    static constexpr size_t page = 4096;
    explicit Guarded(size_t bytes)
        : bytes_{(bytes + page - 1) / page * page} {
        base_ = static_cast<char*>(
            mmap(nullptr, bytes_ + 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)
        );
        mprotect(base_, page, PROT_NONE);
        mprotect(base_ + page + bytes_, page, PROT_NONE);
    }
    ~Guarded() { munmap(base_, bytes_ + 2 * page); }
    Guarded(const Guarded&) = delete;
    char* first() { return base_ + page; }
    char* last() { return base_ + page + bytes_; }
    size_t size() const { return bytes_; }
};

constexpr size_t MAXDIM = 1100;

// Lay out a vector: flush with the end of readable memory, with its start, or misaligned in
// the middle with poison on both sides.
template <typename T> T* place(Guarded& mem, const std::vector<T>& v, size_t mode, size_t shift) {
    std::memset(mem.first(), mode == 3 ? 0xFF : 0x7F, mem.size()); // NaN / large values
    char* at;
    size_t bytes = v.size() * sizeof(T);
    if (mode == 0) {
        at = mem.last() - bytes;
    } else if (mode == 1) {
        at = mem.first();
    } else {
        at = mem.first() + 64 + shift * sizeof(T);
    }
    std::memcpy(at, v.data(), bytes);
    return reinterpret_cast<T*>(at);
}

template <typename D, typename A, typename B, size_t NA, size_t NB>
float evaluate(D d, const A* a, const B* b, size_t n) {
    auto sa = std::span<const A, NA>(a, n);
    auto sb = std::span<const B, NB>(b, n);
    svs::distance::maybe_fix_argument(d, sa);
    return svs::distance::compute(d, sa, sb);
}

template <typename D, typename A, typename B> using StaticFn = std::array<float, 3> (*)(D, const A*, const B*);

// A static extent on both sides, and on either side only.
template <typename D, typename A, typename B, size_t N>
std::array<float, 3> evaluate_static(D d, const A* a, const B* b) {
    return {evaluate<D, A, B, N, N>(d, a, b, N), evaluate<D, A, B, N, svs::Dynamic>(d, a, b, N),
            evaluate<D, A, B, svs::Dynamic, N>(d, a, b, N)};
}

template <typename D, typename A, typename B> const std::vector<std::pair<size_t, StaticFn<D, A, B>>>& statics() {
    static const auto table = []<size_t... Ns>(std::index_sequence<Ns...>) {
        return std::vector<std::pair<size_t, StaticFn<D, A, B>>>{
            {Ns, &evaluate_static<D, A, B, Ns>}...};
    }(std::index_sequence<1, 3, 8, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 129>());
    return table;
}

template <typename T> void extremes(std::vector<T>& v, vh::Stream& s) {
    for (auto& x : v) {
        if constexpr (std::is_same_v<T, int8_t>) {
            x = s.below(3) ? (s.below(2) ? -128 : 127) : int8_t(s.below(256));
        } else if constexpr (std::is_same_v<T, uint8_t>) {
            x = s.below(3) ? (s.below(2) ? 255 : 0) : uint8_t(s.below(256));
        } else if constexpr (std::is_same_v<T, Float16>) {
            x = Float16(float(s.gauss() * (s.below(2) ? 1000 : 0.001)));
        } else {
            x = T(s.gauss() * (s.below(2) ? 1e4 : 1e-4));
        }
    }
}

template <typename D, typename A, typename B> void kernel(vh::Gen& g, vh::Ctx& ctx) {
    constexpr Dist kind = dist_tag<D>::value;
    bool use_static = g.flip();
    size_t n;
    size_t which = 0;
    if (use_static) {
        which = g.raw(statics<D, A, B>().size() - 1);
        n = statics<D, A, B>()[which].first;
    } else {
        n = g.chance(1, 8) ? g.range(1, MAXDIM) : g.range(1, 150);
    }
    size_t values = g.raw(NUM_KINDS); // NUM_KINDS = extremes
    uint64_t seed = g.seed();
    size_t mode_a = g.raw(3), mode_b = g.raw(3);
    size_t shift_a = g.raw(63), shift_b = g.raw(63);
    bool same = g.chance(1, 8); // equal vectors
    std::vector<A> a(n);
    std::vector<B> b(n);
    if (values < NUM_KINDS) {
        a = matrix<A>(1, n, values, seed).v;
        b = matrix<B>(1, n, values, same ? seed : seed + 1).v;
    } else {
        vh::Stream s(seed);
        extremes(a, s);
        vh::Stream s2(same ? seed : seed + 1);
        extremes(b, s2);
    }
    if (g.chance(1, 6)) { // one single nonzero difference, anywhere
        size_t at = g.range(0, n - 1);
        for (size_t i = 0; i < n; ++i) {
            a[i] = to_elem<A>(i == at ? 3 : 0);
            b[i] = to_elem<B>(i == at ? 5 : kind == Dist::Cosine && i == 0 ? 1 : 0);
        }
    }
    ctx.describe("{}({}, {}) n={} {} values={} placement {}/{} shift {}/{}", dist_name(kind), type_name<A>(), type_name<B>(), n, use_static ? "static" : "dynamic", values < NUM_KINDS ? kind_name(values) : "extremes", mode_a, mode_b, shift_a, shift_b);
    static Guarded mem_a(8192), mem_b(8192);
    auto* pa = place(mem_a, a, mode_a, shift_a);
    auto* pb = place(mem_b, b, mode_b, shift_b);
    auto ref = ref_distance(kind, a.data(), b.data(), n);
    if (std::isnan(ref.value)) {
        throw vh::Discard{};
    }
    double tol = kind_exact(values) && kind != Dist::Cosine ? 0 : ref.tol;
    auto judge = [&](double got, const char* how) {
        VH_REQUIRE(std::abs(got - ref.value) <= tol, "{}: got {}, exact value {}, tolerance {}; a={} b={}", how, got, ref.value, tol,
                   vh::show(std::vector<float>(a.begin(), a.end()), 12), vh::show(std::vector<float>(b.begin(), b.end()), 12));
    };
    float dyn = evaluate<D, A, B, svs::Dynamic, svs::Dynamic>(D(), pa, pb, n);
    judge(dyn, "run-time length");
    if (use_static) {
        auto st = statics<D, A, B>()[which].second(D(), pa, pb);
        judge(st[0], "compile-time length");
        judge(st[1], "compile-time length on the left");
        judge(st[2], "compile-time length on the right");
    }
    // The same call again gives the same bits (nothing is read that is not an argument).
    pa = place(mem_a, a, mode_a == 3 ? 2 : 3, shift_b);
    pb = place(mem_b, b, mode_b == 3 ? 2 : 3, shift_a);
    float again = evaluate<D, A, B, svs::Dynamic, svs::Dynamic>(D(), pa, pb, n);
    VH_REQUIRE(again == dyn, "depends on where the vectors lie: {} and {}", dyn, again);
    ctx.label(n % 16 == 0 ? "whole registers" : "with a tail");
    ctx.interesting(n > 1);
}

// One functor shared by many evaluations, as a search does: fix once, evaluate many.
template <typename D, typename Q, typename T> void reuse(vh::Gen& g, vh::Ctx& ctx) {
    constexpr Dist kind = dist_tag<D>::value;
    size_t n = g.range(1, 100), rows = g.range(1, 6), queries = g.range(1, 4);
    size_t values = g.raw(NUM_KINDS - 1);
    auto q = matrix<Q>(queries, n, values, g.seed());
    auto x = matrix<T>(rows, n, values, g.seed());
    ctx.describe("reused {} functor: {} queries ({}) against {} rows ({}) n={} {}", dist_name(kind), queries, type_name<Q>(), rows, type_name<T>(), n, kind_name(values));
    D d{};
    auto many = svs::distance::BroadcastDistance<D>(D(), queries);
    for (size_t i = 0; i < queries; ++i) {
        svs::distance::maybe_fix_argument(d, q.span(i));
        svs::distance::maybe_fix_argument(many[i], q.span(i));
        for (size_t j = 0; j < rows; ++j) {
            auto ref = ref_distance(kind, q.row(i), x.row(j), n);
            if (std::isnan(ref.value)) {
                continue;
            }
            double tol = kind_exact(values) && kind != Dist::Cosine ? 0 : ref.tol;
            double got = svs::distance::compute(d, q.span(i), x.span(j));
            VH_REQUIRE(std::abs(got - ref.value) <= tol, "query {} row {}: {} instead of {}", i, j, got, ref.value);
        }
    }
    for (size_t j = 0; j < rows; ++j) { // broadcast copies are independent
        for (size_t i = 0; i < queries; ++i) {
            auto ref = ref_distance(kind, q.row(i), x.row(j), n);
            if (std::isnan(ref.value)) {
                continue;
            }
            double tol = kind_exact(values) && kind != Dist::Cosine ? 0 : ref.tol;
            double got = svs::distance::compute(many[i], q.span(i), x.span(j));
            VH_REQUIRE(std::abs(got - ref.value) <= tol, "broadcast query {} row {}: {} instead of {}", i, j, got, ref.value);
        }
    }
    // Comparison: smaller distances, but larger similarities, are nearer.
    auto cmp = svs::distance::compare_t<D>();
    float u = float(double(g.raw(2000)) - 1000), v = float(double(g.raw(2000)) - 1000);
    VH_REQUIRE(cmp(svs::Neighbor<size_t>(0, u), svs::Neighbor<size_t>(1, v)) == nearer(kind, u, v), "comparison of {} and {} is the wrong way round", u, v);
    VH_REQUIRE(cmp(u, v) == nearer(kind, u, v), "comparison of raw values {} and {}", u, v);
    ctx.interesting(rows * queries > 1);
}

template <typename D> void register_all(const char* name) {
    auto reg = [&]<typename A, typename B>(A, B, unsigned w) {
        vh::Register(fmt::format("{} {} x {}", name, type_name<A>(), type_name<B>()), w, &kernel<D, A, B>);
    };
    reg(float(), float(), 3);
    reg(float(), Float16(), 2);
    reg(Float16(), float(), 2);
    reg(Float16(), Float16(), 2);
    reg(float(), int8_t(), 2);
    reg(float(), uint8_t(), 2);
    reg(int8_t(), int8_t(), 3);
    reg(uint8_t(), uint8_t(), 3);
    reg(int8_t(), float(), 1);
    reg(uint8_t(), float(), 1);
    vh::Register(fmt::format("{} reuse float x float", name), 1, &reuse<D, float, float>);
    vh::Register(fmt::format("{} reuse float x float16", name), 1, &reuse<D, float, Float16>);
    vh::Register(fmt::format("{} reuse uint8 x uint8", name), 1, &reuse<D, uint8_t, uint8_t>);
    vh::Register(fmt::format("{} reuse float x int8", name), 1, &reuse<D, float, int8_t>);
}
} // namespace c02
