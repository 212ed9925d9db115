// C14: dense arrays and their views against a flat list of elements.
#include "vh.hpp"
#include "svs/core/allocator.h"
#include "svs/core/data/simple.h"
#include "svs/lib/array.h"

#include <map>
#include <numeric>

namespace {
using namespace svs;

// Counts what is handed out and taken back, separately for each arena.
struct Arenas {
    std::map<void*, std::pair<int, size_t>> live;
    std::string complaint;
};
Arenas& arenas() {
    static Arenas a;
    return a;
}
// Arenas which differ cannot free each other's memory.
template <typename T, bool Propagate> struct ArenaAllocator {
    using value_type = T;
    using propagate_on_container_copy_assignment = std::bool_constant<Propagate>;
    using propagate_on_container_move_assignment = std::bool_constant<Propagate>;
    using propagate_on_container_swap = std::true_type;
    using is_always_equal = std::false_type;
    int arena = 0;
    ArenaAllocator() = default;
    explicit ArenaAllocator(int a)
        : arena{a} {}
    T* allocate(size_t n) {
        auto* p = static_cast<T*>(::operator new(std::max<size_t>(n * sizeof(T), 1)));
        std::memset(static_cast<void*>(p), 0x5a, n * sizeof(T));
        arenas().live[p] = {arena, n};
        return p;
    }
    void deallocate(T* p, size_t n) {
        auto it = arenas().live.find(p);
        if (it == arenas().live.end()) {
            arenas().complaint = "something that was not allocated is freed";
            return;
        }
        if (it->second != std::pair<int, size_t>{arena, n}) {
            arenas().complaint = fmt::format("{} elements of arena {} are freed as {} of arena {}", it->second.second, it->second.first, n, arena);
        }
        arenas().live.erase(it);
        ::operator delete(p);
    }
    template <typename U> void construct(U* p) { ::new (static_cast<void*>(p)) U(); }
    template <typename U, typename V> void construct(U* p, V&& v) { ::new (static_cast<void*>(p)) U(static_cast<V&&>(v)); }
    friend bool operator==(const ArenaAllocator& a, const ArenaAllocator& b) { return a.arena == b.arena; }
};

template <typename Alloc> Alloc make_alloc(vh::Gen& g) {
    if constexpr (requires(Alloc a) { a.arena; }) {
        return Alloc(int(g.raw(2)));
    } else {
        return Alloc();
    }
}
template <typename Dims> struct MakeDims;
template <> struct MakeDims<std::tuple<size_t>> {
    static std::tuple<size_t> make(vh::Gen& g) { return {g.skew(0, 40)}; }
};
template <> struct MakeDims<std::tuple<size_t, size_t>> {
    static std::tuple<size_t, size_t> make(vh::Gen& g) { return {g.skew(0, 12), g.skew(0, 12)}; }
};
template <size_t N> struct MakeDims<std::tuple<size_t, lib::Val<N>>> {
    static std::tuple<size_t, lib::Val<N>> make(vh::Gen& g) { return {g.skew(0, 12), lib::Val<N>()}; }
};
template <> struct MakeDims<std::tuple<size_t, size_t, size_t>> {
    static std::tuple<size_t, size_t, size_t> make(vh::Gen& g) { return {g.skew(0, 6), g.skew(0, 6), g.skew(0, 6)}; }
};
template <size_t N> struct MakeDims<std::tuple<lib::Val<N>, size_t, size_t>> {
    static std::tuple<lib::Val<N>, size_t, size_t> make(vh::Gen& g) { return {lib::Val<N>(), g.skew(0, 6), g.skew(0, 6)}; }
};

template <size_t N> struct Shape {
    std::array<size_t, N> d;
    size_t size() const { return std::accumulate(d.begin(), d.end(), size_t(1), std::multiplies<>()); }
    size_t at(const std::array<size_t, N>& i) const {
        size_t o = 0;
        for (size_t k = 0; k < N; ++k) {
            o = o * d[k] + i[k];
        }
        return o;
    }
    std::array<size_t, N> back(size_t o) const {
        std::array<size_t, N> i{};
        for (size_t k = N; k-- > 0;) {
            i[k] = o % d[k];
            o /= d[k];
        }
        return i;
    }
};
template <typename Array, size_t N> decltype(auto) at(Array& a, const std::array<size_t, N>& i) {
    return std::apply([&](auto... x) -> decltype(auto) { return a.at(x...); }, i);
}
// All indices but the last.
template <typename Array, size_t N> auto slice(Array& a, const std::array<size_t, N>& i) {
    if constexpr (N == 1) {
        return a.slice();
    } else if constexpr (N == 2) {
        return a.slice(i[0]);
    } else {
        return a.slice(i[0], i[1]);
    }
}

template <typename Dims, typename T> struct Held {
    static constexpr size_t N = std::tuple_size_v<Dims>;
    Shape<N> shape{};
    std::vector<T> v{};
};

template <typename Dims, typename T, typename Array>
void compare(const Array& a, const Held<Dims, T>& m, const char* when) {
    constexpr size_t N = Held<Dims, T>::N;
    VH_REQUIRE(a.ndims() == N && a.dims() == m.shape.d, "the dimensions are {} instead of {} {}", vh::show(std::vector<size_t>(a.dims().begin(), a.dims().end())), vh::show(std::vector<size_t>(m.shape.d.begin(), m.shape.d.end())), when);
    VH_REQUIRE(a.size() == m.v.size(), "size {} instead of {} {}", a.size(), m.v.size(), when);
    VH_REQUIRE(a.bytes() == m.v.size() * sizeof(T), "{} bytes {}", a.bytes(), when);
    VH_REQUIRE(size_t(a.end() - a.begin()) == m.v.size() && a.begin() == a.data(), "the iterators span {} {}", a.end() - a.begin(), when);
    VH_REQUIRE(svs::getsize<0>(a) == m.shape.d[0] && a.template getsize<N - 1>() == m.shape.d[N - 1], "getsize differs {}", when);
    auto st = a.strides();
    size_t s = 1;
    for (size_t k = N; k-- > 0;) {
        VH_REQUIRE(st[k] == s, "stride {} is {} instead of {} {}", k, st[k], s, when);
        s *= m.shape.d[k];
    }
    for (size_t o = 0; o < m.v.size(); ++o) {
        auto i = m.shape.back(o);
        VH_REQUIRE(at(a, i) == m.v[o], "element {} is {} instead of {} {}", o, double(at(a, i)), double(m.v[o]), when);
        VH_REQUIRE(a.data()[o] == m.v[o], "element {} differs in memory {}", o, when);
        if (i[N - 1] == 0) {
            auto sl = slice(a, i);
            VH_REQUIRE(sl.size() == m.shape.d[N - 1], "a slice has {} elements {}", sl.size(), when);
            for (size_t k = 0; k < sl.size(); ++k) {
                VH_REQUIRE(sl[k] == m.v[o + k], "slice element {} differs {}", k, when);
            }
        }
    }
    if (!m.v.empty()) {
        VH_REQUIRE(a.first() == m.v.front() && a.last() == m.v.back(), "first() or last() differs {}", when);
    }
}

template <typename T, typename Dims, typename Alloc> void dense_history(vh::Gen& g, vh::Ctx& ctx) {
    using Array = DenseArray<T, Dims, Alloc>;
    using H = Held<Dims, T>;
    arenas() = {};
    {
        struct Slot {
            std::unique_ptr<Array> a;
            std::optional<H> m; // nullopt: moved from
        };
        std::vector<Slot> slots;
        T next = 1;
        auto fill = [&](Array& a, H& m) {
            m.shape.d = a.dims();
            m.v.resize(m.shape.size());
            for (size_t o = 0; o < m.v.size(); ++o) {
                at(a, m.shape.back(o)) = m.v[o] = next;
                next = T(next + 1);
            }
        };
        auto check_all = [&](const char* when) {
            for (auto& s : slots) {
                if (s.m) {
                    compare(*s.a, *s.m, when);
                }
            }
            VH_REQUIRE(arenas().complaint.empty(), "{} {}", arenas().complaint, when);
        };
        auto fresh = [&]() {
            Slot s;
            s.a = std::make_unique<Array>(MakeDims<Dims>::make(g), make_alloc<Alloc>(g));
            s.m.emplace();
            fill(*s.a, *s.m);
            return s;
        };
        slots.push_back(fresh());
        size_t ops = g.skew(1, 25), moves = 0;
        for (size_t o = 0; o < ops; ++o) {
            auto& s = slots[g.raw(slots.size() - 1)];
            auto& t = slots[g.raw(slots.size() - 1)];
            switch (g.raw(8)) {
                case 0:
                    if (slots.size() < 5) {
                        ctx.trace(" new");
                        slots.push_back(fresh());
                    }
                    break;
                case 1: // copy construction
                    if (slots.size() < 5 && s.m) {
                        ctx.trace(" copy");
                        Slot c;
                        c.a = std::make_unique<Array>(std::as_const(*s.a));
                        c.m = s.m;
                        slots.push_back(std::move(c));
                    }
                    break;
                case 2: // move construction
                    if (slots.size() < 5 && s.m) {
                        ctx.trace(" move");
                        Slot c;
                        c.a = std::make_unique<Array>(std::move(*s.a));
                        c.m = std::move(s.m);
                        s.m.reset();
                        slots.push_back(std::move(c));
                        ++moves;
                    }
                    break;
                case 3: // copy assignment, possibly to itself or to what was moved from
                    if (s.m) {
                        ctx.trace(" assign{}", &s == &t ? " to itself" : "");
                        *t.a = std::as_const(*s.a);
                        t.m = s.m;
                    }
                    break;
                case 4: // move assignment
                    if (s.m && &s != &t) {
                        ctx.trace(" move assign");
                        *t.a = std::move(*s.a);
                        t.m = std::move(s.m);
                        s.m.reset();
                        ++moves;
                    }
                    break;
                case 5:
                    if (s.m && t.m) {
                        ctx.trace(" swap");
                        swap(*s.a, *t.a);
                        std::swap(s.m, t.m);
                    }
                    break;
                case 6: // a slice
                    if (s.m && !s.m->v.empty()) {
                        size_t at = g.raw(s.m->v.size() - 1);
                        auto i = s.m->shape.back(at);
                        size_t row = at - i[H::N - 1];
                        ctx.trace(" slice");
                        for (auto& x : slice(*s.a, i)) {
                            x = s.m->v[row++] = next;
                            next = T(next + 1);
                        }
                    }
                    break;
                case 7: // one element
                    if (s.m && !s.m->v.empty()) {
                        size_t o2 = g.raw(s.m->v.size() - 1);
                        ctx.trace(" element");
                        at(*s.a, s.m->shape.back(o2)) = s.m->v[o2] = next;
                        next = T(next + 1);
                    }
                    break;
                default: // views alias
                    if (s.m) {
                        ctx.trace(" view");
                        auto view = s.a->view();
                        auto cview = std::as_const(*s.a).view();
                        compare(view, *s.m, "in a view");
                        compare(cview, *s.m, "in a const view");
                        compare(s.a->cview(), *s.m, "in a cview");
                        VH_REQUIRE(view.data() == s.a->data(), "a view has memory of its own");
                        if (!s.m->v.empty()) {
                            size_t o2 = g.raw(s.m->v.size() - 1);
                            at(view, s.m->shape.back(o2)) = s.m->v[o2] = next;
                            next = T(next + 1);
                            auto copy = view;
                            VH_REQUIRE(copy.data() == view.data(), "a copied view does not alias");
                            compare(cview, *s.m, "in a const view");
                        }
                    }
            }
            check_all("afterwards");
        }
        ctx.describe("dense array of {} dimensions, {} operations", H::N, ops);
        ctx.interesting(ops > 3 && slots.size() > 1);
        if (moves) {
            ctx.label("moved");
        }
    }
    VH_REQUIRE(arenas().complaint.empty(), "{}", arenas().complaint);
    VH_REQUIRE(arenas().live.empty(), "{} allocations are left", arenas().live.size());
}
using D1 = std::tuple<size_t>;
using D2 = std::tuple<size_t, size_t>;
using D2s = std::tuple<size_t, lib::Val<5>>;
using D3 = std::tuple<size_t, size_t, size_t>;
using D3s = std::tuple<lib::Val<3>, size_t, size_t>;
} // namespace

static vh::Register a{"dense vector", 1, dense_history<int32_t, D1, lib::Allocator<int32_t>>};
static vh::Register b{"dense matrix", 1, dense_history<float, D2, lib::Allocator<float>>};
static vh::Register c{"dense matrix of 5", 1, dense_history<uint16_t, D2s, ArenaAllocator<uint16_t, false>>};
static vh::Register d{"dense cube", 1, dense_history<double, D3, ArenaAllocator<double, true>>};
static vh::Register e{"dense cube of 3", 1, dense_history<size_t, D3s, ArenaAllocator<size_t, false>>};
static vh::Register f{"dense bytes", 1, dense_history<uint8_t, D2, HugepageAllocator<uint8_t>>};
