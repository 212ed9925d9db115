// C14: dataset containers against a list of rows.
#pragma once
#include "svsgen.hpp"
#include "svs/core/allocator.h"
#include "svs/core/compact.h"
#include "svs/core/data/simple.h"
#include "svs/core/data/view.h"
#include "svs/lib/threads.h"

namespace c14 {
using namespace svs;

template <typename T> bool same(T a, T b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }

template <typename T> T value(vh::Stream& s, int kind) {
    double x = kind == 0 ? double(s.below(9)) - 4 : kind == 1 ? double(s.below(200)) - 100 : s.gauss() * 30;
    if constexpr (std::is_unsigned_v<T>) {
        x = std::fabs(x);
    }
    if constexpr (std::is_integral_v<T>) {
        return T(int64_t(x));
    } else if constexpr (std::is_same_v<T, Float16>) {
        return Float16(float(x));
    } else {
        return T(x);
    }
}
template <typename T> std::string show_row(const std::vector<T>& r) {
    std::vector<double> d;
    for (auto x : r) {
        d.push_back(double(float(x)));
    }
    return vh::show(d, 12);
}

template <typename T> struct Model {
    std::vector<std::optional<std::vector<T>>> rows{}; // nullopt: never written
    size_t dim = 0;
};

template <typename Data, typename T> void compare(const Data& data, const Model<T>& m, const char* when) {
    VH_REQUIRE(data.size() == m.rows.size(), "size {} instead of {} {}", data.size(), m.rows.size(), when);
    VH_REQUIRE(data.dimensions() == m.dim, "dimensions {} instead of {} {}", data.dimensions(), m.dim, when);
    VH_REQUIRE(data.capacity() >= data.size(), "capacity {} below size {} {}", data.capacity(), data.size(), when);
    auto r = data.eachindex();
    VH_REQUIRE(r.size() == m.rows.size(), "eachindex spans {} of {} rows {}", r.size(), m.rows.size(), when);
    for (size_t i = 0; i < m.rows.size(); ++i) {
        if (!m.rows[i]) {
            continue;
        }
        auto row = data.get_datum(i);
        VH_REQUIRE(row.size() == m.dim, "row {} has {} elements {}", i, row.size(), when);
        for (size_t j = 0; j < m.dim; ++j) {
            VH_REQUIRE(same<T>(row[j], (*m.rows[i])[j]), "row {} element {} is {} instead of {} {}", i, j, float(row[j]), float((*m.rows[i])[j]), when);
        }
    }
}

// One operation which writes a row from elements of type U.  Reports what an ordinary exact cast gives.
template <typename U, typename Data, typename T>
void write_other(vh::Gen& g, vh::Ctx& ctx, Data& data, Model<T>& m, size_t i) {
    vh::Stream s(g.seed());
    int kind = int(g.raw(2));
    std::vector<U> row(m.dim);
    for (auto& x : row) {
        x = value<U>(s, kind);
    }
    // Expected: exact conversion, except that double -> float and float -> half may round.
    constexpr bool lossy = (std::is_same_v<U, double> && std::is_same_v<T, float>) ||
                           (std::is_same_v<U, float> && std::is_same_v<T, Float16>);
    bool fits = true;
    std::vector<T> want(m.dim);
    for (size_t j = 0; j < m.dim; ++j) {
        if constexpr (std::is_same_v<T, Float16>) {
            want[j] = Float16(float(row[j]));
        } else if constexpr (std::is_integral_v<T>) {
            double d = double(row[j]);
            fits = fits && d == std::floor(d) && d >= double(std::numeric_limits<T>::lowest()) && d <= double(std::numeric_limits<T>::max());
            want[j] = fits ? T(int64_t(d)) : T(0);
        } else {
            want[j] = T(float(row[j]));
        }
        if constexpr (!lossy) {
            fits = fits && double(float(want[j])) == double(row[j]);
        }
    }
    ctx.trace(" convert[{}]{}", i, fits ? "" : "(unrepresentable)");
    bool threw = vh::throws([&] {
        if (g.flip()) {
            data.set_datum(i, row);
        } else {
            data.set_datum(i, std::span<const U>(row.data(), row.size()));
        }
    });
    VH_REQUIRE(threw == !fits, "writing a row of another element type {}", threw ? "was refused though every value is representable" : "was accepted though a value is not representable");
    if (fits) {
        m.rows[i] = want;
    } else {
        m.rows[i] = std::nullopt;
    }
}

template <typename Data> struct Maker;

template <typename T, size_t N, typename A> struct Maker<data::SimpleData<T, N, A>> {
    static constexpr bool blocked = false;
    static data::SimpleData<T, N, A> make(vh::Gen& g, vh::Ctx& ctx, size_t n, size_t d) {
        if (g.flip()) {
            return data::SimpleData<T, N, A>(n, d);
        }
        return data::SimpleData<T, N, A>(n, d, A());
    }
};
template <typename T, size_t N, typename A> struct Maker<data::SimpleData<T, N, data::Blocked<A>>> {
    static constexpr bool blocked = true;
    static data::SimpleData<T, N, data::Blocked<A>> make(vh::Gen& g, vh::Ctx& ctx, size_t n, size_t d) {
        // A block of 1 ... 64 rows.
        auto need = lib::prevpow2(sizeof(T) * d);
        size_t log2 = 0;
        while ((size_t(1) << log2) < need.value() * 2) {
            ++log2;
        }
        log2 += g.raw(6);
        auto params = data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(log2)};
        auto x = data::SimpleData<T, N, data::Blocked<A>>(n, d, data::Blocked<A>(params));
        ctx.trace(" [rows per block {}]", x.blocksize().value());
        VH_REQUIRE(x.blocksize_bytes().value() == size_t(1) << log2, "blocksize_bytes() {} instead of {}", x.blocksize_bytes().value(), size_t(1) << log2);
        VH_REQUIRE(x.blocksize().value() * sizeof(T) * d <= size_t(1) << log2, "a block of {} rows exceeds {} bytes", x.blocksize().value(), size_t(1) << log2);
        return x;
    }
};

// Reads and writes through selections of rows.
template <typename Data, typename T> void selection(vh::Gen& g, vh::Ctx& ctx, Data& data, Model<T>& m) {
    size_t n = m.rows.size();
    if (n == 0) {
        return;
    }
    std::vector<uint32_t> idx(g.skew(0, 20));
    bool bad = false;
    for (auto& i : idx) {
        i = uint32_t(g.raw(n - 1));
    }
    if (!idx.empty() && g.chance(1, 8)) {
        idx[g.raw(idx.size() - 1)] = uint32_t(n + g.raw(3));
        bad = true;
    }
    ctx.trace(" view of {} rows{}", idx.size(), bad ? " (out of range)" : "");
    bool threw = vh::throws([&] {
        auto cv = data::make_const_view(data, idx);
        VH_REQUIRE(cv.size() == idx.size() && cv.dimensions() == m.dim, "view of {} rows has size {}", idx.size(), cv.size());
        for (size_t i = 0; i < idx.size(); ++i) {
            VH_REQUIRE(cv.parent_id(i) == idx[i], "parent_id({}) = {}", i, cv.parent_id(i));
            if (m.rows[idx[i]]) {
                auto r = cv.get_datum(i);
                for (size_t j = 0; j < m.dim; ++j) {
                    VH_REQUIRE(same<T>(r[j], (*m.rows[idx[i]])[j]), "row {} of a view (row {} of the data) differs", i, idx[i]);
                }
            }
        }
        // Copying a view to a dataset of its own.
        bool all = std::all_of(idx.begin(), idx.end(), [&](auto i) { return bool(m.rows[i]); });
        if (all && !idx.empty()) {
            auto out = data::SimpleData<T>(idx.size(), m.dim);
            data::copy(cv, out);
            for (size_t i = 0; i < idx.size(); ++i) {
                for (size_t j = 0; j < m.dim; ++j) {
                    VH_REQUIRE(same<T>(out.get_datum(i)[j], (*m.rows[idx[i]])[j]), "copy of a view differs in row {}", i);
                }
            }
            auto wrong = data::SimpleData<T>(idx.size() + 1, m.dim);
            VH_REQUIRE(vh::throws([&] { data::copy(cv, wrong); }), "copying {} rows to {} was accepted", idx.size(), idx.size() + 1);
        }
        if (!idx.empty()) {
            auto v = data::make_view(data, idx);
            size_t i = g.raw(idx.size() - 1);
            vh::Stream s(g.seed());
            std::vector<T> row(m.dim);
            for (auto& x : row) {
                x = value<T>(s, 1);
            }
            v.set_datum(i, std::span<const T>(row.data(), row.size()));
            m.rows[idx[i]] = row;
        }
    });
    VH_REQUIRE(threw == bad, "a view with {} was {}", bad ? "an index out of range" : "valid indices", threw ? "refused" : "accepted");
    size_t lo = g.raw(n - 1), hi = g.range(lo, n - 1) + 1;
    auto rv = data::make_const_view(data, threads::UnitRange<size_t>(lo, hi));
    VH_REQUIRE(rv.size() == hi - lo, "range view of [{}, {}) has {} rows", lo, hi, rv.size());
    for (size_t i = 0; i < rv.size(); ++i) {
        VH_REQUIRE(rv.parent_id(i) == lo + i, "row {} of the range view is row {}", i, rv.parent_id(i));
        if (m.rows[lo + i]) {
            VH_REQUIRE(same<T>(rv.get_datum(i)[0], (*m.rows[lo + i])[0]), "row {} of the range view differs", i);
        }
    }
    VH_REQUIRE(vh::throws([&] { data::make_const_view(data, threads::UnitRange<size_t>(lo, n + 1)); }), "a range view beyond the end was accepted");
}

template <typename Data, typename Pool>
void compact_with(Data& data, const std::vector<uint32_t>& keep, bool wide, size_t batch, Pool& pool) {
    if (wide) {
        std::vector<uint64_t> k(keep.begin(), keep.end());
        if (batch) {
            data.compact(lib::as_const_span(k), pool, batch);
        } else {
            data.compact(lib::as_const_span(k), pool);
        }
    } else if (batch) {
        data.compact(lib::as_const_span(keep), pool, batch);
    } else {
        data.compact(lib::as_const_span(keep), pool);
    }
}

template <typename Data> void history(vh::Gen& g, vh::Ctx& ctx) {
    using T = typename Data::element_type;
    constexpr bool blocked = Maker<Data>::blocked;
    constexpr size_t extent = [] {
        using V = typename Data::value_type;
        return V::extent;
    }();
    size_t dim = extent == std::dynamic_extent ? g.skew(1, 40) : extent;
    size_t n = g.skew(blocked ? 0 : 1, 50);
    Model<T> m;
    m.dim = dim;
    m.rows.resize(n);
    ctx.describe("n={} dim={}:", n, dim);
    auto data = Maker<Data>::make(g, ctx, n, dim);
    compare(data, m, "after construction");
    size_t ops = g.skew(1, 60), writes = 0, others = 0;
    auto write = [&](auto& where, Model<T>& mm, size_t i) {
        vh::Stream s(g.seed());
        int kind = int(g.raw(2));
        std::vector<T> row(dim);
        for (auto& x : row) {
            x = value<T>(s, kind);
        }
        if (g.flip()) {
            where.set_datum(i, row);
        } else {
            where.set_datum(i, std::span<const T>(row.data(), row.size()));
        }
        mm.rows[i] = row;
        ++writes;
    };
    // Fill most of it.
    if (g.chance(3, 4)) {
        for (size_t i = 0; i < n; ++i) {
            write(data, m, i);
        }
    }
    for (size_t o = 0; o < ops; ++o) {
        size_t sz = m.rows.size();
        switch (g.pick<int>({0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10})) {
            case 0: {
                if (sz) {
                    size_t i = g.raw(sz - 1);
                    ctx.trace(" set[{}]", i);
                    write(data, m, i);
                }
                break;
            }
            case 1: {
                // Through the mutable row.
                if (sz) {
                    size_t i = g.raw(sz - 1);
                    if (m.rows[i]) {
                        size_t j = g.raw(dim - 1);
                        vh::Stream s(g.seed());
                        T x = value<T>(s, 1);
                        data.get_datum(i)[j] = x;
                        (*m.rows[i])[j] = x;
                        ctx.trace(" row[{}][{}]=", i, j);
                    }
                }
                break;
            }
            case 2: {
                if (sz) {
                    size_t i = g.raw(sz - 1);
                    switch (g.raw(4)) {
                        case 0: write_other<double>(g, ctx, data, m, i); break;
                        case 1: write_other<float>(g, ctx, data, m, i); break;
                        case 2: write_other<int8_t>(g, ctx, data, m, i); break;
                        case 3: write_other<uint8_t>(g, ctx, data, m, i); break;
                        default: write_other<int32_t>(g, ctx, data, m, i); break;
                    }
                    ++others;
                }
                break;
            }
            case 3: {
                // Wrong length.
                if (sz) {
                    size_t i = g.raw(sz - 1);
                    size_t len = g.flip() ? dim + 1 + g.raw(3) : g.raw(dim - 1);
                    std::vector<T> row(len);
                    ctx.trace(" set[{}] with {} elements", i, len);
                    VH_REQUIRE(vh::throws([&] { data.set_datum(i, row); }), "a row of {} elements was accepted for dimension {}", len, dim);
                }
                break;
            }
            case 4: {
                size_t to = g.chance(1, 3) ? g.skew(0, 80) : g.flip() ? sz + g.raw(10) : sz - g.raw(std::min<size_t>(sz, 10));
                if (!blocked && to == 0) {
                    to = 1;
                }
                ctx.trace(" resize({})", to);
                data.resize(to);
                size_t was = m.rows.size();
                m.rows.resize(to);
                // New rows: unspecified until written; write most.
                for (size_t i = was; i < to; ++i) {
                    if (g.chance(2, 3)) {
                        write(data, m, i);
                    }
                }
                ++others;
                break;
            }
            case 5: {
                ctx.trace(" shrink_to_fit");
                data.shrink_to_fit();
                break;
            }
            case 6: {
                // A copy is independent.
                ctx.trace(" copy");
                Data c = [&] {
                    if constexpr (blocked) {
                        return g.flip() ? data.copy() : Data(data);
                    } else {
                        return Data(data);
                    }
                }();
                if (g.flip()) {
                    Data e = Maker<Data>::make(g, ctx, g.range(1, 5), dim);
                    e = c;
                    compare(e, m, "in a copy-assigned container");
                    Data& self = e;
                    e = self;
                    compare(e, m, "after self-assignment");
                }
                compare(c, m, "in a copy");
                Model<T> mc = m;
                if (sz) {
                    write(c, mc, g.raw(sz - 1));
                    compare(data, m, "after writing to a copy");
                    write(data, m, g.raw(sz - 1));
                    compare(c, mc, "in a copy after writing to the original");
                    bool all = true, eq = true;
                    for (size_t i = 0; i < sz; ++i) {
                        all = all && m.rows[i] && mc.rows[i];
                        for (size_t j = 0; all && j < dim; ++j) {
                            eq = eq && (*m.rows[i])[j] == (*mc.rows[i])[j];
                        }
                    }
                    if (all) {
                        VH_REQUIRE((data == c) == eq, "operator== says {} for containers which are {}", data == c, eq ? "equal" : "different");
                    }
                }
                ++others;
                break;
            }
            case 7: {
                ctx.trace(" move");
                Data t = std::move(data);
                compare(t, m, "after move construction");
                data = std::move(t);
                compare(data, m, "after move assignment");
                break;
            }
            case 8: {
                // Keep an increasing list of rows.
                std::vector<uint32_t> keep;
                unsigned p = unsigned(g.range(1, 9));
                vh::Stream s(g.seed());
                for (size_t i = 0; i < sz; ++i) {
                    if (s.below(10) < p) {
                        keep.push_back(uint32_t(i));
                    }
                }
                size_t batch = g.chance(1, 4) ? 0 : g.skew(1, 40);
                size_t threads = g.chance(1, 6) ? g.range(2, 4) : 1;
                ctx.trace(" compact({} of {}, batch {}, threads {})", keep.size(), sz, batch, threads);
                bool wide = g.flip();
                if (threads == 1) {
                    threads::SequentialThreadPool pool;
                    compact_with(data, keep, wide, batch, pool);
                } else {
                    threads::NativeThreadPool pool(threads);
                    compact_with(data, keep, wide, batch, pool);
                }
                auto old = m.rows;
                for (size_t i = 0; i < keep.size(); ++i) {
                    m.rows[i] = old[keep[i]];
                }
                compare(data, m, "after compaction");
                if (g.flip() && (blocked || !keep.empty())) {
                    data.resize(keep.size());
                    m.rows.resize(keep.size());
                }
                ++others;
                break;
            }
            case 9: selection(g, ctx, data, m); break;
            case 10: {
                if constexpr (!blocked) {
                    if (sz == 0) {
                        break;
                    }
                    ctx.trace(" views");
                    auto v = data.view();
                    auto cv = data.cview();
                    compare(v, m, "through a view");
                    compare(cv, m, "through a constant view");
                    write(v, m, g.raw(sz - 1));
                    compare(data, m, "after writing through a view");
                    compare(cv, m, "in a constant view after a write");
                    auto v2 = v; // copies of views alias
                    write(v2, m, g.raw(sz - 1));
                    compare(data, m, "after writing through a copied view");
                    data::ConstSimpleDataView<T> anon{AnonymousArray<2>(data)};
                    VH_REQUIRE(anon.size() == sz && anon.dimensions() == dim && anon.data() == data.data(), "a type-erased view differs");
                    VH_REQUIRE(v == cv && data == cv, "a view is not equal to its data");
                }
                break;
            }
        }
        compare(data, m, "during the history");
    }
    ctx.interesting(writes >= 4 && others >= 1);
}
} // namespace c14
