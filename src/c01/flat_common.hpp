#pragma once
#include "svsgen.hpp"

#include "svs/orchestrators/exhaustive.h"

namespace c01 {
using namespace vg;

struct Plan {
    size_t n, d, nq, k, kind, threads;
    Dist dist;
    uint64_t seed;
    bool exact;
};

inline Plan gen_plan(vh::Gen& g, size_t dim_fixed = 0) {
    Plan p;
    p.dist = g.pick({Dist::L2, Dist::IP, Dist::Cosine});
    p.kind = g.raw(NUM_KINDS - 1);
    p.n = g.chance(1, 40) ? g.range(300, 1500) : g.skew(1, 220);
    p.d = dim_fixed ? dim_fixed : gen_dim(g);
    p.nq = g.skew(1, 24);
    p.k = g.chance(1, 4) ? p.n + g.range(0, 3) : g.skew(1, std::min<size_t>(p.n, 40));
    p.threads = gen_threads(g);
    p.seed = g.seed();
    p.exact = kind_exact(p.kind) && p.dist != Dist::Cosine;
    return p;
}

template <typename Q, typename T>
std::vector<std::vector<std::optional<Ref>>>
references(const Plan& p, const Mat<Q>& q, const Mat<T>& x, const std::vector<char>* allowed = nullptr) {
    std::vector<std::vector<std::optional<Ref>>> out(q.n);
    for (size_t i = 0; i < q.n; ++i) {
        out[i].resize(x.n);
        for (size_t j = 0; j < x.n; ++j) {
            if (allowed == nullptr || (*allowed)[j]) {
                out[i][j] = ref_distance(p.dist, q.row(i), x.row(j), x.d);
                if (std::isnan(out[i][j]->value)) {
                    throw vh::Discard{}; // cosine similarity of a zero vector is undefined
                }
            }
        }
    }
    return out;
}

template <typename Result>
void judge(const Plan& p, const std::vector<std::vector<std::optional<Ref>>>& refs, const Result& r, size_t first, size_t count, const char* what) {
    VH_REQUIRE(r.n_queries() == count && r.n_neighbors() == p.k, "{}: result is {}x{}", what, r.n_queries(), r.n_neighbors());
    for (size_t i = 0; i < count; ++i) {
        std::vector<size_t> ids(p.k);
        std::vector<float> ds(p.k);
        for (size_t j = 0; j < p.k; ++j) {
            ids[j] = r.index(i, j);
            ds[j] = r.distance(i, j);
        }
        auto& ref = refs[first + i];
        check_topk(p.dist, ref, ids, ds, p.exact, fmt::format("{} query {}", what, first + i));
        size_t have = 0;
        for (auto& x : ref) {
            have += x.has_value();
        }
        for (size_t j = have; j < p.k; ++j) { // more neighbours asked for than exist
            VH_REQUIRE(!(ids[j] < ref.size()), "{}: padding entry {} of query {} names id {}", what, j, first + i, ids[j]);
        }
    }
}

inline svs::index::flat::FlatParameters gen_params(vh::Gen& g, const Plan& p) {
    // 0 selects the documented defaults.
    size_t db = g.chance(1, 4) ? 0 : g.skew(1, p.n + 5);
    size_t qb = g.chance(1, 4) ? 0 : g.skew(1, p.nq + 3);
    return svs::index::flat::FlatParameters(db, qb);
}

// The type-erased index, over a stream of searches with changing settings.
template <typename Q, typename T, size_t N = svs::Dynamic>
void erased(vh::Gen& g, vh::Ctx& ctx) {
    auto p = gen_plan(g, N == svs::Dynamic ? 0 : N);
    auto x = matrix<T>(p.n, p.d, p.kind, p.seed);
    auto q = matrix<Q>(p.nq, p.d, p.kind, p.seed + 1);
    if (g.chance(1, 3)) { // queries that are members of the dataset
        for (size_t i = 0; i < p.nq; ++i) {
            for (size_t j = 0; j < p.d; ++j) {
                q.row(i)[j] = to_elem<Q>(static_cast<float>(x.row(i % p.n)[j]));
            }
        }
    }
    ctx.describe("Flat<{}{}> queries {} {} n={} d={} nq={} k={} threads={} {}", type_name<T>(), N == svs::Dynamic ? "" : " static", type_name<Q>(), dist_name(p.dist), p.n, p.d, p.nq, p.k, p.threads, kind_name(p.kind));
    auto refs = references(p, q, x);
    auto index = svs::Flat::assemble<Q>(simple<T, N>(x), dist_enum(p.dist), p.threads);
    VH_REQUIRE(index.size() == p.n && index.dimensions() == p.d && index.get_num_threads() == p.threads, "wrong size, dimensions or threads");
    size_t rounds = g.range(1, 4);
    for (size_t r = 0; r < rounds; ++r) {
        auto sp = gen_params(g, p);
        bool via_default = g.flip();
        size_t first = g.chance(1, 3) ? g.range(0, p.nq - 1) : 0;
        size_t count = g.chance(1, 3) ? g.range(1, p.nq - first) : p.nq - first;
        auto view = svs::data::ConstSimpleDataView<Q>(q.row(first), count, p.d);
        svs::QueryResult<size_t> res;
        if (via_default) {
            index.set_search_parameters(sp);
            auto back = index.get_search_parameters();
            VH_REQUIRE(back.data_batch_size_ == sp.data_batch_size_ && back.query_batch_size_ == sp.query_batch_size_, "search parameters do not stick");
            res = index.search(view, p.k);
        } else {
            res = svs::QueryResult<size_t>(count, p.k);
            index.search(res.view(), view, sp);
        }
        ctx.trace(" | search first={} count={} data_batch={} query_batch={}", first, count, sp.data_batch_size_, sp.query_batch_size_);
        judge(p, refs, res, first, count, "flat");
        if (sp.data_batch_size_ && sp.data_batch_size_ < p.n) {
            ctx.label("several data batches");
        }
        if (g.chance(1, 3)) {
            p.threads = gen_threads(g);
            index.set_num_threads(p.threads);
            VH_REQUIRE(index.get_num_threads() == p.threads, "set_num_threads({}) gave {}", p.threads, index.get_num_threads());
        }
    }
    ctx.label(dist_name(p.dist));
    ctx.label(p.k > p.n ? "k > n" : "k <= n");
    ctx.interesting(p.n > p.k && p.n >= 4);
}

// The index class itself: predicates, and an index that only references its members.
template <typename Q, typename T, typename D> void direct(vh::Gen& g, vh::Ctx& ctx) {
    auto p = gen_plan(g);
    p.dist = dist_tag<D>::value;
    p.exact = kind_exact(p.kind) && p.dist != Dist::Cosine;
    auto x = matrix<T>(p.n, p.d, p.kind, p.seed);
    auto q = matrix<Q>(p.nq, p.d, p.kind, p.seed + 1);
    std::vector<char> allowed(p.n, 1);
    size_t mode = g.raw(3);
    vh::Stream s(g.seed());
    for (auto& a : allowed) {
        a = mode == 0 ? 1 : mode == 1 ? s.below(2) : mode == 2 ? s.below(5) == 0 : 0;
    }
    ctx.describe("FlatIndex<{}> queries {} {} n={} d={} nq={} k={} threads={} {} filter mode {}", type_name<T>(), type_name<Q>(), dist_name(p.dist), p.n, p.d, p.nq, p.k, p.threads, kind_name(p.kind), mode);
    auto refs = references(p, q, x, &allowed);
    auto pred = [&](size_t i) { return allowed.at(i) != 0; };
    auto data = simple<T>(x);
    auto sp = gen_params(g, p);
    auto res = svs::QueryResult<size_t>(p.nq, p.k);
    if (g.flip()) {
        auto pool = svs::threads::NativeThreadPool(p.threads);
        auto index = svs::index::flat::temporary_flat_index(data, D(), pool);
        index.search(res.view(), q.view(), sp, pred);
        ctx.label("temporary");
    } else {
        auto index = svs::index::flat::FlatIndex(std::move(data), D(), p.threads);
        index.search(res.view(), q.view(), sp, pred);
    }
    judge(p, refs, res, 0, p.nq, "filtered flat");
    ctx.label(fmt::format("filter mode {}", mode));
    ctx.interesting(mode != 3 && p.n >= 4);
}
} // namespace c01
