#include "damage.hpp"
#include "dynamic_sim.hpp"
#include "svs/index/inverted/clustering.h"
#include "svs/index/inverted/memory_based.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/index.h"

namespace {
using namespace c13;
namespace vam = svs::index::vamana;
namespace inv = svs::index::inverted;
using SData = svs::data::SimpleData<float>;
using BData = svs::data::SimpleData<float, svs::Dynamic, svs::data::Blocked<svs::HugepageAllocator<float>>>;
auto small() { return svs::data::Blocked<svs::HugepageAllocator<float>>(svs::data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(8)}); }
using SGraph = svs::graphs::SimpleGraph<uint32_t>;
using BGraph = dyn::PagedGraph;
using L2 = svs::DistanceL2;

template <typename Index> void search(Index& index, size_t n, size_t d, vh::Stream& s, size_t dynamic_max = 0) {
    size_t nq = 1 + s.below(3), k = 1 + s.below(6);
    auto q = SData(nq, d);
    for (size_t i = 0; i < nq; ++i) {
        for (auto& x : q.get_datum(i)) x = float(s.below(10));
    }
    auto r = svs::QueryResult<size_t>(nq, k);
    index.search(r.view(), svs::data::ConstSimpleDataView<float>(q.data(), nq, d), index.get_search_parameters());
    for (size_t i = 0; i < nq; ++i) {
        for (size_t j = 0; j < k; ++j) {
            size_t id = r.index(i, j);
            if (id == std::numeric_limits<size_t>::max()) continue; // fewer neighbours than asked for
            VH_REQUIRE(id < n || dynamic_max, "a search of {} vectors found {}", n, id);
        }
    }
}

// Damage that makes sizes of later work unreasonable although it is a valid setting.
bool too_much(const vam::VamanaSearchParameters& p) { return p.buffer_config_.get_total_capacity() > 10000; }
} // namespace

VH_CASES("static indexes", 4) {
    size_t n = g.skew(1, 30), d = g.skew(1, 6);
    vh::Stream s(g.seed());
    auto data = SData(n, d);
    for (size_t i = 0; i < n; ++i) {
        for (auto& x : data.get_datum(i)) x = float(s.below(10));
    }
    size_t deg = g.range(1, 8);
    auto params = vam::VamanaBuildParameters(1.2f, deg, g.range(1, 20), g.range(1, 40), deg, g.flip());
    fs::path dir = ctx.scratch + "/saved";
    fs::create_directories(dir);
    {
        auto index = vam::auto_build(params, std::move(data), L2(), svs::threads::NativeThreadPool(1));
        index.save(dir / "config", dir / "graph", dir / "data");
    }
    bool blocked = g.flip();
    uint64_t seed = g.seed();
    ctx.label("static index");
    try_damages(g, ctx, Snapshot(dir), fmt::format("static index of {}x{} and degree {}", n, d, deg), [&](const Damage&) {
        vh::Stream s(seed);
        auto use = [&](auto&& index) {
            VH_REQUIRE(index.size() > 0, "an index of nothing was assembled");
            if (too_much(index.get_search_parameters())) return;
            search(index, index.size(), index.dimensions(), s);
            fs::path again = ctx.scratch + "/again";
            fs::create_directories(again);
            index.save(again / "config", again / "graph", again / "data");
        };
        if (blocked) {
            use(vam::auto_assemble(dir / "config", lib::Lazy([&] { return BGraph::load(dir / "graph"); }), lib::Lazy([&] { return BData::load(dir / "data", small()); }), L2(), size_t(2)));
        } else {
            use(vam::auto_assemble(dir / "config", svs::GraphLoader(dir / "graph"), svs::VectorDataLoader<float>(dir / "data"), L2(), size_t(2)));
        }
    });
    fs::remove_all(ctx.scratch + "/again");
}

VH_CASES("dynamic indexes", 4) {
    size_t n = g.skew(1, 30), d = g.skew(1, 6);
    vh::Stream s(g.seed());
    auto data = BData(n, d, small());
    std::vector<size_t> ids;
    for (size_t i = 0; i < n; ++i) {
        std::vector<float> row(d);
        for (auto& x : row) x = float(s.below(10));
        data.set_datum(i, row);
        ids.push_back(5 * i + s.below(5));
    }
    size_t deg = g.range(1, 8);
    auto params = vam::VamanaBuildParameters(1.2f, deg, g.range(1, 20), g.range(1, 40), deg, g.flip());
    fs::path dir = ctx.scratch + "/saved";
    fs::create_directories(dir);
    {
        auto index = vam::MutableVamanaIndex<BGraph, BData, L2>(params, std::move(data), ids, L2(), 1);
        index.save(dir / "config", dir / "graph", dir / "data");
    }
    uint64_t seed = g.seed();
    ctx.label("dynamic index");
    try_damages(g, ctx, Snapshot(dir), fmt::format("dynamic index of {}x{} and degree {}", n, d, deg), [&](const Damage& dm) {
        vh::Stream s(seed);
        auto index = vam::auto_dynamic_assemble(
            dir / "config", lib::Lazy([&] { return BGraph::load(dir / "graph"); }), lib::Lazy([&] { return BData::load(dir / "data", small()); }), L2(), 2
        );
        auto now = index.external_ids();
        auto all = std::vector<size_t>(now.begin(), now.end());
        VH_REQUIRE(all.size() == index.size(), "{} ids for {} vectors", all.size(), index.size());
        for (auto id : all) VH_REQUIRE(index.has_id(id), "id {} is not there", id);
        if (too_much(index.get_search_parameters())) return;
        std::set<size_t> have(all.begin(), all.end());
        size_t d = index.dimensions();
        search(index, 0, d, s, 1);
        // The settings of the construction are not limited by what was saved.
        if (index.get_construction_window_size() > 10000 || index.get_max_candidates() > 10000) return;
        for (auto text = slurp(dir / "config" / "svs_config.toml"); auto key : {"prune_to = "}) {
            auto at = text.find(key);
            if (at != Bytes::npos && std::strtoull(text.c_str() + at + std::strlen(key), nullptr, 0) > 1000) return;
        }
        // It works on.
        size_t k = 1 + s.below(4);
        auto more = SData(k, d);
        std::vector<size_t> fresh;
        for (size_t i = 0; i < k; ++i) {
            for (auto& x : more.get_datum(i)) x = float(s.below(10));
            size_t id = s.next();
            if (have.insert(id).second) {
                fresh.push_back(id);
            } else {
                return;
            }
        }
        index.add_points(more, fresh);
        if (!all.empty()) {
            index.delete_entries(std::vector<size_t>{all[s.below(all.size())]});
        }
        index.consolidate();
        index.compact();
        search(index, 0, d, s, 1);
    });
}

VH_CASES("inverted indexes", 3) {
    size_t n = g.skew(6, 30), d = g.skew(1, 5);
    vh::Stream s(g.seed());
    auto data = SData(n, d);
    for (size_t i = 0; i < n; ++i) {
        for (auto& x : data.get_datum(i)) x = float(s.below(10));
    }
    fs::path dir = ctx.scratch + "/saved";
    fs::create_directories(dir);
    auto cp = inv::ClusteringParameters();
    cp.percent_centroids_ = lib::Percent(0.3);
    cp.seed_ = g.seed();
    inv::Clustering<uint32_t> c;
    {
        auto bp = inv::InvertedBuildParameters(cp, vam::VamanaBuildParameters(1.2f, 6, 10, 20, 6, true));
        auto index = inv::auto_build(bp, SData(data), L2(), size_t(1), inv::SparseStrategy(), inv::PickRandomly(), [&](const auto& x) { c = x; });
        index.save_primary_index(dir / "config", dir / "graph", dir / "data");
        lib::save_to_disk(c, dir / "clustering");
        // The vectors of the primary index are not read again.
        fs::remove_all(dir / "data");
    }
    lib::save_to_disk(data, dir / "vectors");
    uint64_t seed = g.seed();
    bool sparse = g.flip();
    ctx.label("inverted index");
    try_damages(g, ctx, Snapshot(dir), fmt::format("inverted index of {}x{} with {} clusters", n, d, c.size()), [&](const Damage&) {
        vh::Stream s(seed);
        auto use = [&](auto&& index) {
            auto p = index.get_search_parameters();
            if (too_much(p.primary_parameters_)) return;
            search(index, n, index.dimensions(), s);
        };
        auto loader = svs::VectorDataLoader<float>(dir / "vectors");
        if (sparse) {
            use(inv::assemble_from_clustering(dir / "clustering", loader, L2(), inv::SparseStrategy(), dir / "config", dir / "graph", 2));
        } else {
            use(inv::assemble_from_clustering(dir / "clustering", loader, L2(), inv::DenseStrategy(), dir / "config", dir / "graph", 2));
        }
    });
}
