#include "damage.hpp"
#include "dynamic_sim.hpp"
#include "svs/index/inverted/clustering.h"
#include "svs/index/vamana/index.h"

namespace {
using namespace c13;
template <typename T> using SData = svs::data::SimpleData<T>;
template <typename T> using BData = svs::data::SimpleData<T, svs::Dynamic, svs::data::Blocked<svs::HugepageAllocator<T>>>;
using Clustering = svs::index::inverted::Clustering<uint32_t>;
using Cluster = svs::index::inverted::Cluster<uint32_t>;

template <typename T> auto small_blocks() { return svs::data::Blocked<svs::HugepageAllocator<T>>(svs::data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(10)}); }

// The vectors held by the only vector file below dir, as their header says.
template <typename Data> void holds_the_file(const Data& data, const fs::path& dir, const std::string& what) {
    for (auto& e : fs::recursive_directory_iterator(dir)) {
        if (!e.is_regular_file() || e.path().extension() == ".toml") continue;
        Bytes b = slurp(e.path());
        size_t n = 0, d = 0, skip = 1024;
        VH_REQUIRE(b.size() >= 64, "{}: loaded from a file of {} bytes", what, b.size());
        std::memcpy(&n, b.data() + 24, 8);
        std::memcpy(&d, b.data() + 32, 8);
        using T = typename Data::value_type;
        constexpr size_t w = sizeof(typename T::value_type);
        VH_REQUIRE(data.size() == n && data.dimensions() == d && b.size() == skip + n * d * w, "{}: {}x{} loaded from a file of {}x{} and {} bytes", what, data.size(), data.dimensions(), n, d, b.size());
        for (size_t i = 0; i < n; ++i) {
            VH_REQUIRE(std::memcmp(data.get_datum(i).data(), b.data() + skip + i * d * w, d * w) == 0, "{}: vector {} is not what the file holds", what, i);
        }
        return;
    }
    throw vh::Fail(what + ": loaded without a vector file");
}

template <typename T> void data_case(vh::Gen& g, vh::Ctx& ctx) {
    size_t n = g.skew(0, 20), d = g.chance(1, 4) ? 5 : g.skew(1, 12);
    auto data = SData<T>(n, d);
    vh::Stream s(g.seed());
    for (size_t i = 0; i < n; ++i) {
        for (auto& x : data.get_datum(i)) x = T(float(s.below(100)));
    }
    fs::path dir = ctx.scratch + "/saved";
    lib::save_to_disk(data, dir);
    size_t how = g.raw(3);
    std::string what = fmt::format("{}x{} vectors of {} bytes, way {}", n, d, sizeof(T), how);
    ctx.label("vectors");
    try_damages(g, ctx, Snapshot(dir), what, [&](const Damage& dm) {
        auto ok = [&](const auto& x) {
            if (dm.file != "" || dm.what == "") holds_the_file(x, dir, what + " " + dm.what);
        };
        switch (how) {
            case 0: return ok(SData<T>::load(dir));
            case 1: return ok(lib::load_from_disk<BData<T>>(dir, small_blocks<T>()));
            case 2:
                if (d == 5) return ok(svs::data::SimpleData<T, 5>::load(dir));
                return ok(SData<T>::load(dir));
            default: return ok(lib::load_from_disk<SData<T>>(dir));
        }
    });
}

template <typename G> void well_formed(const G& graph) {
    size_t n = graph.n_nodes();
    for (uint32_t i = 0; i < n; ++i) {
        auto l = graph.get_node(i);
        VH_REQUIRE(l.size() <= graph.max_degree(), "vertex {} has {} edges of at most {}", i, l.size(), graph.max_degree());
        for (auto t : l) VH_REQUIRE(t < n, "vertex {} of {} has an edge to {}", i, n, t);
    }
}
} // namespace

VH_CASES("vectors", 4) {
    switch (g.raw(3)) {
        case 0: return data_case<float>(g, ctx);
        case 1: return data_case<Float16>(g, ctx);
        case 2: return data_case<uint8_t>(g, ctx);
        default: return data_case<int64_t>(g, ctx);
    }
}
VH_CASES("graphs", 4) {
    size_t n = g.skew(1, 30), deg = g.skew(1, 10);
    auto graph = svs::graphs::SimpleGraph<uint32_t>(n, deg);
    vh::Stream s(g.seed());
    for (size_t i = 0; i < n; ++i) {
        for (size_t k = s.below(deg + 1); k > 0; --k) {
            size_t j = s.below(n);
            if (j != i) graph.add_edge(uint32_t(i), uint32_t(j));
        }
    }
    fs::path dir = ctx.scratch + "/saved";
    lib::save_to_disk(graph, dir);
    bool blocked = g.flip(), table = g.flip();
    std::string what = fmt::format("graph of {} vertices and degree {}{}", n, deg, blocked ? ", blocked" : "");
    ctx.label("graph");
    try_damages(g, ctx, Snapshot(dir), what, [&](const Damage& dm) {
        auto ok = [&](const auto& x) {
            well_formed(x);
            if (dm.file != "" || dm.what == "") holds_the_file(x.get_data(), dir, what + " " + dm.what);
        };
        if (blocked) {
            return ok(dyn::PagedGraph::load(dir));
        }
        return ok(table ? lib::load_from_disk<svs::graphs::SimpleGraph<uint32_t>>(dir) : svs::graphs::SimpleGraph<uint32_t>::load(dir));
    });
}
VH_CASES("clusterings", 3) {
    Clustering c;
    vh::Stream s(g.seed());
    size_t n = g.raw(5);
    for (size_t i = 0; i < n; ++i) {
        auto cl = Cluster(uint32_t(s.next()));
        if (c.contains(cl.centroid())) continue;
        for (size_t k = s.below(6); k > 0; --k) cl.elements().push_back(svs::Neighbor<uint32_t>(uint32_t(s.next()), float(s.gauss())));
        c.insert(std::move(cl));
    }
    fs::path dir = ctx.scratch + "/saved";
    lib::save_to_disk(c, dir);
    ctx.label("clustering");
    try_damages(g, ctx, Snapshot(dir), fmt::format("clustering of {} clusters", n), [&](const Damage& dm) {
        auto o = lib::load_from_disk<Clustering>(dir);
        // As many bytes as the file has, and every cluster where it says.
        size_t bytes = 0;
        for (auto& [id, cl] : o) {
            VH_REQUIRE(cl.centroid() == id, "cluster {} has the centroid {}", id, cl.centroid());
            bytes += 4 + 8 + cl.size() * sizeof(svs::Neighbor<uint32_t>);
        }
        for (auto& e : fs::recursive_directory_iterator(dir)) {
            if (e.is_regular_file() && e.path().extension() != ".toml" && dm.file != "") {
                VH_REQUIRE(e.file_size() == bytes, "clusters of {} bytes from a file of {}", bytes, e.file_size());
            }
        }
    });
}
VH_CASES("translations", 3) {
    svs::IDTranslator tr;
    vh::Stream s(g.seed());
    size_t n = g.skew(0, 20);
    std::map<uint64_t, uint32_t> m;
    std::vector<uint64_t> e;
    std::vector<uint32_t> in;
    for (size_t k = 0; k < n; ++k) {
        uint64_t x = s.next() >> s.below(64);
        if (m.emplace(x, uint32_t(k)).second) {
            e.push_back(x);
            in.push_back(uint32_t(k * 3));
        }
    }
    tr.insert(e, in);
    fs::path dir = ctx.scratch + "/saved";
    lib::save_to_disk(tr, dir);
    ctx.label("translation");
    try_damages(g, ctx, Snapshot(dir), fmt::format("{} translations", m.size()), [&](const Damage& dm) {
        auto o = lib::load_from_disk<svs::IDTranslator>(dir);
        size_t count = 0;
        for (auto& [ext, internal] : o) {
            VH_REQUIRE(o.has_internal(internal) && o.get_external(internal) == ext, "{} leads to {} and back to another id", ext, internal);
            ++count;
        }
        VH_REQUIRE(count == o.size(), "{} of {} translations", count, o.size());
        for (auto& f : fs::recursive_directory_iterator(dir)) {
            if (f.is_regular_file() && f.path().extension() != ".toml" && dm.file != "") {
                VH_REQUIRE(f.file_size() == 12 * count, "{} translations from a file of {} bytes", count, f.file_size());
            }
        }
    });
}
namespace {
template <typename T> void blob_case(vh::Gen& g, vh::Ctx& ctx) {
    std::vector<T> v(g.skew(0, 40));
    vh::Stream s(g.seed());
    for (auto& x : v) x = T(s.next());
    fs::path dir = ctx.scratch + "/saved";
    lib::save_to_disk(lib::BinaryBlobSaver<T>(v), dir);
    ctx.label("blob");
    try_damages(g, ctx, Snapshot(dir), fmt::format("blob of {} elements of {} bytes", v.size(), sizeof(T)), [&](const Damage& dm) {
        std::vector<T> o = lib::load_from_disk<lib::BinaryBlobLoader<T>>(dir);
        for (auto& f : fs::recursive_directory_iterator(dir)) {
            if (f.is_regular_file() && f.path().extension() != ".toml" && dm.file != "") {
                Bytes b = slurp(f.path());
                VH_REQUIRE(b.size() == o.size() * sizeof(T) && std::memcmp(b.data(), o.data(), b.size()) == 0, "{} elements from a file of {} bytes", o.size(), b.size());
            }
        }
    });
}
} // namespace
VH_CASES("blobs", 2) {
    switch (g.raw(2)) {
        case 0: return blob_case<uint8_t>(g, ctx);
        case 1: return blob_case<float>(g, ctx);
        default: return blob_case<uint64_t>(g, ctx);
    }
}

namespace {
// Several objects in one directory, whose configuration and files can be mixed up.
struct Bundle {
    std::optional<SData<float>> a{}, b{};
    std::optional<svs::graphs::SimpleGraph<uint32_t>> graph{};
    std::vector<uint32_t> blob{};
    svs::IDTranslator tr{};
    static constexpr lib::Version save_version{0, 0, 9};
    static constexpr std::string_view serialization_schema = "vh_bundle";
    lib::SaveTable save(const lib::SaveContext& ctx) const {
        auto t = lib::SaveTable(serialization_schema, save_version);
        t.insert("a", lib::save(*a, ctx));
        t.insert("b", lib::save(*b, ctx));
        t.insert("graph", lib::save(*graph, ctx));
        t.insert("blob", lib::save(lib::BinaryBlobSaver<uint32_t>(blob), ctx));
        t.insert("translation", lib::save(tr, ctx));
        return t;
    }
    static Bundle load(const lib::LoadTable& t) {
        Bundle o;
        o.a.emplace(lib::load_at<SData<float>>(t, "a"));
        o.b.emplace(lib::load_at<SData<float>>(t, "b"));
        o.graph.emplace(lib::load_at<svs::graphs::SimpleGraph<uint32_t>>(t, "graph"));
        o.blob = lib::load_at<lib::BinaryBlobLoader<uint32_t>>(t, "blob");
        o.tr = lib::load_at<svs::IDTranslator>(t, "translation");
        return o;
    }
};
} // namespace
VH_CASES("several objects", 4) {
    Bundle b;
    size_t n = g.skew(1, 12), d = g.skew(1, 8);
    vh::Stream s(g.seed());
    auto fill = [&](auto& o, size_t d) {
        o.emplace(n, d);
        for (size_t i = 0; i < n; ++i) {
            for (auto& x : o->get_datum(i)) x = float(s.below(9));
        }
    };
    fill(b.a, d);
    fill(b.b, g.flip() ? d : d + 1);
    b.graph.emplace(n, d);
    for (size_t i = 0; i + 1 < n; ++i) b.graph->add_edge(uint32_t(i), uint32_t(i + 1));
    b.blob.assign(g.flip() ? 3 * n : 5, 7);
    b.tr = svs::IDTranslator(svs::IDTranslator::Identity(n));
    fs::path dir = ctx.scratch + "/saved";
    lib::save_to_disk(b, dir);
    ctx.label("several objects");
    try_damages(g, ctx, Snapshot(dir), fmt::format("objects of {}x{}", n, d), [&](const Damage&) {
        auto o = lib::load_from_disk<Bundle>(dir);
        double sum = 0;
        for (auto* p : {&*o.a, &*o.b}) {
            for (size_t i = 0; i < p->size(); ++i) {
                for (auto x : p->get_datum(i)) sum += x;
            }
        }
        well_formed(*o.graph);
        size_t count = 0;
        for (auto& [ext, internal] : o.tr) {
            VH_REQUIRE(o.tr.has_internal(internal) && o.tr.get_external(internal) == ext, "{} leads to {} and back to another id", ext, internal);
            ++count;
        }
        VH_REQUIRE(count == o.tr.size(), "{} of {} translations", count, o.tr.size());
    });
}

namespace {
template <typename T> void params_case(vh::Gen& g, vh::Ctx& ctx, const T& p, const std::string& what) {
    fs::path dir = ctx.scratch + "/saved";
    lib::save_to_disk(p, dir);
    ctx.label("parameters");
    try_damages(g, ctx, Snapshot(dir), what, [&](const Damage&) {
        auto o = lib::load_from_disk<T>(dir);
        // What was loaded can be saved and gives itself.
        lib::save_to_disk(o, fs::path(ctx.scratch) / "again");
        auto again = lib::load_from_disk<T>(fs::path(ctx.scratch) / "again");
        lib::save_to_disk(again, fs::path(ctx.scratch) / "third");
        VH_REQUIRE(slurp(fs::path(ctx.scratch) / "again" / "svs_config.toml") == slurp(fs::path(ctx.scratch) / "third" / "svs_config.toml"), "{} changed", what);
    });
}
} // namespace
VH_CASES("parameters", 2) {
    namespace vam = svs::index::vamana;
    auto build = vam::VamanaBuildParameters(1.25f, g.range(1, 64), g.range(1, 64), g.range(1, 100), g.range(1, 64), g.flip());
    size_t w = g.range(1, 50);
    auto search = vam::VamanaSearchParameters(vam::SearchBufferConfig(w, w + g.range(0, 10)), g.flip(), g.range(0, 8), g.range(1, 4));
    switch (g.raw(3)) {
        case 0: return params_case(g, ctx, build, "build parameters");
        case 1: return params_case(g, ctx, search, "search parameters");
        case 2: return params_case(g, ctx, vam::VamanaIndexParameters(g.range(0, 5), build, search), "index parameters");
        default: return params_case(g, ctx, svs::index::inverted::ClusteringParameters(), "clustering parameters");
    }
}
