#include "common.hpp"
#include "svs/index/inverted/clustering.h"

namespace {
using namespace c11;
using Clustering = svs::index::inverted::Clustering<uint32_t>;
using Cluster = svs::index::inverted::Cluster<uint32_t>;

// One saved object with the means to save it and to check what was loaded.
struct Obj {
    virtual ~Obj() = default;
    virtual void save(lib::SaveTable& t, const std::string& key, const lib::SaveContext& ctx) const = 0;
    virtual void check(vh::Gen& g, const lib::LoadTable& t, const std::string& key) const = 0;
    virtual void alone(vh::Gen& g, const fs::path& dir) const = 0; // save to and load from its own directory
    std::string what{};
};

template <typename T> auto blocks(vh::Gen& g, size_t d) {
    size_t k = 7;
    while ((size_t(1) << k) < d * sizeof(T)) {
        ++k;
    }
    return svs::data::Blocked<svs::HugepageAllocator<T>>(svs::data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(g.range(k, k + 5))});
}
template <typename T> using BData = svs::data::SimpleData<T, svs::Dynamic, svs::data::Blocked<svs::HugepageAllocator<T>>>;
template <typename T> using SData = svs::data::SimpleData<T>;

template <typename A, typename B> void same_data(const A& a, const B& b, const std::string& what) {
    VH_REQUIRE(a.size() == b.size() && a.dimensions() == b.dimensions(), "{}: {}x{} instead of {}x{}", what, b.size(), b.dimensions(), a.size(), a.dimensions());
    for (size_t i = 0; i < a.size(); ++i) {
        auto x = a.get_datum(i), y = b.get_datum(i);
        VH_REQUIRE(std::memcmp(x.data(), y.data(), x.size_bytes()) == 0, "{}: vector {} differs", what, i);
    }
}

template <typename T, typename Data> struct DataObj : Obj {
    Data data;
    DataObj(vh::Gen& g, Data d, bool poke)
        : data{std::move(d)} {
        vh::Stream s(g.seed());
        for (size_t i = 0; i < data.size(); ++i) {
            for (auto& x : data.get_datum(i)) {
                uint64_t b = poke ? s.next() : s.below(2);
                std::memcpy(static_cast<void*>(&x), &b, sizeof x);
            }
        }
        what = fmt::format("{}x{} vectors of {} bytes", data.size(), data.dimensions(), sizeof(T));
    }
    void save(lib::SaveTable& t, const std::string& key, const lib::SaveContext& ctx) const override { t.insert(key, lib::save(data, ctx)); }
    void check(vh::Gen& g, const lib::LoadTable& t, const std::string& key) const override {
        if (g.flip()) {
            same_data(data, lib::load_at<SData<T>>(t, key), what);
        } else {
            same_data(data, lib::load_at<BData<T>>(t, key, blocks<T>(g, data.dimensions())), what);
        }
        // Another type is refused, also one of the same size.
        using U = std::conditional_t<std::is_same_v<T, float>, int32_t, std::conditional_t<std::is_same_v<T, uint8_t>, int8_t, float>>;
        VH_REQUIRE(vh::throws([&] { (void)lib::load_at<SData<U>>(t, key); }), "{} were loaded as another type", what);
        constexpr size_t E = 5;
        using F = svs::data::SimpleData<T, E>;
        if (data.dimensions() == E) {
            same_data(data, lib::load_at<F>(t, key), what);
        } else {
            VH_REQUIRE(vh::throws([&] { (void)lib::load_at<F>(t, key); }), "{} were loaded with {} dimensions", what, E);
        }
    }
    void alone(vh::Gen& g, const fs::path& dir) const override {
        lib::save_to_disk(data, dir);
        switch (g.raw(3)) {
            case 0: return same_data(data, lib::load_from_disk<SData<T>>(dir), what);
            case 1: return same_data(data, SData<T>::load(dir), what);
            case 2: return same_data(data, SData<T>::load(dir / "svs_config.toml"), what);
            default: return same_data(data, BData<T>::load(dir, blocks<T>(g, data.dimensions())), what);
        }
    }
};

using SGraph = svs::graphs::SimpleGraph<uint32_t>;
using BGraph = svs::graphs::SimpleBlockedGraph<uint32_t>;

struct GraphObj : Obj {
    std::optional<SGraph> graph;
    explicit GraphObj(vh::Gen& g) {
        size_t n = g.skew(1, 40), deg = g.skew(1, 12);
        graph.emplace(n, deg);
        vh::Stream s(g.seed());
        for (size_t i = 0; i < n; ++i) {
            for (size_t k = s.below(deg + 1); k > 0; --k) {
                size_t j = s.below(n);
                if (j != i) {
                    graph->add_edge(uint32_t(i), uint32_t(j));
                }
            }
        }
        what = fmt::format("graph of {} vertices and degree {}", n, deg);
    }
    template <typename G> void same(const G& o) const {
        VH_REQUIRE(o.n_nodes() == graph->n_nodes() && o.max_degree() == graph->max_degree(), "{} became {} vertices and degree {}", what, o.n_nodes(), o.max_degree());
        for (uint32_t i = 0; i < o.n_nodes(); ++i) {
            auto a = graph->get_node(i), b = o.get_node(i);
            VH_REQUIRE(std::equal(a.begin(), a.end(), b.begin(), b.end()), "{}: list {} differs", what, i);
        }
    }
    void save(lib::SaveTable& t, const std::string& key, const lib::SaveContext& ctx) const override { t.insert(key, lib::save(*graph, ctx)); }
    void check(vh::Gen&, const lib::LoadTable& t, const std::string& key) const override {
        same(lib::load_at<SGraph>(t, key));
        using Wide = svs::graphs::SimpleGraph<uint64_t>;
        VH_REQUIRE(vh::throws([&] { (void)lib::load_at<Wide>(t, key); }), "{} was loaded with another type of vertex", what);
        VH_REQUIRE(vh::throws([&] { (void)lib::load_at<SData<uint32_t>>(t, key); }), "{} was loaded as vectors", what);
    }
    void alone(vh::Gen& g, const fs::path& dir) const override {
        lib::save_to_disk(*graph, dir);
        same(g.flip() ? lib::load_from_disk<SGraph>(dir) : SGraph::load(dir));
    }
};

struct ClusteringObj : Obj {
    Clustering c{};
    explicit ClusteringObj(vh::Gen& g) {
        vh::Stream s(g.seed());
        size_t n = g.raw(6);
        for (size_t i = 0; i < n; ++i) {
            auto cl = Cluster(uint32_t(s.next()));
            if (c.contains(cl.centroid())) {
                continue;
            }
            for (size_t k = s.below(6); k > 0; --k) {
                cl.elements().push_back(svs::Neighbor<uint32_t>(uint32_t(s.next()), float(s.gauss())));
            }
            c.insert(std::move(cl));
        }
        what = fmt::format("clustering of {} clusters", n);
    }
    void same(const Clustering& o) const {
        VH_REQUIRE(o.size() == c.size(), "{} became {}", what, o.size());
        for (auto& [id, cl] : c) {
            VH_REQUIRE(o.contains(id), "{}: centroid {} is lost", what, id);
            auto& p = o.at(id);
            VH_REQUIRE(p.centroid() == cl.centroid() && p.size() == cl.size(), "{}: cluster {} differs", what, id);
            for (size_t i = 0; i < cl.size(); ++i) {
                VH_REQUIRE(p.elements()[i].id() == cl.elements()[i].id() && same_float(p.elements()[i].distance(), cl.elements()[i].distance()), "{}: member {} of {} differs", what, i, id);
            }
        }
    }
    void save(lib::SaveTable& t, const std::string& key, const lib::SaveContext& ctx) const override { t.insert(key, lib::save(c, ctx)); }
    void check(vh::Gen&, const lib::LoadTable& t, const std::string& key) const override {
        same(lib::load_at<Clustering>(t, key));
        VH_REQUIRE(vh::throws([&] { (void)lib::load_at<svs::index::inverted::Clustering<uint64_t>>(t, key); }), "{} was loaded with another type of id", what);
    }
    void alone(vh::Gen&, const fs::path& dir) const override {
        lib::save_to_disk(c, dir);
        same(lib::load_from_disk<Clustering>(dir));
    }
};

struct TranslatorObj : Obj {
    svs::IDTranslator tr{};
    std::map<uint64_t, uint32_t> m{};
    explicit TranslatorObj(vh::Gen& g) {
        vh::Stream s(g.seed());
        size_t n = g.skew(0, 30);
        std::vector<uint64_t> e;
        std::vector<uint32_t> i;
        std::set<uint32_t> used;
        for (size_t k = 0; k < n; ++k) {
            uint64_t x = s.next() >> s.below(64);
            uint32_t y = uint32_t(s.next()) >> s.below(32);
            if (!m.count(x) && used.insert(y).second) {
                m[x] = y;
                e.push_back(x);
                i.push_back(y);
            }
        }
        tr.insert(e, i);
        what = fmt::format("{} translations", m.size());
    }
    void same(const svs::IDTranslator& o) const {
        VH_REQUIRE(o.size() == m.size(), "{} became {}", what, o.size());
        for (auto& [e, i] : m) {
            VH_REQUIRE(o.has_external(e) && o.get_internal(e) == i && o.has_internal(i) && o.get_external(i) == e, "{}: {} is lost", what, e);
        }
    }
    void save(lib::SaveTable& t, const std::string& key, const lib::SaveContext& ctx) const override { t.insert(key, lib::save(tr, ctx)); }
    void check(vh::Gen&, const lib::LoadTable& t, const std::string& key) const override { same(lib::load_at<svs::IDTranslator>(t, key)); }
    void alone(vh::Gen&, const fs::path& dir) const override {
        lib::save_to_disk(tr, dir);
        same(lib::load_from_disk<svs::IDTranslator>(dir));
    }
};

template <typename T> struct BlobObj : Obj {
    std::vector<T> v;
    explicit BlobObj(vh::Gen& g) {
        vh::Stream s(g.seed());
        v.resize(g.skew(0, 50));
        for (auto& x : v) {
            uint64_t b = s.next();
            std::memcpy(static_cast<void*>(&x), &b, sizeof x);
        }
        what = fmt::format("blob of {} elements of {} bytes", v.size(), sizeof(T));
    }
    void same(const std::vector<T>& o) const {
        VH_REQUIRE(o.size() == v.size() && (v.empty() || std::memcmp(o.data(), v.data(), v.size() * sizeof(T)) == 0), "{} changed", what);
    }
    void save(lib::SaveTable& t, const std::string& key, const lib::SaveContext& ctx) const override { t.insert(key, lib::save(lib::BinaryBlobSaver<T>(v), ctx)); }
    void check(vh::Gen&, const lib::LoadTable& t, const std::string& key) const override {
        std::vector<T> o = lib::load_at<lib::BinaryBlobLoader<T>>(t, key);
        same(o);
        using U = std::conditional_t<std::is_same_v<T, float>, uint32_t, float>;
        VH_REQUIRE(vh::throws([&] { (void)lib::load_at<lib::BinaryBlobLoader<U>>(t, key); }), "{} was loaded as another type", what);
    }
    void alone(vh::Gen&, const fs::path& dir) const override {
        lib::save_to_disk(lib::BinaryBlobSaver<T>(v), dir);
        std::vector<T> o = lib::load_from_disk<lib::BinaryBlobLoader<T>>(dir);
        same(o);
    }
};

template <typename T> std::unique_ptr<Obj> data_obj(vh::Gen& g) {
    size_t n = g.skew(0, 40), d = g.chance(1, 4) ? 5 : g.skew(1, 30);
    bool poke = g.flip();
    switch (g.raw(2)) {
        case 0: return std::make_unique<DataObj<T, SData<T>>>(g, SData<T>(n, d), poke);
        case 1: return std::make_unique<DataObj<T, BData<T>>>(g, BData<T>(n, d, blocks<T>(g, d)), poke);
        default: return std::make_unique<DataObj<T, svs::data::SimpleData<T, 5>>>(g, svs::data::SimpleData<T, 5>(n, 5), poke);
    }
}
std::unique_ptr<Obj> gen_obj(vh::Gen& g) {
    switch (g.raw(9)) {
        case 0: return data_obj<float>(g);
        case 1: return data_obj<Float16>(g);
        case 2: return data_obj<uint8_t>(g);
        case 3: return data_obj<int64_t>(g);
        case 4: return std::make_unique<GraphObj>(g);
        case 5: return std::make_unique<ClusteringObj>(g);
        case 6: return std::make_unique<TranslatorObj>(g);
        case 7: return std::make_unique<BlobObj<float>>(g);
        case 8: return std::make_unique<BlobObj<uint8_t>>(g);
        default: return std::make_unique<BlobObj<uint64_t>>(g);
    }
}

// Several objects, some of them within a further table.
struct Bundle {
    std::vector<std::unique_ptr<Obj>> objs{};
    std::vector<bool> nested{};
    static constexpr lib::Version save_version{0, 0, 9};
    static constexpr std::string_view serialization_schema = "vh_bundle";
    std::string key(size_t i) const { return fmt::format("object {}", i); }
    lib::SaveTable save(const lib::SaveContext& ctx) const {
        auto t = lib::SaveTable(serialization_schema, save_version);
        for (size_t i = 0; i < objs.size(); ++i) {
            if (nested[i]) {
                auto in = lib::SaveOverride([&](const lib::SaveContext& c) {
                    auto u = lib::SaveTable("vh_inner", save_version);
                    objs[i]->save(u, "inner", c);
                    return u;
                });
                t.insert(key(i), lib::save(in, ctx));
            } else {
                objs[i]->save(t, key(i), ctx);
            }
        }
        return t;
    }
    void check(vh::Gen& g, const fs::path& path) const {
        auto o = lib::begin_deserialization(path);
        auto t = o.cast<toml::table>();
        for (size_t i = objs.size(); i-- > 0;) {
            if (nested[i]) {
                objs[i]->check(g, t.at(key(i)).cast<toml::table>(), "inner");
            } else {
                objs[i]->check(g, t, key(i));
            }
        }
    }
};

size_t tree_size(const fs::path& dir, size_t* largest) {
    size_t total = 0;
    *largest = 0;
    for (auto& e : fs::recursive_directory_iterator(dir)) {
        if (e.is_regular_file()) {
            total += e.file_size();
            *largest = std::max<size_t>(*largest, e.file_size());
        }
    }
    return total;
}
// Things of other programs in a directory, under names in no particular order.
size_t add_foreign(vh::Gen& g, const fs::path& dir) {
    size_t n = g.range(1, 6);
    for (size_t i = 0; i < n; ++i) {
        auto at = dir / (std::string(1, char('a' + g.raw(25))) + "-other-" + std::to_string(i));
        switch (g.raw(5)) {
            case 0: fs::create_directory(at); break;
            case 1: std::ofstream(at, std::ios::binary); break;
            case 2: std::ofstream(at, std::ios::binary) << std::string(g.range(1, 7), 'x'); break;
            case 3: std::ofstream(at, std::ios::binary) << std::string(g.range(8, 3000), char(g.raw(255))); break;
            case 4: {
                fs::create_directory(at);
                std::ofstream(at / "svs_config.toml") << "nothing = 1\n";
                break;
            }
            default: {
                using namespace svs;
                data::SimpleData<float> other(2, 3);
                for (size_t k = 0; k < 2; ++k) {
                    other.set_datum(k, std::vector<float>(3, 99.0f));
                }
                io::save(static_cast<const data::SimpleData<float>&>(other), io::NativeFile(at), lib::UUID());
            }
        }
    }
    return n;
}

} // namespace

VH_CASES("objects in one directory", 4) {
    Bundle b;
    size_t k = g.range(1, 5);
    std::string what;
    for (size_t i = 0; i < k; ++i) {
        b.objs.push_back(gen_obj(g));
        b.nested.push_back(g.chance(1, 3));
        what += (i ? ", " : "") + b.objs.back()->what;
    }
    ctx.describe("{}", what);
    ctx.interesting(k > 1);
    fs::path root = ctx.scratch + "/root", dir = root / "saved";
    fs::create_directories(root);
    if (g.flip()) {
        fs::create_directory(dir); // an existing directory is as good
    }
    bool before = g.chance(1, 4), after = g.chance(1, 4);
    if (before) {
        fs::create_directories(dir);
        ctx.trace(" {} foreign entries before", add_foreign(g, dir));
    }
    lib::save_to_disk(b, dir);
    if (after && !before) {
        ctx.trace(" {} foreign entries after", add_foreign(g, dir));
    }
    auto all = files(root);
    for (auto& f : all) {
        VH_REQUIRE(f == "saved" || f.rfind("saved/", 0) == 0, "file {} was written outside of the directory", f);
    }
    b.check(g, dir);
    switch (g.raw(3)) {
        case 0: {
            fs::path moved = ctx.scratch + "/moved away";
            fs::rename(dir, moved);
            b.check(g, moved);
            b.check(g, moved / "svs_config.toml");
            fs::remove_all(moved);
            break;
        }
        case 1: {
            fs::path copy = root / "copy";
            fs::copy(dir, copy, fs::copy_options::recursive);
            fs::remove_all(dir);
            b.check(g, copy);
            break;
        }
        case 2: {
            auto cwd = fs::current_path();
            fs::current_path(dir);
            try {
                b.check(g, "svs_config.toml");
                b.check(g, ".");
            } catch (...) {
                fs::current_path(cwd);
                throw;
            }
            fs::current_path(cwd);
            break;
        }
        default: {
            // Replaced by other objects.
            Bundle c;
            for (size_t i = g.range(1, 3); i > 0; --i) {
                c.objs.push_back(gen_obj(g));
                c.nested.push_back(false);
            }
            lib::save_to_disk(c, dir);
            c.check(g, dir);
            break;
        }
    }
    fs::remove_all(root);
}

VH_CASES("one object in its directory", 2) {
    auto o = gen_obj(g);
    ctx.describe("{}", o->what);
    ctx.interesting();
    o->alone(g, ctx.scratch + "/alone");
    // Again into the same directory, after something else was there.
    auto p = gen_obj(g);
    p->alone(g, ctx.scratch + "/alone");
    o->alone(g, ctx.scratch + "/alone");
    fs::remove_all(ctx.scratch + "/alone");
}

VH_CASES("a disk that fills up", 2) {
    Bundle b;
    size_t k = g.range(1, 3);
    std::string what;
    for (size_t i = 0; i < k; ++i) {
        b.objs.push_back(gen_obj(g));
        b.nested.push_back(false);
        what += (i ? ", " : "") + b.objs.back()->what;
    }
    fs::path full = ctx.scratch + "/full", dir = ctx.scratch + "/dir";
    lib::save_to_disk(b, full);
    size_t largest = 0;
    tree_size(full, &largest);
    size_t limit = g.flip() ? largest - 1 - g.raw(std::min<size_t>(largest - 1, 40)) : g.range(0, largest);
    ctx.describe("{}; files limited to {} of {} bytes", what, limit, largest);
    ctx.interesting(limit < largest);
    ctx.label(limit < largest ? "does not fit" : "fits");
    bool threw;
    {
        auto cap = FileLimit(limit);
        threw = vh::throws([&] { lib::save_to_disk(b, dir); });
    }
    VH_REQUIRE(threw == (limit < largest), "saving files of {} bytes where {} can be written {}", largest, limit, threw ? "failed" : "succeeded");
    if (!threw) {
        b.check(g, dir);
    } else {
        // Nothing is left that loads with other contents (though it may be complete but for the last line break).
        (void)vh::throws([&] { b.check(g, dir); });
        lib::save_to_disk(b, dir);
        b.check(g, dir);
    }
    fs::remove_all(full);
    fs::remove_all(dir);
}
