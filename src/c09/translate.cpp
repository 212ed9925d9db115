// C09: identifier translation against a map.
#include "vh.hpp"
#include "svs/core/translation.h"

#include <filesystem>
#include <list>
#include <set>
#include <span>
#include <unordered_map>

namespace {
namespace fs = std::filesystem;
using svs::IDTranslator;
using Model = std::map<uint64_t, uint32_t>; // external -> internal

uint64_t gen_external(vh::Gen& g, size_t range) {
    switch (g.raw(4)) {
        case 0: return std::numeric_limits<uint64_t>::max() - g.raw(range);
        case 1: return (uint64_t(1) << 32) * g.raw(4) + g.raw(range); // equal low halves
        default: return g.raw(range);
    }
}
uint32_t gen_internal(vh::Gen& g, size_t range) {
    return g.chance(1, 6) ? std::numeric_limits<uint32_t>::max() - uint32_t(g.raw(range)) : uint32_t(g.raw(range));
}

void check(const IDTranslator& t, const Model& m, vh::Gen& g, size_t range, const char* after) {
    VH_REQUIRE(t.size() == m.size(), "{} pairs instead of {} after {}", t.size(), m.size(), after);
    std::map<uint32_t, uint64_t> inv;
    for (auto& [e, i] : m) {
        inv[i] = e;
        VH_REQUIRE(t.has_external(e), "external {} is lost after {}", e, after);
        VH_REQUIRE(t.has_internal(i), "internal {} is lost after {}", i, after);
        VH_REQUIRE(t.get_internal(e) == i, "external {} leads to {} instead of {} after {}", e, t.get_internal(e), i, after);
        VH_REQUIRE(t.get_external(i) == e, "internal {} leads to {} instead of {} after {}", i, t.get_external(i), e, after);
    }
    size_t count = 0;
    std::set<uint64_t> seen;
    for (auto it = t.begin(), end = t.end(); it != end; ++it, ++count) {
        auto f = m.find(it->first);
        VH_REQUIRE(f != m.end() && f->second == it->second, "the enumeration shows {} -> {} after {}", it->first, it->second, after);
        VH_REQUIRE(seen.insert(it->first).second, "the enumeration shows {} twice after {}", it->first, after);
    }
    VH_REQUIRE(count == m.size(), "the enumeration shows {} of {} pairs after {}", count, m.size(), after);
    for (size_t j = 0; j < 6; ++j) {
        auto e = gen_external(g, range);
        VH_REQUIRE(t.has_external(e) == (m.count(e) > 0), "has_external({}) after {}", e, after);
        if (!m.count(e)) {
            VH_REQUIRE(vh::throws([&] { t.get_internal(e); }), "get_internal({}) of an absent id returns after {}", e, after);
        }
        auto i = gen_internal(g, range);
        VH_REQUIRE(t.has_internal(i) == (inv.count(i) > 0), "has_internal({}) after {}", i, after);
        if (!inv.count(i)) {
            VH_REQUIRE(vh::throws([&] { t.get_external(i); }), "get_external({}) of an absent id returns after {}", i, after);
        }
    }
}

// Call f with the ids in one of several kinds of container.
template <typename Wide, typename F> void as_container(vh::Gen& g, const std::vector<Wide>& ids, F&& f) {
    switch (g.raw(3)) {
        case 0: return f(ids);
        case 1: return f(std::span<const Wide>(ids));
        case 2: return f(std::list<Wide>(ids.begin(), ids.end()));
        default: return f(std::vector<size_t>(ids.begin(), ids.end()));
    }
}
} // namespace

VH_CASES("histories", 6) {
    size_t range = g.pick<size_t>({12, 60, 400});
    size_t nops = g.range(1, 30);
    IDTranslator t;
    Model m;
    std::set<uint32_t> used;
    ctx.describe("ids below {}:", range);
    if (g.chance(1, 4)) {
        size_t n = g.skew(0, range);
        ctx.trace(" identity {}", n);
        t = IDTranslator(IDTranslator::Identity(n));
        for (size_t i = 0; i < n; ++i) {
            m[i] = i;
            used.insert(i);
        }
        check(t, m, g, range, "identity");
    }
    size_t changes = 0, refused = 0;
    for (size_t op = 0; op < nops; ++op) {
        switch (g.raw(9)) {
            case 0:
            case 1:
            case 2:
            case 3: { // insert, maybe with something wrong with the request
                size_t n = g.skew(0, g.chance(1, 20) ? 200 : 12);
                std::vector<uint64_t> es;
                std::vector<uint32_t> is;
                for (size_t j = 0; j < n; ++j) {
                    es.push_back(gen_external(g, range));
                    is.push_back(gen_internal(g, range));
                }
                if (g.chance(1, 3)) {
                    // Mostly acceptable requests.
                    std::set<uint64_t> se;
                    std::set<uint32_t> si;
                    std::vector<uint64_t> e2;
                    std::vector<uint32_t> i2;
                    for (size_t j = 0; j < n; ++j) {
                        if (!m.count(es[j]) && !used.count(is[j]) && se.insert(es[j]).second && si.insert(is[j]).second) {
                            e2.push_back(es[j]);
                            i2.push_back(is[j]);
                        } else {
                            se.erase(es[j]);
                            if (std::find(e2.begin(), e2.end(), es[j]) != e2.end()) {
                                se.insert(es[j]);
                            }
                        }
                    }
                    es = e2;
                    is = i2;
                }
                if (g.chance(1, 12)) {
                    if (g.flip() && !es.empty()) {
                        es.pop_back();
                    } else {
                        es.push_back(gen_external(g, range));
                    }
                }
                bool ok = es.size() == is.size();
                ok = ok && std::set<uint64_t>(es.begin(), es.end()).size() == es.size() && std::set<uint32_t>(is.begin(), is.end()).size() == is.size();
                for (auto e : es) {
                    ok = ok && !m.count(e);
                }
                for (auto i : is) {
                    ok = ok && !used.count(i);
                }
                ctx.trace(" insert {}->{}", vh::show(es, 8), vh::show(is, 8));
                bool threw = false, unchecked = ok && g.chance(1, 4);
                as_container(g, es, [&](const auto& e) {
                    as_container(g, is, [&](const auto& i) { threw = vh::throws([&] { t.insert(e, i, !unchecked); }); });
                });
                VH_REQUIRE(threw == !ok, "inserting {} -> {} {}", vh::show(es), vh::show(is), threw ? "is refused" : "is accepted");
                if (ok) {
                    for (size_t j = 0; j < es.size(); ++j) {
                        m[es[j]] = is[j];
                        used.insert(is[j]);
                    }
                    changes += !es.empty();
                } else {
                    ++refused;
                    ctx.label("refused insertion");
                }
                break;
            }
            case 4: { // a contiguous range of each
                size_t n = g.skew(0, 20), e0 = g.raw(range), i0 = g.raw(range);
                bool ok = true;
                for (size_t j = 0; j < n; ++j) {
                    ok = ok && !m.count(e0 + j) && !used.count(i0 + j);
                }
                ctx.trace(" insert [{}..+{}]->[{}..]", e0, n, i0);
                bool threw = vh::throws([&] { t.insert(svs::threads::UnitRange<size_t>(e0, e0 + n), svs::threads::UnitRange<uint32_t>(i0, i0 + n)); });
                VH_REQUIRE(threw == !ok, "inserting the ranges {}..+{} -> {}.. {}", e0, n, i0, threw ? "is refused" : "is accepted");
                for (size_t j = 0; ok && j < n; ++j) {
                    m[e0 + j] = i0 + j;
                    used.insert(i0 + j);
                }
                changes += ok && n;
                refused += !ok;
                break;
            }
            case 5:
            case 6: { // delete distinct ids, one of which may be absent
                bool external = g.flip();
                std::vector<uint64_t> es;
                for (auto& [e, i] : m) {
                    if (g.chance(1, 3)) {
                        es.push_back(e);
                    }
                }
                vh::Stream s(g.seed());
                for (size_t j = es.size(); j > 1; --j) {
                    std::swap(es[j - 1], es[s.below(j)]);
                }
                bool ok = true;
                if (external) {
                    auto request = es;
                    if (g.chance(1, 3)) {
                        auto e = gen_external(g, range);
                        if (!m.count(e)) {
                            request.insert(request.begin() + g.range(0, request.size()), e);
                            ok = false;
                        }
                    }
                    ctx.trace(" delete external {}", vh::show(request, 8));
                    bool unchecked = ok && g.chance(1, 4);
                    bool threw = false;
                    as_container(g, request, [&](const auto& r) { threw = vh::throws([&] { t.delete_external(r, !unchecked); }); });
                    VH_REQUIRE(threw == !ok, "deleting external {} {}", vh::show(request), threw ? "is refused" : "is accepted");
                } else {
                    std::vector<uint32_t> request;
                    for (auto e : es) {
                        request.push_back(m[e]);
                    }
                    if (g.chance(1, 3)) {
                        auto i = gen_internal(g, range);
                        if (!used.count(i)) {
                            request.insert(request.begin() + g.range(0, request.size()), i);
                            ok = false;
                        }
                    }
                    ctx.trace(" delete internal {}", vh::show(request, 8));
                    bool unchecked = ok && g.chance(1, 4);
                    bool threw = false;
                    as_container(g, request, [&](const auto& r) { threw = vh::throws([&] { t.delete_internal(r, !unchecked); }); });
                    VH_REQUIRE(threw == !ok, "deleting internal {} {}", vh::show(request), threw ? "is refused" : "is accepted");
                }
                if (ok) {
                    for (auto e : es) {
                        used.erase(m[e]);
                        m.erase(e);
                    }
                    changes += !es.empty();
                } else {
                    ++refused;
                    ctx.label("refused deletion");
                }
                break;
            }
            case 7: { // remap some to free slots
                size_t n = g.range(1, 4);
                for (size_t j = 0; j < n && !m.empty(); ++j) {
                    auto it = std::next(m.begin(), g.raw(m.size() - 1));
                    auto to = gen_internal(g, range);
                    if (used.count(to)) {
                        continue;
                    }
                    ctx.trace(" remap {} to {}", it->second, to);
                    t.remap_internal_id(it->second, to);
                    used.erase(it->second);
                    used.insert(to);
                    it->second = to;
                    ++changes;
                }
                break;
            }
            case 8: {
                ctx.trace(" save and load");
                auto dir = fs::path(ctx.scratch) / "translator";
                fs::remove_all(dir);
                svs::lib::save_to_disk(t, dir);
                check(t, m, g, range, "saving");
                if (g.flip()) {
                    auto moved = fs::path(ctx.scratch) / "moved";
                    fs::remove_all(moved);
                    fs::rename(dir, moved);
                    dir = moved;
                }
                t = svs::lib::load_from_disk<IDTranslator>(dir);
                fs::remove_all(dir);
                ctx.label("reloaded");
                break;
            }
            default: {
                ctx.trace(" copy");
                IDTranslator other = t;
                // The copy is independent.
                if (!m.empty()) {
                    t.delete_external(std::vector<uint64_t>{m.begin()->first});
                }
                check(other, m, g, range, "copying");
                t = std::move(other);
                break;
            }
        }
        check(t, m, g, range, "an operation");
    }
    ctx.interesting(changes >= 3 && (refused > 0 || nops > 6));
}
