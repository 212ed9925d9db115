#pragma once
#include "dynamic_sim.hpp"

namespace c07 {
using namespace dyn;

template <typename T, typename D, typename Graph> void history(vh::Gen& g, vh::Ctx& ctx) {
    constexpr Dist kind = dist_tag<D>::value;
    size_t n = g.chance(1,10) ? 0 : g.skew(1, 60);
    size_t d = g.flip() ? g.range(1, 8) : gen_dim(g, 40);
    size_t values = g.raw(NUM_KINDS - 1);
    auto params = gen_params(g, kind);
    size_t threads = gen_few_threads(g);
    ctx.describe("dynamic index {} {} n={} d={} {} {} threads={}:", type_name<T>(), dist_name(kind), n, d, kind_name(values), params.show(), threads);
    auto sim = Sim<T, D, Graph>(d, values, params, n + 200, g.seed());
    auto first = sim.fresh(g, n);
    sim.build(g, n, first, threads);
    sim.check_contents(g, "build");
    size_t adds = 0, dels = 0, others = 0;
    size_t nops = g.range(1, 12);
    for (size_t op = 0; op < nops; ++op) {
        std::string what;
        size_t choice = g.raw(15);
        switch (choice) {
            case 0:
            case 1: {
                size_t m = g.chance(1, 10) ? 0 : g.skew(1, 30);
                auto eids = sim.fresh(g, m);
                auto x = sim.take(m);
                ctx.trace(" add {} as {}", m, vh::show(eids, 4));
                sim.add(x, eids);
                what = "adding";
                adds += m > 0;
                break;
            }
            case 2: { // replace: delete some ids, then add them again with other vectors
                auto eids = sim.some_ids(g, g.range(1, 10));
                ctx.trace(" replace {}", vh::show(eids, 4));
                if (!eids.empty()) {
                    sim.remove(eids);
                    if (g.flip()) {
                        sim.consolidate();
                    }
                    sim.add(sim.take(eids.size()), eids);
                    ++adds, ++dels;
                }
                what = "replacing";
                break;
            }
            case 3:
            case 4:
            case 5: {
                size_t m = g.chance(1, 8) ? sim.model.size() : g.chance(1, 20) ? 0 : g.skew(1, 20);
                auto eids = sim.some_ids(g, m);
                ctx.trace(" delete {}", vh::show(eids, 4));
                sim.remove(eids);
                what = "deleting";
                ++dels;
                if (sim.model.empty()) {
                    ctx.label("everything deleted");
                }
                break;
            }
            case 6:
            case 7:
                ctx.trace(" consolidate");
                sim.consolidate();
                what = "consolidating";
                ++others;
                break;
            case 8:
            case 9: {
                size_t batch = g.flip() ? g.skew(1, 80) : 1000;
                ctx.trace(" compact {}", batch);
                if (sim.soft) {
                    ctx.label("compact with unconsolidated deletions");
                }
                auto before = sim.snapshot();
                sim.index->compact(batch);
                VH_REQUIRE(sim.model.empty() || sim.snapshot() == before, "compacting changed the graph of the live entries");
                what = "compacting";
                ++others;
                break;
            }
            case 10: {
                auto t = gen_few_threads(g);
                ctx.trace(" save and reload");
                sim.reload(std::filesystem::path(ctx.scratch) / "index", t, g.flip());
                what = "reloading";
                ++others;
                ctx.label("reloaded");
                break;
            }
            case 11: { // an id that is there, or twice in the request
                auto before = sim.snapshot();
                size_t m = g.range(1, 8);
                auto eids = sim.fresh(g, m);
                auto x = sim.take(m);
                if (sim.model.empty() || g.chance(1, 3)) {
                    if (m < 2) {
                        continue;
                    }
                    eids[m - 1] = eids[g.range(0, m - 2)];
                } else {
                    eids[g.range(0, m - 1)] = sim.some_ids(g, 1)[0];
                }
                ctx.trace(" refused add of {}", vh::show(eids, 8));
                VH_REQUIRE(vh::throws([&] { sim.index->add_points(x.view(), eids); }), "adding an id that is present or repeated is accepted");
                VH_REQUIRE(sim.snapshot() == before, "a refused addition changed the graph");
                what = "a refused addition";
                ctx.label("refused addition");
                break;
            }
            case 12: { // counts or dimensions that do not match
                auto before = sim.snapshot();
                size_t m = g.range(1, 6);
                if (g.flip()) {
                    auto x = sim.take(m);
                    auto eids = sim.fresh(g, g.flip() ? m + 1 : m - 1);
                    ctx.trace(" refused add of {} points with {} ids", m, eids.size());
                    VH_REQUIRE(vh::throws([&] { sim.index->add_points(x.view(), eids); }), "{} points with {} ids are accepted", m, eids.size());
                } else {
                    size_t wrong = g.flip() ? d + g.range(1, 3) : (d > 1 ? d - 1 : d + 1);
                    auto x = matrix<T>(m, wrong, 0, g.seed());
                    ctx.trace(" refused add of {} vectors of length {}", m, wrong);
                    auto eids = sim.fresh(g, m);
                    VH_REQUIRE(vh::throws([&] { sim.index->add_points(x.view(), eids); }), "vectors of length {} are accepted", wrong);
                }
                VH_REQUIRE(sim.snapshot() == before, "a refused addition changed the graph");
                what = "a mismatched addition";
                ctx.label("mismatched addition");
                break;
            }
            case 13: { // deleting an absent id, or one twice
                auto before = sim.snapshot();
                auto eids = sim.some_ids(g, g.range(0, 6));
                if (!eids.empty() && g.flip()) {
                    eids.push_back(eids[g.range(0, eids.size() - 1)]);
                } else {
                    eids.insert(eids.begin() + g.range(0, eids.size()), sim.fresh(g, 1)[0]);
                }
                ctx.trace(" refused delete of {}", vh::show(eids, 8));
                VH_REQUIRE(vh::throws([&] { sim.index->delete_entries(eids); }), "deleting absent or repeated ids {} is accepted", vh::show(eids, 8));
                VH_REQUIRE(sim.snapshot() == before, "a refused deletion changed the index");
                what = "a refused deletion";
                ctx.label("refused deletion");
                break;
            }
            case 14: { // settings
                ctx.trace(" change settings");
                auto p = gen_params(g, kind);
                sim.index->set_alpha(p.alpha);
                sim.index->set_construction_window_size(p.window);
                sim.index->set_max_candidates(p.candidates);
                sim.index->set_full_search_history(p.history);
                VH_REQUIRE(sim.index->get_alpha() == p.alpha && sim.index->get_construction_window_size() == p.window && sim.index->get_max_candidates() == p.candidates && sim.index->get_full_search_history() == p.history, "settings do not stick");
                auto t = gen_few_threads(g);
                sim.index->set_num_threads(t);
                VH_REQUIRE(sim.index->get_num_threads() == t, "{} threads instead of {}", sim.index->get_num_threads(), t);
                if (g.flip()) {
                    sim.index->reset_performance_parameters();
                }
                what = "changing settings";
                break;
            }
            default: { // reconstruction requests that must be refused
                auto all = sim.some_ids(g, g.range(0, 4));
                ctx.trace(" reconstruct");
                all.push_back(sim.fresh(g, 1)[0]);
                Mat<float> dst(all.size(), d);
                std::fill(dst.v.begin(), dst.v.end(), 77.0f);
                VH_REQUIRE(vh::throws([&] { sim.index->reconstruct_at(svs::data::SimpleDataView<float>(dst.v.data(), all.size(), d), std::span<const size_t>(all)); }), "reconstructing an absent id is accepted");
                for (auto v : dst.v) {
                    VH_REQUIRE(v == 77.0f, "a refused reconstruction wrote to its destination");
                }
                all.pop_back();
                VH_REQUIRE(all.empty() || vh::throws([&] { sim.index->reconstruct_at(svs::data::SimpleDataView<float>(dst.v.data(), all.size() + 1, d), std::span<const size_t>(all)); }), "reconstruction with a wrong destination size is accepted");
                what = "reconstruction";
                break;
            }
        }
        sim.check_contents(g, what.c_str());
        if (g.flip() || op + 1 == nops) {
            sim.check_search(g, ctx, what.c_str());
        }
    }
    ctx.interesting(adds + dels + others >= 2 && dels >= 1);
}
} // namespace c07
