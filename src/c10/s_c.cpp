#include "common.hpp"
using namespace c10;
VH_CASES("dynamic float L2", 4) { dynamics<float, svs::DistanceL2>(g, ctx); }
VH_CASES("dynamic int8 IP", 2) { dynamics<int8_t, svs::DistanceIP>(g, ctx); }
VH_CASES("static loaded as dynamic", 1) { from_static<float, svs::DistanceL2>(g, ctx); }
VH_CASES("static loaded as dynamic, float16 IP", 1) { from_static<Float16, svs::DistanceIP>(g, ctx); }

// Configurations written by older versions.
VH_CASES("older configurations", 1) {
    auto p = dyn::gen_params(g, Dist::L2).build();
    size_t entry = g.skew(0, 1000), window = g.skew(1, 200), version = g.raw(3);
    bool visited = g.flip();
    fs::path dir = fs::path(ctx.scratch) / "config";
    fs::remove_all(dir);
    fs::create_directories(dir);
    std::string text = fmt::format("__version__ = \"v0.0.2\"\n\n[object]\n__schema__ = \"vamana_index_parameters\"\n__version__ = \"v0.0.{}\"\n", version == 3 ? 3 : version);
    auto sp = VamanaSearchParameters({window}, visited, 4, 1);
    if (version < 3) {
        text += fmt::format("name = \"vamana config parameters\"\nentry_point = {}\nalpha = {:.9f}\nmax_out_degree = {}\nconstruction_window_size = {}\nmax_candidates = {}\ndefault_search_window_size = {}\nvisited_set = {}\n", entry, p.alpha, p.graph_max_degree, p.window_size, p.max_candidate_pool_size, window, visited);
        if (version >= 1) text += fmt::format("use_full_search_history = {}\n", p.use_full_search_history); else p.use_full_search_history = true;
        if (version >= 2) text += fmt::format("prune_to = {}\n", p.prune_to); else p.prune_to = p.graph_max_degree;
    } else {
        // Search parameters without prefetching.
        size_t capacity = window + g.raw(20);
        sp.buffer_config({window, capacity});
        text += fmt::format("name = \"vamana index parameters\"\nentry_point = {}\n[object.build_parameters]\n__schema__ = \"vamana_build_parameters\"\n__version__ = \"v0.0.1\"\nname = \"vamana build parameters\"\nalpha = {:.9f}\ngraph_max_degree = {}\nwindow_size = {}\nmax_candidate_pool_size = {}\nprune_to = {}\nuse_full_search_history = {}\n[object.search_parameters]\n__schema__ = \"vamana_search_parameters\"\n__version__ = \"v0.0.0\"\nsearch_window_size = {}\nsearch_buffer_capacity = {}\nsearch_buffer_visited_set = {}\n",
            entry, p.alpha, p.graph_max_degree, p.window_size, p.max_candidate_pool_size, p.prune_to, p.use_full_search_history, window, capacity, visited);
    }
    ctx.describe("configuration of version 0.0.{}: entry {} {} {}", version, entry, c10::show(p), c10::show(sp));
    std::ofstream(dir / "svs_config.toml") << text;
    auto got = lib::load_from_disk<vam::VamanaIndexParameters>(dir);
    VH_REQUIRE(got.entry_point == entry && got.build_parameters == p && got.search_parameters == sp, "loaded as entry {} {} {}", got.entry_point, c10::show(got.build_parameters), c10::show(got.search_parameters));
    // Saved in the present form, it is the same again.
    lib::save_to_disk(got, fs::path(ctx.scratch) / "now");
    VH_REQUIRE(lib::load_from_disk<vam::VamanaIndexParameters>(fs::path(ctx.scratch) / "now") == got, "it does not survive saving in the present form");
    ctx.interesting(version < 3);
}
