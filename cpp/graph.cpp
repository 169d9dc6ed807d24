// Drives input_graph and components.
#include "driver.hpp"
#include "graph.hpp"

namespace {

void put_graph(Out &out, const graph::input_graph &g) {
    out.push_back(static_cast<i64>(g.num_nodes()));
    out.push_back(static_cast<i64>(g.num_edges()));
    for (size_t i = 0; i < g.num_edges(); i++) {
        out.push_back(g.a(static_cast<int>(i)));
        out.push_back(g.b(static_cast<int>(i)));
    }
}

void graphs(Reader &in, Out &out) {
    int n = static_cast<int>(in());
    bool grow = in() != 0;
    std::vector<int> a = in.list(), b = in.list(), flags = in.list(), perm = in.list(), mask = in.list();
    int threshold = static_cast<int>(in());
    bool reserve = in() != 0;
    std::vector<int> query = in.list();
    graph::input_graph g;
    if (grow) {
        for (size_t i = 0; i < a.size(); i++) g.push_back(a[i], b[i]);
    } else {
        g = graph::input_graph(n, a, b);
    }
    put_graph(out, g);
    // the masks are given for n nodes; a grown graph may have fewer
    put_lists(out, g.get_neighbors());
    put_lists(out, g.get_neighbors_sources(flags));
    put_lists(out, g.get_neighbors_sinks(flags));
    put_lists(out, g.get_neighbors_sources(threshold));
    put_lists(out, g.get_neighbors_sinks(threshold));
    if (!grow) {
        put_lists(out, g.get_neighbors(perm));
        put_lists(out, g.get_neighbors(perm, mask));
        put_lists(out, g.get_neighbors_sources(flags, perm));
        put_lists(out, g.get_neighbors_sinks(flags, perm, mask));
    }
    std::unique_ptr<graph::components> c(reserve ? new graph::components(g, flags) : new graph::components(g));
    out.push_back(static_cast<i64>(c->size()));
    for (int i = 0; i < static_cast<int>(c->size()); i++) {
        put_list(out, c->nodes(i));
        out.push_back(static_cast<i64>(c->size(i)));
        out.push_back(static_cast<i64>(c->num_reserved(i)));
        put_graph(out, c->component_graph(i));
        put_lists(out, c->component_neighbors(i));
        for (int x : query) {
            std::vector<int> one{x}, to;
            out.push_back(c->into_component(i, one, to));
            put_list(out, to);
        }
        std::vector<int> to;
        out.push_back(c->into_component(i, query, to));
        std::vector<int> all, back;
        for (size_t j = c->nodes(i).size(); j--;) all.push_back(static_cast<int>(j));
        c->from_component(i, all, back);
        put_list(out, back);
    }
    g.clear();
    put_graph(out, g);
}

}  // namespace

void run_program(const std::string &, Reader &in, Out &out) { graphs(in, out); }
