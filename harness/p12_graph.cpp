// P12: components, paths and misuse of the allocation graph.
#include "graph_common.h"

namespace {
using namespace graphs;

// ---- components -------------------------------------------------------------
std::vector<size_t> classes(const G& d)
{
    std::vector<size_t> c(d.n);
    for (size_t i = 0; i < d.n; i++)
        c[i] = i;
    for (size_t r = 0; r <= d.n; r++) {
        for (auto& x : d.e) {
            if (x.u != SRC && x.v != SNK) {
                size_t m = std::min(c[x.u], c[x.v]);
                c[x.u] = c[x.v] = m;
            }
        }
    }
    return c;
}
void check_components(const TethysGraph& g, const G& d)
{
    auto             cl = classes(d);
    std::vector<int> size(d.n, 0);
    for (size_t v = 0; v < d.n; v++) {
        size[cl[v]]++;
    }
    for (size_t v = 0; v < d.n; v++) {
        for (size_t w = 0; w < v; w++) {
            size_t a = g.get_vertex(VertexPtr(v)).component, b = g.get_vertex(VertexPtr(w)).component;
            if (cl[v] == cl[w]) {
                MC_CHECK(a == b, "connected vertices " + s(w) + " and " + s(v)
                                     + " get different component labels in " + d.show());
            } else if (size[cl[v]] > 1 && size[cl[w]] > 1) {
                MC_CHECK(a != b, "vertices " + s(w) + " and " + s(v)
                                     + " of different components get the same label in " + d.show());
            }
        }
    }
    mc::validated();
}
void components(size_t n, int m)
{
    G d;
    d.n = n;
    for (int i = 0; i < m; i++) {
        d.e.push_back(pick_edge(n, 1, false));
    }
    // attachments never connect vertices
    for (int att = 0; att < 3; att++) {
        G x = d;
        for (size_t v = 0; v < n && att; v++) {
            x.e.push_back(E{SRC, v, 1});
            if (att == 2) {
                x.e.insert(x.e.begin(), E{v, SNK, 2});
            }
        }
        std::vector<EdgePtr> ptr;
        auto                 g = build(x, ptr);
        g->compute_connected_components();
        check_components(*g, x);
        mc::transitions();
    }
}

// ---- paths ------------------------------------------------------------------
// is the sink reachable from the source through spare capacity, within the
// component (0: everything when components were not computed)
bool reachable(const G& d, const std::vector<size_t>& rec, const std::function<bool(size_t)>& in)
{
    std::vector<bool> seen(d.n, false);
    bool              more = true;
    auto              has  = [&](size_t v) { return v == SRC || (v != SNK && seen[v]); };
    while (more) {
        more = false;
        for (size_t i = 0; i < d.e.size(); i++) {
            auto& x = d.e[i];
            if (rec[i] < x.cap && has(x.u)) {
                if (x.v == SNK) {
                    return true;
                }
                if (!seen[x.v] && in(x.v)) {
                    seen[x.v] = more = true;
                }
            }
            if (rec[i] > 0 && x.v != SNK && x.u != SRC && has(x.v) && !seen[x.u] && in(x.u)) {
                seen[x.u] = more = true;
            }
        }
    }
    return false;
}
void check_path(TethysGraph& g, const G& d, const std::vector<EdgePtr>& ptr, const std::vector<size_t>& rec,
                size_t component, const std::function<bool(size_t)>& in)
{
    size_t flow = 12345;
    auto   p    = g.find_source_sink_path(component, &flow);
    auto   p2   = g.find_source_sink_path(component, nullptr);
    MC_CHECK(p == p2, "the path depends on whether its flow is asked for in " + d.show());
    std::string at = " in " + d.show() + " with used capacities";
    for (auto r : rec)
        at += " " + s(r);
    bool want = reachable(d, rec, in);
    MC_CHECK(p.empty() || want, "a path is returned but none exists" + at);
    MC_CHECK(!p.empty() || !want, "no path is found but one exists" + at);
    mc::validated();
    if (p.empty()) {
        MC_CHECK(flow == 0, "no path is found but its flow is " + s(flow) + at);
        return;
    }
    size_t           cur = SRC, least = ~0UL;
    std::set<size_t> visited;
    for (EdgePtr e : p) {
        size_t i = 0;
        while (i < ptr.size() && (size_t)ptr[i].index != (size_t)e.index) {
            i++;
        }
        MC_CHECK(i < ptr.size(), "the path holds an unknown edge" + at);
        size_t from = e.is_reciprocal ? d.e[i].v : d.e[i].u, to = e.is_reciprocal ? d.e[i].u : d.e[i].v;
        size_t spare = e.is_reciprocal ? rec[i] : d.e[i].cap - rec[i];
        MC_CHECK(from == cur, "the edges of the path are not chained" + at);
        MC_CHECK(spare > 0, "the path uses an edge without spare capacity" + at);
        MC_CHECK(to == SNK || in(to), "the path leaves its component" + at);
        MC_CHECK(visited.insert(to).second, "the path visits a vertex twice" + at);
        least = std::min(least, spare);
        cur   = to;
    }
    MC_CHECK(cur == SNK, "the path does not end at the sink" + at);
    MC_CHECK(flow == least, "the path's flow is reported as " + s(flow) + " instead of " + s(least) + at);
}
void paths(size_t n, int m, int cap)
{
    G d;
    d.n = n;
    for (int i = 0; i < m; i++) {
        d.e.push_back(pick_edge(n, cap, false));
    }
    // attachments
    for (size_t v = 0; v < n; v++) {
        int k = mc::choose(4, "attach");
        if (k & 1)
            d.e.push_back(E{SRC, v, 2});
        if (k & 2)
            d.e.push_back(E{v, SNK, 1});
    }
    std::vector<EdgePtr> ptr;
    auto                 g = build(d, ptr);
    auto                 gc = build(d, ptr);
    gc->compute_connected_components();
    auto                cl = classes(d);
    std::vector<size_t> rec(d.e.size(), 0);
    for (;;) {
        for (size_t i = 0; i < d.e.size(); i++) {
            for (TethysGraph* x : {g.get(), gc.get()}) {
                x->get_edge(ptr[i]).flow     = d.e[i].cap - rec[i];
                x->get_edge(ptr[i]).rec_flow = rec[i];
            }
        }
        check_path(*g, d, ptr, rec, 0, [](size_t) { return true; });
        std::set<size_t> done;
        for (size_t v = 0; v < n; v++) {
            size_t c = gc->get_vertex(VertexPtr(v)).component;
            if (done.insert(c).second) {
                check_path(*gc, d, ptr, rec, c,
                           [&](size_t w) { return gc->get_vertex(VertexPtr(w)).component == c; });
            }
        }
        mc::transitions();
        size_t i = 0;
        while (i < rec.size() && ++rec[i] > d.e[i].cap) {
            rec[i++] = 0;
        }
        if (i == rec.size()) {
            break;
        }
    }
}

// ---- misuse -----------------------------------------------------------------
template<class F>
bool rejected(F f)
{
    try {
        f();
    } catch (std::exception&) {
        return true;
    }
    return false;
}
const size_t kBad[] = {2, 3, ~0UL, ~0UL - 1, ~0UL - 2, 1UL << 63};

// all that is visible of a graph
std::string picture(TethysGraph& g, const G& d, const std::vector<EdgePtr>& ptr)
{
    std::string o;
    for (auto& p : ptr) {
        const Edge& e = g.get_edge(p);
        o += s(e.value_index) + ":" + s(e.capacity) + ":" + s(e.flow) + ":" + s(e.rec_flow) + ":" + s(e.start.index) + ":"
             + s(e.end.index) + " ";
    }
    auto vertex = [&](VertexPtr v) {
        const Vertex& x = g.get_vertex(v);
        o += "|";
        for (auto e : x.in_edges)
            o += s(e.index) + ",";
        o += ">";
        for (auto e : x.out_edges)
            o += s(e.index) + ",";
    };
    for (size_t v = 0; v < d.n; v++) {
        vertex(VertexPtr(v));
    }
    vertex(kSourcePtr);
    vertex(kSinkPtr);
    return o;
}

void misuse(int depth)
{
    G d;
    d.n = 2;
    TethysGraph          g(2);
    std::vector<EdgePtr> ptr;
    int                  phase = 0; // building, residual computed, flow computed
    std::string          tr;
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(12, "op");
        mc::transitions();
        std::string before = picture(g, d, ptr);
        bool        rej = false, expect = false;
        tr += " " + s(op);
        auto at = [&] { return " [operations" + tr + "]"; };
        switch (op) {
        case 0:
        case 1:
        case 2: {
            static const E es[] = {{0, 1, 2}, {SRC, 0, 3}, {1, SNK, 1}};
            expect              = phase != 0;
            rej                 = rejected([&] {
                EdgePtr p = add(g, es[op], 7);
                ptr.push_back(p);
            });
            if (!rej) {
                d.e.push_back(es[op]);
                MC_CHECK(ptr.back().index == ptr.size() - 1 && !ptr.back().is_reciprocal,
                         "a new edge gets a wrong handle" + at());
            }
            break;
        }
        case 3:
        case 4:
        case 5:
            // every out-of-range vertex, every position
            expect = true;
            rej    = true;
            for (size_t b : kBad) {
                if (op == 3) {
                    rej = rej && rejected([&] { g.add_edge(7, 1, b, 0); });
                    rej = rej && rejected([&] { g.add_edge(7, 1, 0, b); });
                    rej = rej && rejected([&] { g.add_edge(7, 1, b, b); });
                } else if (op == 4) {
                    rej = rej && rejected([&] { g.add_edge_from_source(7, 1, b); });
                } else {
                    rej = rej && rejected([&] { g.add_edge_to_sink(7, 1, b); });
                }
            }
            break;
        case 6:
            expect = phase != 0;
            rej    = rejected([&] { g.compute_residual_maxflow(); });
            phase  = std::max(phase, 1);
            break;
        case 7: {
            ThreadPool pool(1);
            expect = phase != 0;
            rej    = rejected([&] { g.parallel_compute_residual_maxflow(pool); });
            phase  = std::max(phase, 1);
            break;
        }
        case 8:
            expect = phase != 1;
            rej    = rejected([&] { g.transform_residual_to_flow(); });
            phase  = phase == 1 ? 2 : phase;
            break;
        case 9:
            expect = phase != 2;
            rej    = rejected([&] { g.get_flow(); });
            break;
        case 10:
            expect = phase != 2;
            if (!ptr.empty()) {
                rej = rejected([&] { g.get_edge_flow(ptr[0]); });
            } else {
                rej = expect;
            }
            break;
        case 11:
            expect = phase != 2;
            rej    = expect;
            for (VertexPtr v : {VertexPtr(0), VertexPtr(1), kSourcePtr, kSinkPtr}) {
                rej = expect ? rej && rejected([&] { g.get_vertex_in_flow(v); })
                             : rej || rejected([&] { g.get_vertex_in_flow(v); });
                rej = expect ? rej && rejected([&] { g.get_vertex_out_flow(v); })
                             : rej || rejected([&] { g.get_vertex_out_flow(v); });
            }
            break;
        }
        MC_CHECK(!rej || expect, "a legal operation is rejected" + at());
        MC_CHECK(rej || !expect, "a misuse is accepted" + at());
        if (rej) {
            MC_CHECK(picture(g, d, ptr) == before, "a rejected operation changes the graph" + at());
        }
        // the structure is the one that was built
        for (size_t k = 0; k < ptr.size(); k++) {
            const Edge& e = g.get_edge(ptr[k]);
            const E&    x = d.e[k];
            MC_CHECK(e.capacity == x.cap && e.value_index == 7
                         && e.start == (x.u == SRC ? kSourcePtr : VertexPtr(x.u))
                         && e.end == (x.v == SNK ? kSinkPtr : VertexPtr(x.v)),
                     "an edge changed" + at());
            MC_CHECK(phase != 0 || (e.flow == x.cap && e.rec_flow == 0), "a new edge carries flow" + at());
        }
        auto adj = [&](VertexPtr v, size_t m) {
            std::vector<size_t> in, out;
            for (size_t k = 0; k < ptr.size(); k++) {
                if (d.e[k].u == m)
                    out.push_back(k);
                if (d.e[k].v == m)
                    in.push_back(k);
            }
            std::vector<size_t> gi, go;
            for (auto e : g.get_vertex(v).in_edges)
                gi.push_back(e.index);
            for (auto e : g.get_vertex(v).out_edges)
                go.push_back(e.index);
            MC_CHECK(gi == in && go == out, "the edges of a vertex are wrong" + at());
        };
        adj(VertexPtr(0), 0);
        adj(VertexPtr(1), 1);
        adj(kSourcePtr, SRC);
        adj(kSinkPtr, SNK);
        mc::validated();
        mc::state(s(phase) + picture(g, d, ptr));
    }
    mc::outcome(s(phase));
}
} // namespace

void mc_register()
{
    quiet();
    bool t   = mc::thorough();
    auto add = [](const std::string& name, int depth, std::function<void()> f) {
        mc::Config c;
        c.shards      = depth ? 32 : 1;
        c.shard_depth = std::min(depth, 3);
        mc::add(name, c, f);
    };
    for (int n = 1; n <= 5; n++) {
        for (int m = 0; m <= (t ? 4 : n == 5 ? 3 : 4); m++) {
            add("components: " + s(n) + " vertices, " + s(m) + " edges", m, [n, m] { components(n, m); });
        }
    }
    if (t) {
        add("components: 6 vertices, 4 edges", 4, [] { components(6, 4); });
        add("components: 4 vertices, 5 edges", 5, [] { components(4, 5); });
    }
    for (int n = 1; n <= 3; n++) {
        for (int m = 0; m <= (t ? 3 : n == 3 ? 2 : 3); m++) {
            add("paths: " + s(n) + " vertices, " + s(m) + " edges", m, [n, m, t] { paths(n, m, n < 3 ? 2 : 1); });
        }
    }
    add("paths: 4 vertices, " + s(1 + t) + " edges", 1 + t, [t] { paths(4, 1 + t, 1); });
    add("misuse", 4, [t] { misuse(t ? 6 : 4); });
    add("empty graph", 0, [] {
        MC_CHECK(rejected([] { TethysGraph g(0); }), "a graph without vertices is accepted");
    });
}
