// P10: maximum flow on every small graph.
#include "graph_common.h"

namespace {
using namespace graphs;

// one enumeration: n vertices, m edges, per-vertex attachments. All orders of
// insertion of the inner edges are covered, since edges are ordered.
struct Space
{
    size_t n;
    int    m, caps;
    bool   zero;
    // attachment patterns of a vertex: (source, sink) capacities
    std::vector<std::pair<size_t, size_t>> att;
    // 0: attachments after the edges, 1: before
    bool before = false;
};

void run(const Space& sp)
{
    std::vector<E> inner;
    for (int i = 0; i < sp.m; i++) {
        inner.push_back(pick_edge(sp.n, sp.caps, sp.zero));
    }
    // the attachments are enumerated here, to spare the explorer
    std::vector<size_t>  a(sp.n, 0);
    std::vector<EdgePtr> ptr;
    G                    d;
    d.n = sp.n;
    for (;;) {
        d.e.clear();
        if (!sp.before) {
            d.e = inner;
        }
        for (size_t v = 0; v < sp.n; v++) {
            auto at = sp.att[a[v]];
            if (at.first) {
                d.e.push_back(E{SRC, v, at.first});
            }
            if (at.second) {
                d.e.push_back(E{v, SNK, at.second});
            }
        }
        if (sp.before) {
            d.e.insert(d.e.end(), inner.begin(), inner.end());
        }
        auto g = build(d, ptr);
        g->compute_residual_maxflow();
        check_flow(*g, d, ptr);
        mc::transitions();
        size_t v = 0;
        while (v < sp.n && ++a[v] == sp.att.size()) {
            a[v++] = 0;
        }
        if (v == sp.n) {
            break;
        }
    }
}

// every residual state from which the computation may start is not reachable
// through the interface, but several source and sink edges per vertex are
void multi()
{
    G d;
    d.n = 2;
    std::vector<EdgePtr> ptr;
    int                  k = mc::choose(4, "length") + 1;
    for (int i = 0; i < k; i++) {
        int c   = mc::choose(2, "cap") ? 3 : 1;
        int who = mc::choose(8, "edge");
        if (who < 2) {
            d.e.push_back(E{SRC, (size_t)who, (size_t)c});
        } else if (who < 4) {
            d.e.push_back(E{(size_t)who - 2, SNK, (size_t)c});
        } else {
            d.e.push_back(E{(size_t)(who - 4) / 2, (size_t)(who - 4) % 2, (size_t)c});
        }
    }
    auto g = build(d, ptr);
    g->compute_residual_maxflow();
    check_flow(*g, d, ptr);
    mc::transitions();
}

// the shapes the allocation builds: large capacities
void large()
{
    static const size_t caps[] = {1, 511, 512, 1UL << 33, (1UL << 62)};
    G                   d;
    d.n = 3;
    for (size_t v = 0; v < 3; v++) {
        int k = mc::choose(7, "attach");
        if (k >= 1 && k < 4) {
            d.e.push_back(E{SRC, v, caps[k - 1 + (v == 1)]});
        } else if (k >= 4) {
            d.e.push_back(E{v, SNK, caps[k - 4 + (v == 1)]});
        }
    }
    for (int i = 0; i < 3; i++) {
        int k = mc::choose(i < 2 ? 20 : 4, "edge");
        if (k % 4 == 3) {
            continue;
        }
        static const int pair[5][2] = {{0, 1}, {1, 2}, {2, 0}, {1, 0}, {0, 2}};
        d.e.push_back(E{(size_t)pair[k / 4][0], (size_t)pair[k / 4][1], caps[k % 4 * 2]});
    }
    // keep the sums below 2^64
    size_t big = 0;
    for (auto& x : d.e) {
        big += x.cap >= (1UL << 62);
    }
    if (big > 3) {
        mc::prune();
    }
    std::vector<EdgePtr> ptr;
    auto                 g = build(d, ptr);
    g->compute_residual_maxflow();
    check_flow(*g, d, ptr);
    mc::transitions();
}
} // namespace

void mc_register()
{
    quiet();
    bool                                   t = mc::thorough();
    std::vector<std::pair<size_t, size_t>> full, one;
    for (size_t a = 0; a < 3; a++)
        for (size_t b = 0; b < 3; b++)
            full.push_back({a, b});
    one = {{0, 0}, {2, 0}, {0, 2}};
    auto add = [](const std::string& name, Space sp) {
        mc::Config c;
        c.shards      = 32;
        c.shard_depth = std::min(sp.m, 2);
        mc::add(name, c, [sp] { run(sp); });
    };
    for (int m = 0; m <= 4; m++) {
        add("1 vertex, " + s(m) + " edges", Space{1, m, 2, true, full});
    }
    for (int m = 0; m <= 4; m++) {
        add("2 vertices, " + s(m) + " edges", Space{2, m, 2, true, full});
    }
    for (int m = 0; m <= (t ? 3 : 2); m++) {
        add("3 vertices, " + s(m) + " edges", Space{3, m, 2, true, full});
    }
    add("3 vertices, 3 edges, attached first", Space{3, 3, 2, false, full, true});
    add("3 vertices, 4 edges", Space{3, 4, 2, false, {{0, 0}, {1, 0}, {2, 0}, {0, 1}, {0, 2}}});
    add("4 vertices, 3 edges", Space{4, 3, 2, false, one});
    add("4 vertices, 4 edges", Space{4, 4, 1, false, one});
    if (t) {
        add("4 vertices, 5 edges", Space{4, 5, 1, false, one});
        add("4 vertices, 4 edges, capacities 1-2", Space{4, 4, 2, false, one});
        add("5 vertices, 5 edges", Space{5, 5, 1, false, {{2, 0}, {0, 2}}});
    }
    mc::Config c;
    c.shards      = 16;
    c.shard_depth = 3;
    mc::add("several attachments", c, [] { multi(); });
    mc::add("large capacities", c, [] { large(); });
}
