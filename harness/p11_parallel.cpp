// P11: component-by-component flow computation on a pool, on every schedule.
#include "graph_common.h"

namespace {
using namespace graphs;

G graph(int k)
{
    switch (k) {
    case 0: // two components, one isolated vertex with its own path
        return G{5, {{0, 1, 1}, {SRC, 0, 2}, {1, SNK, 1}, {2, 3, 1}, {SRC, 2, 1}, {3, SNK, 2}, {SRC, 4, 1}, {4, SNK, 1}}};
    case 1: // a detour in one component: augmenting paths undo flow
        return G{6,
                 {{SRC, 0, 1}, {SRC, 1, 1}, {0, 1, 1}, {0, 2, 1}, {1, 2, 1}, {1, SNK, 1}, {2, SNK, 1}, {3, 4, 2}, {SRC, 3, 2}, {4, SNK, 1}, {SRC, 4, 1}}};
    case 2: // no flow in a component, self-loops
        return G{5, {{0, 1, 1}, {SRC, 0, 1}, {2, 3, 1}, {SRC, 2, 1}, {3, SNK, 1}, {2, 2, 1}, {4, 4, 1}, {SRC, 4, 1}, {4, SNK, 1}}};
    case 3: // a single vertex only
        return G{2, {{SRC, 0, 2}, {0, SNK, 1}}};
    case 4: // three components
        return G{6, {{0, 1, 1}, {SRC, 0, 1}, {1, SNK, 1}, {3, 2, 1}, {SRC, 3, 1}, {2, SNK, 1}, {4, 5, 1}, {SRC, 4, 1}, {5, SNK, 1}}};
    default: // nothing at all
        return G{3, {}};
    }
}
void compute(const G& d, unsigned workers)
{
    std::vector<EdgePtr> ptr;
    auto                 g = build(d, ptr);
    {
        ThreadPool pool(workers);
        g->parallel_compute_residual_maxflow(pool);
        if (workers > 1) {
            pool.join();
        }
    }
    check_flow(*g, d, ptr);
    mc::outcome(s(g->get_flow()));
}

// all small graphs, pool threads scheduled natively
void natively(size_t n, int m, int caps)
{
    static ThreadPool* pool = new ThreadPool(3);
    G                  d;
    d.n = n;
    for (int i = 0; i < m; i++) {
        d.e.push_back(pick_edge(n, caps, false));
    }
    std::vector<size_t> a(n, 0);
    static const size_t att[][2] = {{0, 0}, {2, 0}, {0, 1}, {1, 2}};
    const size_t        inner    = d.e.size();
    for (;;) {
        d.e.resize(inner);
        for (size_t v = 0; v < n; v++) {
            if (att[a[v]][0])
                d.e.push_back(E{SRC, v, att[a[v]][0]});
            if (att[a[v]][1])
                d.e.push_back(E{v, SNK, att[a[v]][1]});
        }
        std::vector<EdgePtr> ptr;
        auto                 g = build(d, ptr);
        g->parallel_compute_residual_maxflow(*pool);
        check_flow(*g, d, ptr);
        mc::transitions();
        size_t v = 0;
        while (v < n && ++a[v] == 4) {
            a[v++] = 0;
        }
        if (v == n) {
            break;
        }
    }
}
} // namespace

void mc_register()
{
    quiet();
    sse::logger::logger()->debug("started");
    auto add = [](const std::string& name, int k, unsigned w, int p) {
        mc::Config c;
        c.managed         = true;
        c.preemptions     = p;
        c.symmetric_start = true;
        c.shards          = 8;
        c.deep            = 1;
        c.spurious        = false;
        mc::add(name, c, [=] { compute(graph(k), w); });
    };
    add("two components, 1 worker", 0, 1, 2);
    add("two components, 2 workers", 0, 2, 2);
    add("two components, 3 workers", 0, 3, 1);
    add("detour, 2 workers", 1, 2, 2);
    add("self-loops, 2 workers", 2, 2, 2);
    add("no component, 2 workers", 3, 2, 2);
    add("three components, 2 workers", 4, 2, 1);
    add("three components, 3 workers", 4, 3, 1);
    add("no edges, 2 workers", 5, 2, 2);
    for (int m = 0; m <= mc::tier_pick(2, 3); m++) {
        for (size_t n = 2; n <= 4; n++) {
            mc::Config c;
            c.shards      = m ? 16 : 1;
            c.shard_depth = std::min(m, 2);
            mc::add("all graphs: " + s(n) + " vertices, " + s(m) + " edges", c, [n, m] { natively(n, m, m < 3 && n < 4 ? 2 : 1); });
        }
    }
}
