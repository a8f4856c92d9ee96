// Shared by P10-P13: small graphs and brute-force oracles.
#pragma once
#include "mc.h"
#include <sse/schemes/tethys/details/tethys_graph.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <iostream>
#include <memory>
#include <set>

namespace graphs {
using namespace sse::tethys::details;

inline std::string s(uint64_t x)
{
    return std::to_string(x);
}
constexpr size_t SRC = ~0UL, SNK = ~0UL - 1; // our own markers

struct E
{
    size_t u, v, cap;
};
struct G
{
    size_t         n;
    std::vector<E> e; // in the order they are added
    std::string    show() const
    {
        std::string o = s(n) + " vertices:";
        for (auto& x : e) {
            o += " " + (x.u == SRC ? "s" : s(x.u)) + ">" + (x.v == SNK ? "t" : s(x.v)) + "x" + s(x.cap);
        }
        return o;
    }
    // least capacity over all cuts
    size_t min_cut() const
    {
        size_t best = ~0UL;
        for (size_t m = 0; m < (1UL << n); m++) {
            size_t c = 0;
            for (auto& x : e) {
                bool a = x.u == SRC || (x.u != SNK && (m >> x.u & 1));
                bool b = x.v == SRC || (x.v != SNK && (m >> x.v & 1));
                if (a && !b) {
                    c += x.cap;
                }
            }
            best = std::min(best, c);
        }
        return best;
    }
};
inline EdgePtr add(TethysGraph& g, const E& x, size_t idx)
{
    if (x.u == SRC) {
        return g.add_edge_from_source(idx, x.cap, x.v);
    }
    if (x.v == SNK) {
        return g.add_edge_to_sink(idx, x.cap, x.u);
    }
    return g.add_edge(idx, x.cap, x.u, x.v);
}
inline std::unique_ptr<TethysGraph> build(const G& d, std::vector<EdgePtr>& ptr)
{
    auto g = std::make_unique<TethysGraph>(d.n);
    ptr.clear();
    for (size_t i = 0; i < d.e.size(); i++) {
        ptr.push_back(add(*g, d.e[i], 100 + i));
    }
    return g;
}

// everything a finished computation reports about the flow (called after the
// residual computation)
inline void check_flow(TethysGraph& g, const G& d, const std::vector<EdgePtr>& ptr)
{
    std::vector<size_t> residual;
    for (size_t i = 0; i < d.e.size(); i++) {
        const Edge& e = g.get_edge(ptr[i]);
        MC_CHECK(e.flow + e.rec_flow == d.e[i].cap && e.flow <= d.e[i].cap,
                 "the flow and the residual capacity of edge " + s(i) + " do not add up: " + s(e.rec_flow) + " and "
                     + s(e.flow) + " in " + d.show());
        residual.push_back(e.flow);
    }
    g.transform_residual_to_flow();
    std::vector<size_t> in(d.n, 0), out(d.n, 0), cin(d.n, 0), cout(d.n, 0);
    size_t              sin = 0, sout = 0, csin = 0, csout = 0;
    for (size_t i = 0; i < d.e.size(); i++) {
        const E& x = d.e[i];
        size_t   f = g.get_edge_flow(ptr[i]);
        MC_CHECK(g.get_edge_capacity(ptr[i]) == x.cap, "a capacity changed in " + d.show());
        MC_CHECK(f <= x.cap, "the flow of edge " + s(i) + " exceeds its capacity in " + d.show());
        MC_CHECK(f + residual[i] == x.cap, "the reported flow of edge " + s(i)
                                               + " and its residual capacity do not add up in " + d.show());
        (x.u == SRC ? sout : out[x.u]) += f;
        (x.v == SNK ? sin : in[x.v]) += f;
        (x.u == SRC ? csout : cout[x.u]) += x.cap;
        (x.v == SNK ? csin : cin[x.v]) += x.cap;
    }
    for (size_t v = 0; v < d.n; v++) {
        MC_CHECK(in[v] == out[v], "flow is not conserved at vertex " + s(v) + " of " + d.show());
        VertexPtr p(v);
        MC_CHECK(g.get_vertex_in_flow(p) == in[v] && g.get_vertex_out_flow(p) == out[v],
                 "the flow reported for vertex " + s(v) + " is wrong in " + d.show());
        MC_CHECK(g.get_vertex_in_capacity(p) == cin[v] && g.get_vertex_out_capacity(p) == cout[v],
                 "the capacity reported for vertex " + s(v) + " is wrong in " + d.show());
    }
    MC_CHECK(g.get_vertex_out_flow(kSourcePtr) == sout && g.get_vertex_in_flow(kSinkPtr) == sin,
             "the flow reported for the source or the sink is wrong in " + d.show());
    MC_CHECK(g.get_vertex_out_capacity(kSourcePtr) == csout && g.get_vertex_in_capacity(kSinkPtr) == csin,
             "the capacity reported for the source or the sink is wrong in " + d.show());
    size_t best = d.min_cut();
    MC_CHECK(sout == best, "the flow is " + s(sout) + " but the minimum cut is " + s(best) + " in " + d.show());
    MC_CHECK(g.get_flow() == sout, "the total flow reported is wrong in " + d.show());
    mc::validated();
}

// the next edge of an enumeration: any pair of vertices, capacities 0..caps
// when `zero`, else 1..caps
inline E pick_edge(size_t n, int caps, bool zero)
{
    int k = mc::choose(n * n * (caps + zero), "edge");
    E   e;
    e.cap = k % (caps + zero) + !zero;
    k /= caps + zero;
    e.u = k / n;
    e.v = k % n;
    return e;
}
inline void quiet()
{
    std::cout.rdbuf(nullptr);
    std::cerr.rdbuf(nullptr);
    if (!getenv("MC_LOG"))
        sse::logger::set_logger(nullptr);
}
} // namespace graphs
