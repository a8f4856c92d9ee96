// P13: every small allocation instance.
#include "graph_common.h"
#include <sse/schemes/tethys/details/tethys_allocator.hpp>

namespace {
using namespace graphs;
using sse::tethys::details::TethysAllocator;
using sse::tethys::details::TethysAllocatorKey;

struct L
{
    size_t h0, h1, len;
};
std::string show(size_t t, size_t p, const std::vector<L>& ls)
{
    std::string o = s(t) + " buckets of " + s(p) + ":";
    for (auto& l : ls)
        o += " (" + s(l.h0) + "," + s(l.h1) + ")x" + s(l.len);
    return o;
}
// the most entries that fit, by the best cut over all sets of buckets
size_t best(size_t t, size_t p, const std::vector<L>& ls)
{
    size_t b = ~0UL;
    for (size_t m = 0; m < (1UL << t); m++) {
        size_t c = 0;
        for (size_t k = 0; k < t; k++)
            c += (m >> k & 1) ? p : 0;
        for (auto& l : ls)
            if (!(m >> l.h0 & 1) || !(m >> l.h1 & 1))
                c += l.len;
        b = std::min(b, c);
    }
    return b;
}
template<class F>
bool rejected(F f)
{
    try {
        f();
    } catch (std::exception&) {
        return true;
    }
    return false;
}
void solve(size_t t, size_t p, const std::vector<L>& ls)
{
    TethysAllocator a(t, p);
    auto            at = [&] { return " in " + show(t, p, ls); };
    for (size_t i = 0; i < ls.size(); i++) {
        // the orientation of a key is not used by the allocation
        a.insert(TethysAllocatorKey(ls[i].h0, ls[i].h1, i % 2 ? ForcedLeft : ForcedRight), ls[i].len, i);
    }
    a.allocate();
    MC_CHECK(a.has_allocated(), "has_allocated is false after allocating");
    const TethysGraph&  g  = a.get_allocation_graph();
    const auto&         st = a.get_stashed_edges();
    std::vector<size_t> load(t, 0);
    std::set<size_t>    seen;
    size_t              total = 0, stashed = 0, nstash = 0;
    for (size_t v = 0; v < t; v++) {
        for (EdgePtr p1 : g.get_vertex(VertexPtr(v)).out_edges) {
            const Edge& e = g.get_edge(p1);
            if (e.value_index == TethysAllocator::kEmptyIndexValue) {
                continue;
            }
            size_t i = e.value_index;
            MC_CHECK(i < ls.size() && seen.insert(i).second, "a list is duplicated or unknown" + at());
            MC_CHECK(e.start == VertexPtr(ls[i].h0) && e.end == VertexPtr(ls[i].h1) && e.capacity == ls[i].len,
                     "a list changed its buckets or its length" + at());
            MC_CHECK(e.flow <= ls[i].len && e.rec_flow <= ls[i].len && e.flow + e.rec_flow <= ls[i].len,
                     "the parts of list " + s(i) + " exceed its length" + at());
            load[ls[i].h0] += e.flow;
            load[ls[i].h1] += e.rec_flow;
            size_t r = ls[i].len - e.flow - e.rec_flow;
            stashed += r;
            total += ls[i].len;
            bool in = st.count(p1) > 0;
            MC_CHECK(in == (r > 0), "list " + s(i) + (in ? " is reported as stashed but nothing of it is"
                                                         : " is partly stashed but not reported") + at());
            nstash += r > 0;
        }
    }
    MC_CHECK(seen.size() == ls.size(), "a list is lost" + at());
    MC_CHECK(st.size() == nstash, "the reported stash holds something else than lists" + at());
    for (size_t v = 0; v < t; v++) {
        MC_CHECK(load[v] <= p, "bucket " + s(v) + " receives " + s(load[v]) + " entries" + at());
    }
    size_t fit = best(t, p, ls);
    MC_CHECK(total - stashed == fit, s(stashed) + " entries are stashed but " + s(total - fit) + " suffice" + at());
    // nothing more can be done
    MC_CHECK(rejected([&] { a.allocate(); }), "allocating twice is accepted");
    MC_CHECK(rejected([&] { a.insert(TethysAllocatorKey(0, 0, ForcedLeft), 1, 50); }),
             "inserting after allocating is accepted");
    mc::validated();
    mc::transitions();
    mc::outcome(s(stashed));
}

void instances(size_t t, size_t p, int n, bool zero)
{
    std::vector<L> ls(n);
    int            lens = p + zero;
    uint64_t       kinds = t * t * lens;
    auto           fill  = [&](L& l, uint64_t k) {
        l.len = k % lens + !zero;
        k /= lens;
        l.h0 = k / t;
        l.h1 = k % t;
    };
    // the first lists by the explorer, the last two here
    int ext = std::max(0, n - 2);
    for (int i = 0; i < ext; i++) {
        fill(ls[i], mc::choose(kinds, "list"));
    }
    uint64_t rest = 1;
    for (int i = ext; i < n; i++)
        rest *= kinds;
    for (uint64_t r = 0; r < rest; r++) {
        uint64_t x = r;
        for (int i = ext; i < n; i++) {
            fill(ls[i], x % kinds);
            x /= kinds;
        }
        solve(t, p, ls);
    }
}

void misuse()
{
    size_t p = mc::choose(3, "page") + 1, t = mc::choose(3, "table") + 1;
    TethysAllocator a(t, p);
    int             n = 0;
    std::vector<L>  ls;
    bool            done = false;
    for (int i = 0; i < 4; i++) {
        int op = mc::choose(8, "op");
        mc::transitions();
        switch (op) {
        case 0:
            MC_CHECK(rejected([&] { a.insert(TethysAllocatorKey(0, t - 1, ForcedLeft), p, n); }) == done,
                     "insertion before or after allocating is wrongly treated");
            n += !done;
            break;
        case 1:
            MC_CHECK(rejected([&] { a.insert(TethysAllocatorKey(0, 0, ForcedLeft), p + 1, 9); }),
                     "a list longer than a bucket is accepted");
            break;
        case 2:
            MC_CHECK(rejected([&] { a.insert(TethysAllocatorKey(0, 0, ForcedLeft), ~0UL, 9); }),
                     "a list longer than a bucket is accepted");
            break;
        case 3:
            MC_CHECK(rejected([&] { a.insert(TethysAllocatorKey(t, 0, ForcedLeft), 1, 9); }),
                     "a bucket out of range is accepted");
            MC_CHECK(rejected([&] { a.insert(TethysAllocatorKey(0, t, ForcedLeft), 1, 9); }),
                     "a bucket out of range is accepted");
            break;
        case 4:
            MC_CHECK(rejected([&] { a.insert(TethysAllocatorKey(0, 0, ForcedLeft), 1, TethysAllocator::kEmptyIndexValue); }),
                     "the reserved index is accepted");
            break;
        case 5:
            MC_CHECK(rejected([&] { a.allocate(); }) == done, "allocation is wrongly accepted or rejected");
            done = true;
            break;
        case 6:
            MC_CHECK(rejected([&] { a.get_stashed_edges(); }) == !done, "reading the stash is wrongly treated");
            break;
        case 7:
            MC_CHECK(rejected([&] { a.get_allocation_graph(); }) == !done, "reading the result is wrongly treated");
            break;
        }
        MC_CHECK(a.has_allocated() == done, "has_allocated is wrong");
        mc::validated();
    }
    // what was accepted is what is allocated
    if (!done) {
        a.allocate();
    }
    std::set<size_t> seen;
    for (size_t v = 0; v < t; v++) {
        for (EdgePtr e : a.get_allocation_graph().get_vertex(VertexPtr(v)).out_edges) {
            size_t i = a.get_allocation_graph().get_edge(e).value_index;
            if (i != TethysAllocator::kEmptyIndexValue) {
                seen.insert(i);
            }
        }
    }
    MC_CHECK((int)seen.size() == n, "the allocation holds " + s(seen.size()) + " lists instead of " + s(n));
    mc::outcome(s(n));
}

// table sizes
void sizes()
{
    for (size_t p = 1; p < 9; p++) {
        for (size_t n = 0; n < 40; n++) {
            for (double e : {0., 0.1, 0.5, 1.}) {
                size_t b = (n + p - 1) / p;
                size_t g = tethys_graph_size(n, p, e);
                MC_CHECK(g % 2 == 0 && g >= 2 * b && (double)g >= 2 * (1 + e) * b && (double)g < 2 * (1 + e) * b + 2,
                         "a table for " + s(n) + " entries in buckets of " + s(p) + " has " + s(g) + " buckets");
                mc::validated();
            }
        }
    }
}
} // namespace

void mc_register()
{
    quiet();
    bool t   = mc::thorough();
    auto add = [](size_t tb, size_t p, int n, bool z) {
        mc::Config c;
        c.shards      = n > 2 ? 32 : 1;
        c.shard_depth = std::min(std::max(0, n - 2), 2);
        mc::add(s(tb) + " buckets of " + s(p) + ", " + s(n) + " lists" + (z ? "" : ", not empty"), c,
                [=] { instances(tb, p, n, z); });
    };
    for (size_t p = 1; p <= 3; p++) {
        for (int n = 0; n <= 4; n++) {
            add(1, p, n, true);
            add(2, p, n, true);
        }
        for (int n = 1; n <= 3; n++) { // (4, 3, 3): 64^3
            add(3, p, n, true);
            add(4, p, n, true);
        }
    }
    add(3, 1, 5, false);
    add(3, 2, 4, false);
    add(4, 1, 4, false);
    add(2, 4, 4, false);
    add(2, 2, 5, false);
    add(3, 3, 4, true);
    add(4, 2, 4, false);
    add(5, 1, 4, false);
    add(2, 3, 5, true);
    add(2, 2, 6, false);
    if (t) {
        add(3, 2, 5, false);
        add(4, 1, 5, false);
        add(4, 3, 4, false);
        add(5, 2, 4, false);
        add(3, 2, 6, false);
        add(3, 3, 5, false);
    }
    mc::Config c;
    c.shards      = 8;
    c.shard_depth = 2;
    mc::add("misuse", c, [] { misuse(); });
    mc::add("table sizes", mc::Config(), [] { sizes(); });
}
