// Model-checking runtime: exhaustive enumeration of choice trees over the
// real code.  See DESIGN.md ("The explorer").
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

// ---- nondeterminism -------------------------------------------------------
// Every value of [0,n) is explored. In managed (scheduled) executions this is
// an environment choice and costs nothing.
int choose(int n, const char* tag = "");
inline bool flip(const char* tag = "")
{
    return choose(2, tag) == 1;
}
// Give up on this branch (not counted as an execution of interest).
[[noreturn]] void prune();

// ---- observation ----------------------------------------------------------
[[noreturn]] void violation(const std::string& msg);
inline void       check(bool ok, const std::string& msg)
{
    if (!ok) {
        violation(msg);
    }
}
#define MC_CHECK(cond, msg)                                                    \
    do {                                                                       \
        if (!(cond)) {                                                         \
            ::mc::violation(msg);                                              \
        }                                                                      \
    } while (0)
// A failure identified by `key`; if `key` is listed as a known finding it is
// reported as such and the execution goes on (returns true), otherwise it is
// a violation.
bool finding(const std::string& key, const std::string& msg);
// like finding(), but the branch ends quietly when the finding is known.
void finding_end(const std::string& key, const std::string& msg);

// append a line to the trace of this execution (kept in replay artefacts)
void note(const std::string& line);
// final observable outcome of this execution (counted distinct)
void outcome(const std::string& o);
// an abstract state reached (counted distinct)
void state(uint64_t h);
void state(const std::string& s);
// count extra transitions (operations applied)
void transitions(uint64_t n = 1);
// count model/implementation comparisons done
void validated(uint64_t n = 1);
// free-form measured counter
void count(const std::string& name, uint64_t n = 1);

bool thorough();
int  tier_pick(int quick, int thorough_);
// scratch directory private to this worker (on tmpfs when possible)
const std::string& scratch();

// ---- scenarios ------------------------------------------------------------
struct Config
{
    bool   managed       = false; // run under the controlled scheduler
    int    preemptions   = 2;     // preemption bound (managed)
    bool   forked        = false; // one process per execution
    bool   report_races  = true;  // (managed) data races are violations
    bool   spurious      = true;  // (managed) spurious condvar wake-ups
    int    shards        = 1;     // split over this many jobs
    int    shard_depth   = 6;     // choice depth used to split
    double exec_timeout  = 60;    // seconds, one execution
    bool   delay_bounded  = false; // count every deviation from round-robin
    bool   symmetric_start = false; // pool workers are interchangeable
    int    max_steps     = 200000;
    int    max_threads   = 64; // of interchangeable threads, at most this many run
    bool   allow_leftover = false; // threads may outlive the execution (forked)
    double budget_s       = 0;     // 0: none; otherwise a cut-off
    int    deep = 0; // thorough: a second, time-limited pass with the bound
                     // raised by this much (reported separately)
    bool   deep_pass = false; // (internal)
};
struct Scenario
{
    std::string           name;
    Config                cfg;
    std::function<void()> body;
};
void add(const std::string& name, const Config& cfg, std::function<void()> body);

// defined by each harness: registers the scenarios of this property
// (called with the tier already known)
} // namespace mc
void mc_register();

// ---- scheduler interface (implemented by sched.cpp, stubs otherwise) -------
namespace mc {
// (managed) block until pred() holds; pred must be pure. `timed`: the wait may
// also end by a timeout (returns false then).
bool block_until(const std::function<bool()>& pred, const char* what, bool timed = false);
// (managed) a plain scheduling point
void sched_point(const char* what);
bool managed_now();
int  self_id();
// happens-before edges for model objects
void hb_release(const void* obj);
void hb_acquire(const void* obj);
// code inside is executed natively: no scheduling points, no race detection
struct Unmanaged
{
    Unmanaged();
    ~Unmanaged();
};
} // namespace mc
