#pragma once
#include "mc.h"
namespace mc {
namespace detail {
// pick one of n options for a scheduling decision
int  pick(int n, const char* tag, bool sched);
// called by explorer around a managed execution
struct SchedHooks
{
    void (*begin)(const Config&);
    void (*end)(); // main body finished: checks leftovers
};
extern SchedHooks* sched_hooks;
extern const Config* cur_cfg;
extern int cpu_slot;
void add_steps(uint64_t n);
}
}
