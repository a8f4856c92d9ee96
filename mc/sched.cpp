// Controlled scheduler: interposes the pthread primitives, the futex waits of
// libstdc++, static-local guards, the I/O calls and (through the callbacks of
// -fsanitize=thread instrumentation) every atomic and plain memory access of
// the instrumented code.  One thread runs at a time; each scheduling point is
// a choice of the explorer.  A vector-clock detector checks plain accesses,
// and frees, against the happens-before order of the execution.
// This file itself is compiled without instrumentation.
#include "mcaccess.h"
#include "internal.h"

#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <future>
#include <malloc.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <sys/single_threaded.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

extern "C" {
void* __libc_malloc(size_t);
void  __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern char __executable_start;
extern char etext;
}

namespace mc {
using namespace detail;
namespace {

constexpr int MAXT = 64;

struct VC
{
    uint32_t c[MAXT];
    void     clear()
    {
        memset(c, 0, sizeof c);
    }
    void join(const VC& o)
    {
        for (int i = 0; i < MAXT; i++) {
            if (o.c[i] > c[i]) {
                c[i] = o.c[i];
            }
        }
    }
};

struct OsThread
{
    pthread_t        pt;
    std::atomic<int> token{0};
    struct Thread*   job = nullptr;
    bool             in_use = false;
};

enum St
{
    RUNNABLE,
    BLOCKED,
    FINISHED
};

struct Thread
{
    int                   id;
    St                    st = RUNNABLE;
    std::function<bool()> pred;
    bool                  timed    = false; // may be woken by a timeout
    std::string           cls, kind;
    uint64_t              blocked_at = 0;
    bool                  spurious = false; // may be woken spuriously
    int                   woke     = 0;     // 0 pred, 1 timeout, 2 spurious
    const char*           what     = "";
    VC                    vc;
    void* (*fn)(void*) = nullptr;
    void*     arg      = nullptr;
    void*     ret      = nullptr;
    bool      joined = false, detached = false, parked = false;
    OsThread* os = nullptr;
    int       unmanaged = 0;
    uint64_t  solo_steps = 0;
};

struct SyncObj
{
    VC      vc;
    bool    has_vc = false;
    Thread* owner  = nullptr;
    int     rec    = 0;
    int     readers = 0;
    // condition variable
    std::vector<std::pair<Thread*, uint64_t>> waiters; // (thread, ticket)
    std::set<uint64_t>                        signaled;
    int                                       once = 0;
    Thread*                                   last = nullptr; // last user
    uint32_t                                  last_clk = 0;
};

bool                 active = false;
Thread*              current = nullptr;
std::vector<Thread*> threads;
std::vector<OsThread*> os_pool;
OsThread             main_os;
std::unordered_map<uintptr_t, SyncObj>* sync_tab = nullptr;
VC                   fence_vc;
int                  preempts_left = 0;
uint64_t             nsteps = 0, ticket = 0;
int                  idle = 0;
bool                 races_on = true;
uint64_t             yields = 0;

thread_local Thread* self  = nullptr;
thread_local int     in_rt = 0;

struct Rt
{
    Rt()
    {
        in_rt++;
    }
    ~Rt()
    {
        in_rt--;
    }
};

inline bool managed()
{
    return active && self && !in_rt && self->unmanaged == 0;
}

// ------------------------------------------------------------------ real fns
template<class F>
F real(const char* n, const char* ver = nullptr)
{
    void* p = ver ? dlvsym(RTLD_NEXT, n, ver) : dlsym(RTLD_NEXT, n);
    if (!p && ver) {
        p = dlsym(RTLD_NEXT, n);
    }
    if (!p) {
        fprintf(stderr, "[mc] cannot resolve %s\n", n);
        abort();
    }
    return reinterpret_cast<F>(p);
}
#define REAL(fn, ver)                                                          \
    static auto r = real<decltype(&fn)>(#fn, ver)

void os_wake(OsThread* o)
{
    o->token.store(1, std::memory_order_release);
    syscall(SYS_futex, &o->token, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
void os_sleep(OsThread* o)
{
    while (o->token.load(std::memory_order_acquire) == 0) {
        syscall(SYS_futex, &o->token, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
    o->token.store(0, std::memory_order_relaxed);
}

void reschedule(bool cur_enabled, bool yielding = false);

void* os_main(void* a)
{
    OsThread* o = static_cast<OsThread*>(a);
    for (;;) {
        os_sleep(o);
        Thread* t = o->job;
        self      = t;
        in_rt     = 0;
        t->ret    = t->fn(t->arg);
        {
            Rt g;
            t->st = FINISHED;
            t->vc.c[t->id]++;
            reschedule(false);
            self = nullptr;
        }
        // the OsThread is handed back to the pool at the end of the execution
    }
    return nullptr;
}

OsThread* get_os()
{
    for (auto* o : os_pool) {
        if (!o->in_use) {
            o->in_use = true;
            return o;
        }
    }
    auto*          o = new OsThread;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 512 * 1024);
    REAL(pthread_create, nullptr);
    o->in_use = true;
    if (r(&o->pt, &at, os_main, o) != 0) {
        fprintf(stderr, "[mc] cannot create a thread\n");
        abort();
    }
    pthread_attr_destroy(&at);
    os_pool.push_back(o);
    return o;
}

bool runnable(Thread* t)
{
    if (t->parked || t->st == FINISHED) {
        return false;
    }
    return t->st == RUNNABLE || t->pred();
}

std::string thread_states()
{
    std::string s;
    for (auto* t : threads) {
        if (t->parked) {
            continue;
        }
        s += " T" + std::to_string(t->id) + "="
             + (t->st == FINISHED ? "finished"
                                  : t->st == RUNNABLE
                      ? "runnable"
                      : std::string("blocked in ") + t->what);
    }
    return s;
}

void switch_to(Thread* t)
{
    if (t->st == BLOCKED) {
        t->st = RUNNABLE;
    }
    if (t == self) {
        return;
    }
    Thread* me  = self;
    OsThread* mo = me->os;
    current     = t;
    t->solo_steps = 0;
    if (!t->os) {
        t->os      = get_os();
        t->os->job = t;
    }
    bool done = me->st == FINISHED; // `me` may be gone after the hand-off
    os_wake(t->os);
    if (done) {
        return;
    }
    os_sleep(mo);
}

struct Opt
{
    Thread* t;
    int     cost;
    int     wake; // 0 normal, 1 timeout, 2 spurious
};

void reschedule(bool cur_enabled, bool yielding)
{
    nsteps++;
    add_steps(1);
    if (nsteps > static_cast<uint64_t>(cur_cfg->max_steps)) {
        violation("execution exceeds " + std::to_string(cur_cfg->max_steps)
                  + " steps: no progress (livelock);" + thread_states());
    }
    Opt  opts[3 * MAXT];
    int  n     = 0;
    int  nt    = static_cast<int>(threads.size());
    int  start = self->id;
    bool forced_yield = false;
    if (cur_enabled) {
        self->solo_steps++;
        if (self->solo_steps > 3000) {
            forced_yield = true; // spin loops must let others run
        }
        if (!yielding && !forced_yield) {
            opts[n++] = {self, 0, 0};
        }
    }
    int base = n;
    for (int k = 1; k <= nt; k++) {
        Thread* t = threads[(start + k) % nt];
        if (t == self && cur_enabled) {
            continue;
        }
        if (t->st == FINISHED || t->parked) {
            continue;
        }
        if (cur_cfg->symmetric_start && !t->os && t->fn) {
            // interchangeable workers start in creation order
            bool skip = false;
            for (int q = 1; q < t->id && !skip; q++) {
                Thread* o = threads[q];
                skip      = !o->os && !o->parked && o->cls == t->cls;
            }
            if (skip) {
                continue;
            }
        }
        if (runnable(t)) {
            int cost = (cur_enabled && !yielding && !forced_yield) ? 1 : 0;
            if (cur_cfg->delay_bounded && n > 0) {
                cost = 1; // any deviation from the default scheduler
            }
            if (cost <= preempts_left) {
                opts[n++] = {t, cost, 0};
            }
        }
    }
    bool someone = n > 0;
    if (cur_enabled && (yielding || forced_yield) && n == base) {
        opts[n++] = {self, 0, 0};
        someone   = true;
        if (yielding && ++yields > 20000) {
            violation("threads only yield or sleep, none makes progress;"
                      + thread_states());
        }
    }
    if (preempts_left > 0 && someone) {
        for (int k = 1; k <= nt; k++) {
            Thread* t = threads[(start + k) % nt];
            if (t->st == BLOCKED && !t->parked && (t->timed || t->spurious)
                && !t->pred()) {
                if (t->timed) {
                    opts[n++] = {t, 1, 1};
                } else if (cur_cfg->spurious) {
                    opts[n++] = {t, 1, 2};
                }
            }
        }
    }
    if (n == 0) {
        // nobody can run: timeouts fire
        // (fairly: the longest-waiting one for free, others at a cost)
        Thread* first = nullptr;
        for (int k = 1; k <= nt; k++) {
            Thread* t = threads[(start + k) % nt];
            if (t->st == BLOCKED && !t->parked && t->timed
                && (!first || t->blocked_at < first->blocked_at)) {
                first = t;
            }
        }
        if (first) {
            opts[n++] = {first, 0, 1};
        }
        for (int k = 1; k <= nt && preempts_left > 0; k++) {
            Thread* t = threads[(start + k) % nt];
            if (t->st == BLOCKED && !t->parked && t->timed && t != first) {
                opts[n++] = {t, 1, 1};
            }
        }
        if (n == 0) {
            if (self->st == FINISHED && self->id == 0) {
                return;
            }
            violation("deadlock: no thread can run;" + thread_states());
        }
        if (++idle > 60) {
            violation("hang: threads only wake up by timeouts, the others are "
                      "blocked forever;"
                      + thread_states());
        }
    }
    int i = n == 1 ? 0 : pick(n, "sched", true);
    preempts_left -= opts[i].cost;
    Thread* t = opts[i].t;
    if (t->st == BLOCKED && opts[i].wake == 0) {
        idle = 0; // what a blocked thread waited for has happened
    }
    if (t != self || t->st == BLOCKED) {
        t->woke = opts[i].wake;
    }
    switch_to(t);
}

// returns 0 if the predicate holds, 1 on timeout, 2 spurious
int block(const char* what, std::function<bool()> pred, bool timed, bool spur)
{
    self->what     = what;
    self->pred     = std::move(pred);
    self->timed    = timed;
    static uint64_t block_clock = 0;
    self->blocked_at = ++block_clock;
    self->spurious = spur;
    self->woke     = 0;
    self->st       = BLOCKED;
    if (self->pred()) {
        self->st = RUNNABLE;
    } else {
        reschedule(false);
    }
    self->st    = RUNNABLE;
    self->timed = self->spurious = false;
    self->what                   = "";
    return self->woke;
}

std::string sym(void* pc)
{
    Dl_info i;
    char    b[64];
    if (dladdr(pc, &i) && i.dli_fname) {
        uintptr_t off = reinterpret_cast<uintptr_t>(pc)
                        - reinterpret_cast<uintptr_t>(i.dli_fbase);
        snprintf(b, sizeof b, "+0x%zx", static_cast<size_t>(off));
        std::string s = i.dli_sname ? i.dli_sname : "?";
        return s + " (" + b + ")";
    }
    snprintf(b, sizeof b, "%p", pc);
    return b;
}

// shared by all workers and forked executions: dladdr() is slow
uint64_t*          pc_cache  = nullptr;
constexpr uint64_t kPcCache = 1 << 16;

bool is_refcount_pc(void* pc)
{
    uint64_t v = reinterpret_cast<uint64_t>(pc) << 1;
    uint64_t h = ((v >> 1) * 0x9e3779b97f4a7c15ULL) >> 48;
    for (int k = 0; k < 16; k++) {
        uint64_t c = pc_cache[(h + k) & (kPcCache - 1)];
        if ((c & ~1ULL) == v) {
            return c & 1;
        }
        if (c == 0) {
            break;
        }
    }
    Dl_info i;
    bool    b = false;
    if (dladdr(pc, &i) && i.dli_sname) {
        b = strstr(i.dli_sname, "__exchange_and_add")
            || strstr(i.dli_sname, "__atomic_add")
            || strstr(i.dli_sname, "_Sp_counted_base")
            || strstr(i.dli_sname, "__is_single_threaded");
    }
    for (int k = 0; k < 16; k++) {
        uint64_t& c = pc_cache[(h + k) & (kPcCache - 1)];
        if (c == 0) {
            c = v | b;
            break;
        }
    }
    return b;
}

// ------------------------------------------------------------------ freed map
std::map<uintptr_t, std::pair<uintptr_t, void*>>* freed = nullptr;
std::vector<void*>*                               quarantine = nullptr;
uint64_t                                          page_bloom[64]; // 4096 bits

inline unsigned bloom_idx(uintptr_t a)
{
    a >>= 12;
    return static_cast<unsigned>((a ^ (a >> 12) ^ (a >> 24)) & 4095);
}
bool is_freed(uintptr_t a, void** pc = nullptr)
{
    unsigned b = bloom_idx(a);
    if (!(page_bloom[b >> 6] >> (b & 63) & 1)) {
        return false;
    }
    auto it = freed->upper_bound(a);
    if (it == freed->begin()) {
        return false;
    }
    --it;
    if (a < it->second.first) {
        if (pc) {
            *pc = it->second.second;
        }
        return true;
    }
    return false;
}
void check_live(const void* p, const char* what, void* pc)
{
    void* fpc = nullptr;
    if (is_freed(reinterpret_cast<uintptr_t>(p), &fpc)) {
        violation(std::string("use after free: ") + what + " at " + sym(pc)
                  + ", freed at " + sym(fpc));
    }
}

// ------------------------------------------------------------------ shadow
struct Rec
{
    uint32_t clk;
    int8_t   tid;
    uint8_t  mask;
    uint8_t  write;
    uint8_t  atomic;
    void*    pc;
};
struct Cell
{
    uintptr_t key = 0;
    uint32_t  gen = 0;
    uint32_t  n   = 0;
    Rec       r[4];
    std::vector<Rec>* more = nullptr;
};
Cell*    shadow      = nullptr;
size_t   shadow_cap  = 0, shadow_used = 0;
uint32_t shadow_gen  = 1;

size_t hashk(uintptr_t k)
{
    return static_cast<size_t>((k * 0x9e3779b97f4a7c15ULL) >> 20);
}
Cell* shadow_find(uintptr_t key, bool create)
{
    if (!shadow) {
        shadow_cap = 1 << 14;
        shadow     = new Cell[shadow_cap];
    }
    if (create && shadow_used * 2 > shadow_cap) {
        Cell*  old = shadow;
        size_t oc  = shadow_cap;
        shadow_cap *= 2;
        shadow = new Cell[shadow_cap];
        for (size_t i = 0; i < oc; i++) {
            if (old[i].gen == shadow_gen) {
                size_t h = hashk(old[i].key) & (shadow_cap - 1);
                while (shadow[h].gen == shadow_gen) {
                    h = (h + 1) & (shadow_cap - 1);
                }
                shadow[h] = old[i];
            } else {
                delete old[i].more;
            }
        }
        delete[] old;
    }
    size_t h = hashk(key) & (shadow_cap - 1);
    for (;;) {
        Cell& c = shadow[h];
        if (c.gen != shadow_gen) {
            if (!create) {
                return nullptr;
            }
            c.gen = shadow_gen;
            c.key = key;
            c.n   = 0;
            if (c.more) {
                c.more->clear();
            }
            shadow_used++;
            return &c;
        }
        if (c.key == key) {
            return &c;
        }
        h = (h + 1) & (shadow_cap - 1);
    }
}
void shadow_reset()
{
    shadow_gen++;
    shadow_used = 0;
}
inline Rec& rec_at(Cell& c, uint32_t i)
{
    return i < 4 ? c.r[i] : (*c.more)[i - 4];
}
void rec_push(Cell& c, const Rec& r)
{
    if (c.n < 4) {
        c.r[c.n] = r;
    } else {
        if (!c.more) {
            c.more = new std::vector<Rec>();
        }
        c.more->resize(c.n - 4);
        c.more->push_back(r);
    }
    c.n++;
}

void access_granule(uintptr_t key, uint8_t mask, bool write, bool atomic, void* pc)
{
    Cell* c = shadow_find(key, true);
    Thread* t = self;
    bool stored = false;
    for (uint32_t i = 0; i < c->n; i++) {
        Rec& r = rec_at(*c, i);
        if (!(r.mask & mask)) {
            continue;
        }
        if (r.tid == t->id) {
            if (r.mask == mask && r.write == write && r.atomic == atomic) {
                r.clk = t->vc.c[t->id];
                r.pc  = pc;
                stored = true;
            }
            continue;
        }
        if (!(r.write || write) || (r.atomic && atomic)) {
            continue;
        }
        if (r.clk > t->vc.c[static_cast<int>(r.tid)]) {
            if (races_on) {
                races_on = false;
                violation(std::string("data race: ") + (write ? "write" : "read")
                          + " by T" + std::to_string(t->id) + " at " + sym(pc)
                          + " is unordered with "
                          + (r.atomic ? "atomic " : "")
                          + (r.write ? "write" : "read") + " by T"
                          + std::to_string(r.tid) + " at " + sym(r.pc));
            }
        }
    }
    if (!stored) {
        Rec r;
        r.clk    = t->vc.c[t->id];
        r.tid    = static_cast<int8_t>(t->id);
        r.mask   = mask;
        r.write  = write;
        r.atomic = atomic;
        r.pc     = pc;
        rec_push(*c, r);
    }
}
void access_range(uintptr_t a, size_t n, bool write, bool atomic, void* pc)
{
    if (!managed()) {
        return;
    }
    Rt    g;
    void* fpc = nullptr;
    if (is_freed(a, &fpc)) {
        violation(std::string("use after free: ") + (write ? "write" : "read")
                  + " at " + sym(pc) + ", freed at " + sym(fpc));
    }
    if (!cur_cfg->report_races || threads.size() < 2 || is_refcount_pc(pc)) {
        return;
    }
    while (n > 0) {
        unsigned off = a & 7;
        unsigned len = std::min<size_t>(8 - off, n);
        uint8_t  m   = static_cast<uint8_t>(((1u << len) - 1) << off);
        access_granule(a >> 3, m, write, atomic, pc);
        a += len;
        n -= len;
    }
}

void clear_range(uintptr_t a, size_t n)
{
    if (!shadow || shadow_used == 0) {
        return;
    }
    uintptr_t k0 = a >> 3, k1 = (a + n + 7) >> 3;
    if (k1 - k0 > 1 << 16) {
        k1 = k0 + (1 << 16);
    }
    for (uintptr_t k = k0; k < k1; k++) {
        Cell* c = shadow_find(k, false);
        if (c) {
            c->n = 0;
            if (c->more) {
                c->more->clear();
            }
        }
    }
}

SyncObj& so(const void* p)
{
    return (*sync_tab)[reinterpret_cast<uintptr_t>(p)];
}
void acquire(SyncObj& o)
{
    if (o.has_vc) {
        self->vc.join(o.vc);
    }
}
void release(SyncObj& o)
{
    if (!o.has_vc) {
        o.vc.clear();
        o.has_vc = true;
    }
    o.vc.join(self->vc);
    self->vc.c[self->id]++;
}
void used(SyncObj& o)
{
    o.last     = self;
    o.last_clk = self->vc.c[self->id];
}

// check that a free happens after every access to the block
void race_free(uintptr_t a, size_t n, void* pc)
{
    if (!cur_cfg->report_races || threads.size() < 2) {
        return;
    }
    uintptr_t k1 = (a + n) >> 3;
    if (n > (1 << 17)) {
        k1 = (a + (1 << 17)) >> 3;
    }
    for (uintptr_t k = a >> 3; k < k1; k++) {
        Cell* c = shadow ? shadow_find(k, false) : nullptr;
        if (c) {
            for (uint32_t i = 0; i < c->n; i++) {
                Rec& r = rec_at(*c, i);
                if (r.tid != self->id && r.clk > self->vc.c[static_cast<int>(r.tid)]) {
                    races_on = false;
                    violation(std::string("memory freed at ") + sym(pc) + " by T"
                              + std::to_string(self->id)
                              + " while its last use is unordered with the free: "
                              + (r.atomic ? "atomic " : "")
                              + (r.write ? "write" : "read") + " by T"
                              + std::to_string(r.tid) + " at " + sym(r.pc));
                }
            }
        }
    }
    if (n < (1 << 16)) {
        for (auto it = sync_tab->begin(); it != sync_tab->end();) {
            if (it->first >= a && it->first < a + n) {
                SyncObj& o = it->second;
                if (o.last && o.last != self
                    && o.last_clk > self->vc.c[o.last->id]) {
                    violation(std::string("synchronization object destroyed at ")
                              + sym(pc) + " by T" + std::to_string(self->id)
                              + " while T" + std::to_string(o.last->id)
                              + " may still be using it");
                }
                it = sync_tab->erase(it);
            } else {
                ++it;
            }
        }
    }
}

bool in_exe(void* pc)
{
    return pc >= static_cast<void*>(&__executable_start)
           && pc < static_cast<void*>(&etext);
}

void managed_free(void* p, void* pc)
{
    Rt        g;
    uintptr_t a   = reinterpret_cast<uintptr_t>(p);
    void*     fpc = nullptr;
    if (is_freed(a, &fpc)) {
        violation("double free at " + sym(pc) + ", first freed at " + sym(fpc));
    }
    size_t n = malloc_usable_size(p);
    if (in_exe(pc)) {
        race_free(a, n, pc);
    }
    clear_range(a, n);
    (*freed)[a] = {a + n, pc};
    for (uintptr_t q = a >> 12; q <= (a + n) >> 12; q++) {
        unsigned b = bloom_idx(q << 12);
        page_bloom[b >> 6] |= 1ULL << (b & 63);
    }
    quarantine->push_back(p);
}

void exec_begin(const Config& cfg)
{
    Rt g;
    static bool once = false;
    if (!once) {
        once = true;
        __libc_single_threaded = 0; // as in a process with threads
        if (!getenv("MC_NOPIN")) {
            // hand-offs are much cheaper on one core
            cpu_set_t cs;
            CPU_ZERO(&cs);
            long n = sysconf(_SC_NPROCESSORS_ONLN);
            CPU_SET(cpu_slot % (n > 0 ? n : 1), &cs);
            sched_setaffinity(0, sizeof cs, &cs);
        }
    }
    if (!sync_tab) {
        sync_tab   = new std::unordered_map<uintptr_t, SyncObj>();
        freed      = new std::map<uintptr_t, std::pair<uintptr_t, void*>>();
        quarantine = new std::vector<void*>();
    }
    sync_tab->clear();
    freed->clear();
    quarantine->clear();
    memset(page_bloom, 0, sizeof page_bloom);
    shadow_reset();
    fence_vc.clear();
    preempts_left = cfg.preemptions;
    nsteps = ticket = 0;
    idle            = 0;
    yields          = 0;
    races_on        = cfg.report_races;
    for (auto* t : threads) {
        delete t;
    }
    threads.clear();
    auto* t = new Thread;
    t->id   = 0;
    t->vc.clear();
    t->vc.c[0] = 1;
    t->os      = &main_os;
    threads.push_back(t);
    self    = t;
    current = t;
    active  = true;
}

void exec_end()
{
    Rt g;
    // wait for the others
    bool all = true;
    for (auto* t : threads) {
        if (t != self && t->st != FINISHED && !t->parked) {
            all = false;
        }
    }
    if (!all && !cur_cfg->allow_leftover) {
        block("end of the execution", [] {
            for (auto* t : threads) {
                if (t != threads[0] && t->st != FINISHED && !t->parked) {
                    return false;
                }
            }
            return true;
        }, false, false);
    }
    active = false;
    self   = nullptr;
    if (cur_cfg->allow_leftover) {
        return; // forked: the process ends here
    }
    for (auto* o : os_pool) {
        o->in_use = false;
    }
    for (void* p : *quarantine) {
        __libc_free(p);
    }
    quarantine->clear();
    freed->clear();
}

SchedHooks hooks{exec_begin, exec_end};
struct Init
{
    Init()
    {
        sched_hooks = &hooks;
        pc_cache    = static_cast<uint64_t*>(mmap(nullptr, kPcCache * 8, PROT_READ | PROT_WRITE,
                                               MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    }
} init_;

void atomic_pre(const void* a, size_t n, bool write, bool read, int mo, void* pc)
{
    if (!managed()) {
        return;
    }
    {
        Rt g;
        check_live(a, "atomic access", pc);
        if (threads.size() > 1 && !is_refcount_pc(pc)) {
            reschedule(true);
            check_live(a, "atomic access", pc);
        }
    }
    access_range(reinterpret_cast<uintptr_t>(a), n, write, true, pc);
    Rt g;
    SyncObj& o = so(a);
    bool acq = read && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME
                        || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST);
    bool rel = write && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL
                         || mo == __ATOMIC_SEQ_CST);
    if (acq) {
        acquire(o);
    }
    if (rel) {
        release(o);
    }
}

int do_create(pthread_t* out, void* (*fn)(void*), void* arg)
{
    Rt g;
    if (threads.size() >= MAXT) {
        violation("internal: too many threads");
    }
    auto* t = new Thread;
    t->id   = static_cast<int>(threads.size());
    t->fn   = fn;
    t->arg  = arg;
    t->vc   = self->vc;
    t->vc.c[t->id]++;
    self->vc.c[self->id]++;
    // interchangeable threads: the same callable on the same object (workers
    // of one pool); those started by the harness itself never are
    if (arg && malloc_usable_size(arg) >= 24) {
        auto* a = static_cast<uintptr_t*>(arg);
        auto* ti = reinterpret_cast<std::type_info**>(a[0])[-1];
        if (!strstr(ti->name(), "_GLOBAL__N_1")) {
            t->kind = std::to_string(a[0]);
            t->cls  = t->kind + " " + std::to_string(a[1]);
        }
    }
    if (t->cls.empty()) {
        t->cls = t->kind = "#" + std::to_string(t->id);
    }
    int same = 0;
    for (auto* o : threads) {
        same += o->kind == t->kind;
    }
    t->parked = same >= cur_cfg->max_threads;
    threads.push_back(t);
    *out = static_cast<pthread_t>(0x700000000000ULL + t->id * 16);
    reschedule(true);
    return 0;
}
Thread* by_pthread(pthread_t p)
{
    uintptr_t v = static_cast<uintptr_t>(p);
    if (v >= 0x700000000000ULL && v < 0x700000000000ULL + 16 * MAXT) {
        size_t i = (v - 0x700000000000ULL) / 16;
        if (i < threads.size()) {
            return threads[i];
        }
    }
    return nullptr;
}

void mutex_acquire(const void* m, const char* what)
{
    SyncObj& o = so(m);
    if (o.owner || o.readers) {
        block(what, [m] {
            SyncObj& x = so(m);
            return !x.owner && !x.readers;
        }, false, false);
    }
    SyncObj& o2 = so(m);
    o2.owner    = self;
    o2.rec      = 1;
    acquire(o2);
    used(o2);
}
void mutex_release(const void* m)
{
    SyncObj& o = so(m);
    if (o.rec > 1) {
        o.rec--;
        return;
    }
    o.owner = nullptr;
    o.rec   = 0;
    release(o);
    used(o);
}

int cond_wait_common(void* c, void* m, bool timed, void* pc)
{
    Rt g;
    check_live(c, "condition variable wait", pc);
    reschedule(true);
    check_live(c, "condition variable wait", pc);
    if (so(m).owner != self) {
        violation("condition variable wait without holding the mutex");
    }
    uint64_t tk = ++ticket;
    {
        SyncObj& o = so(c);
        o.waiters.push_back({self, tk});
        used(o);
    }
    mutex_release(m);
    int w = block("condition variable wait", [c, tk] {
        return so(c).signaled.count(tk) != 0;
    }, timed, true);
    {
        SyncObj& o = so(c);
        o.signaled.erase(tk);
        for (size_t i = 0; i < o.waiters.size(); i++) {
            if (o.waiters[i].second == tk) {
                o.waiters.erase(o.waiters.begin() + i);
                break;
            }
        }
        // POSIX lets a condition variable be destroyed once all its waiters
        // were signalled, so a waiter's own wake-up is not a use.
    }
    check_live(m, "mutex of a condition variable wait", pc);
    mutex_acquire(m, "mutex (after condition variable wait)");
    return w == 1 ? ETIMEDOUT : 0;
}

} // namespace

// ---------------------------------------------------------------- public API
bool managed_now()
{
    return managed();
}
int self_id()
{
    return self ? self->id : -1;
}
bool block_until(const std::function<bool()>& pred, const char* what, bool timed)
{
    if (!managed()) {
        fprintf(stderr, "[mc] block_until outside of a managed thread\n");
        abort();
    }
    Rt g;
    reschedule(true);
    return block(what, pred, timed, false) == 0;
}
void sched_point(const char*)
{
    if (managed()) {
        Rt g;
        reschedule(true);
    }
}
void hb_release(const void* p)
{
    if (managed()) {
        Rt g;
        release(so(p));
    }
}
void hb_acquire(const void* p)
{
    if (managed()) {
        Rt g;
        acquire(so(p));
    }
}
void access(const void* p, size_t n, bool write)
{
    access_range(reinterpret_cast<uintptr_t>(p), n, write, false,
                 __builtin_return_address(0));
}
Unmanaged::Unmanaged()
{
    if (self) {
        self->unmanaged++;
    }
}
Unmanaged::~Unmanaged()
{
    if (self) {
        self->unmanaged--;
    }
}
} // namespace mc

using namespace mc;

// ================================================================ interposers
#define PC __builtin_return_address(0)
extern "C" {

int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*),
                   void*      arg)
{
    if (!managed()) {
        REAL(pthread_create, nullptr);
        return r(t, at, fn, arg);
    }
    return do_create(t, fn, arg);
}
int pthread_join(pthread_t p, void** ret)
{
    if (managed()) {
        Rt      g;
        Thread* t = by_pthread(p);
        if (t) {
            if (t->joined || t->detached) {
                return EINVAL;
            }
            reschedule(true);
            block("thread join", [t] { return t->st == FINISHED; }, false, false);
            t->joined = true;
            self->vc.join(t->vc);
            if (ret) {
                *ret = t->ret;
            }
            return 0;
        }
    }
    REAL(pthread_join, nullptr);
    return r(p, ret);
}
int pthread_detach(pthread_t p)
{
    if (managed()) {
        Thread* t = by_pthread(p);
        if (t) {
            t->detached = true;
            return 0;
        }
    }
    REAL(pthread_detach, nullptr);
    return r(p);
}
pthread_t pthread_self(void) __THROW
{
    if (active && self && self->id != 0 && !in_rt && self->unmanaged == 0) {
        return static_cast<pthread_t>(0x700000000000ULL + self->id * 16);
    }
    REAL(pthread_self, nullptr);
    return r();
}

int pthread_mutex_lock(pthread_mutex_t* m) __THROW
{
    if (!managed()) {
        REAL(pthread_mutex_lock, nullptr);
        return r(m);
    }
    Rt g;
    check_live(m, "mutex lock", PC);
    reschedule(true);
    check_live(m, "mutex lock", PC);
    SyncObj& o = so(m);
    if (o.owner == self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) {
        o.rec++;
        return 0;
    }
    mutex_acquire(m, "mutex lock");
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) __THROW
{
    if (!managed()) {
        REAL(pthread_mutex_trylock, nullptr);
        return r(m);
    }
    Rt g;
    check_live(m, "mutex trylock", PC);
    reschedule(true);
    check_live(m, "mutex trylock", PC);
    SyncObj& o = so(m);
    if (o.owner == self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) {
        o.rec++;
        return 0;
    }
    if (o.owner || o.readers) {
        return EBUSY;
    }
    mutex_acquire(m, "mutex");
    return 0;
}
static int mutex_timed(pthread_mutex_t* m, void* pc)
{
    Rt g;
    check_live(m, "mutex timed lock", pc);
    reschedule(true);
    if (so(m).owner || so(m).readers) {
        int w = block("timed mutex lock", [m] {
            SyncObj& x = so(m);
            return !x.owner && !x.readers;
        }, true, false);
        if (w == 1) {
            return ETIMEDOUT;
        }
    }
    mutex_acquire(m, "mutex");
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) __THROW
{
    if (!managed()) {
        REAL(pthread_mutex_timedlock, nullptr);
        return r(m, ts);
    }
    return mutex_timed(m, PC);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c,
                            const struct timespec* ts) __THROW
{
    if (!managed()) {
        REAL(pthread_mutex_clocklock, nullptr);
        return r(m, c, ts);
    }
    return mutex_timed(m, PC);
}
int pthread_mutex_unlock(pthread_mutex_t* m) __THROW
{
    if (!managed()) {
        REAL(pthread_mutex_unlock, nullptr);
        return r(m);
    }
    Rt g;
    check_live(m, "mutex unlock", PC);
    if (so(m).owner != self) {
        violation("mutex unlocked by a thread that does not hold it at " + sym(PC));
    }
    mutex_release(m);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) __THROW
{
    if (managed()) {
        Rt g;
        if (so(m).owner) {
            violation("a held mutex is destroyed");
        }
        sync_tab->erase(reinterpret_cast<uintptr_t>(m));
        return 0;
    }
    REAL(pthread_mutex_destroy, nullptr);
    return r(m);
}

// read-write locks: readers are counted, the writer is the owner
int pthread_rwlock_rdlock(pthread_rwlock_t* m) __THROW
{
    if (!managed()) {
        REAL(pthread_rwlock_rdlock, nullptr);
        return r(m);
    }
    Rt g;
    check_live(m, "rwlock", PC);
    reschedule(true);
    block("rwlock read lock", [m] { return !so(m).owner; }, false, false);
    so(m).readers++;
    acquire(so(m));
    used(so(m));
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) __THROW
{
    if (!managed()) {
        REAL(pthread_rwlock_wrlock, nullptr);
        return r(m);
    }
    Rt g;
    check_live(m, "rwlock", PC);
    reschedule(true);
    mutex_acquire(m, "rwlock write lock");
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) __THROW
{
    if (!managed()) {
        REAL(pthread_rwlock_tryrdlock, nullptr);
        return r(m);
    }
    Rt g;
    reschedule(true);
    if (so(m).owner) {
        return EBUSY;
    }
    so(m).readers++;
    acquire(so(m));
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) __THROW
{
    if (!managed()) {
        REAL(pthread_rwlock_trywrlock, nullptr);
        return r(m);
    }
    Rt g;
    reschedule(true);
    if (so(m).owner || so(m).readers) {
        return EBUSY;
    }
    mutex_acquire(m, "rwlock write lock");
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) __THROW
{
    if (!managed()) {
        REAL(pthread_rwlock_unlock, nullptr);
        return r(m);
    }
    Rt g;
    if (so(m).owner == self) {
        mutex_release(m);
    } else {
        so(m).readers--;
        release(so(m));
        used(so(m));
    }
    return 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!managed()) {
        REAL(pthread_cond_wait, "GLIBC_2.3.2");
        return r(c, m);
    }
    return cond_wait_common(c, m, false, PC);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m,
                           const struct timespec* ts)
{
    if (!managed()) {
        REAL(pthread_cond_timedwait, "GLIBC_2.3.2");
        return r(c, m, ts);
    }
    return cond_wait_common(c, m, true, PC);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k,
                           const struct timespec* ts)
{
    if (!managed()) {
        REAL(pthread_cond_clockwait, nullptr);
        return r(c, m, k, ts);
    }
    return cond_wait_common(c, m, true, PC);
}
int pthread_cond_signal(pthread_cond_t* c) __THROW
{
    if (!managed()) {
        REAL(pthread_cond_signal, "GLIBC_2.3.2");
        return r(c);
    }
    Rt g;
    check_live(c, "condition variable signal", PC);
    reschedule(true);
    check_live(c, "condition variable signal", PC);
    SyncObj&              o = so(c);
    std::vector<uint64_t> w;
    for (auto& p : o.waiters) {
        if (!o.signaled.count(p.second)) {
            w.push_back(p.second);
        }
    }
    if (!w.empty()) {
        int k = w.size() > 1 ? pick(static_cast<int>(w.size()), "signal", false) : 0;
        so(c).signaled.insert(w[k]);
    }
    used(so(c));
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) __THROW
{
    if (!managed()) {
        REAL(pthread_cond_broadcast, "GLIBC_2.3.2");
        return r(c);
    }
    Rt g;
    check_live(c, "condition variable broadcast", PC);
    reschedule(true);
    check_live(c, "condition variable broadcast", PC);
    SyncObj& o = so(c);
    for (auto& p : o.waiters) {
        o.signaled.insert(p.second);
    }
    used(o);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) __THROW
{
    if (managed()) {
        Rt       g;
        SyncObj& o = so(c);
        for (auto& p : o.waiters) {
            if (!o.signaled.count(p.second)) {
                violation("a condition variable with waiters is destroyed");
            }
        }
        if (o.last && o.last != self && o.last_clk > self->vc.c[o.last->id]
            && cur_cfg->report_races) {
            violation("a condition variable is destroyed while T"
                      + std::to_string(o.last->id) + " may still be using it");
        }
        sync_tab->erase(reinterpret_cast<uintptr_t>(c));
        return 0;
    }
    REAL(pthread_cond_destroy, "GLIBC_2.3.2");
    return r(c);
}

int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    if (!managed()) {
        REAL(pthread_once, nullptr);
        return r(o, fn);
    }
    {
        Rt g;
        reschedule(true);
        if (*reinterpret_cast<volatile int*>(o) == 2) {
            acquire(so(o));
            return 0;
        }
        for (;;) {
            SyncObj& s = so(o);
            if (*reinterpret_cast<volatile int*>(o) == 2) {
                acquire(so(o));
                return 0;
            }
            if (s.once == 0) {
                s.once = 1;
                break;
            }
            block("call_once", [o] { return so(o).once != 1; }, false, false);
        }
    }
    try {
        fn();
    } catch (...) {
        Rt g;
        so(o).once = 0;
        throw;
    }
    Rt g;
    *reinterpret_cast<volatile int*>(o) = 2;
    so(o).once                          = 2;
    release(so(o));
    return 0;
}

int __cxa_guard_acquire(long long* gd)
{
    char* b = reinterpret_cast<char*>(gd);
    if (!managed()) {
        // native threads: the second byte says that one of them is at it
        for (;;) {
            if (__atomic_load_n(b, __ATOMIC_ACQUIRE))
                return 0;
            char none = 0;
            if (__atomic_compare_exchange_n(b + 1, &none, 1, false, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED))
                break;
            syscall(SYS_sched_yield);
        }
        if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) {
            __atomic_store_n(b + 1, 0, __ATOMIC_RELEASE);
            return 0;
        }
        return 1;
    }
    Rt g;
    reschedule(true);
    for (;;) {
        if (*b) {
            acquire(so(gd));
            return 0;
        }
        SyncObj& s = so(gd);
        if (s.once == 0) {
            s.once = 1;
            return 1;
        }
        block("static initialization", [gd] { return so(gd).once != 1; }, false,
              false);
    }
}
void __cxa_guard_release(long long* gd)
{
    char* b = reinterpret_cast<char*>(gd);
    __atomic_store_n(b, 1, __ATOMIC_RELEASE);
    __atomic_store_n(b + 1, 0, __ATOMIC_RELEASE);
    if (managed()) {
        Rt g;
        so(gd).once = 0;
        release(so(gd));
    }
}
void __cxa_guard_abort(long long* gd)
{
    __atomic_store_n(reinterpret_cast<char*>(gd) + 1, 0, __ATOMIC_RELEASE);
    if (managed()) {
        Rt g;
        so(gd).once = 0;
    }
}

int sched_yield(void) __THROW
{
    if (managed()) {
        Rt g;
        reschedule(true, true);
        return 0;
    }
    REAL(sched_yield, nullptr);
    return r();
}
int nanosleep(const struct timespec* a, struct timespec* b)
{
    if (managed()) {
        Rt g;
        reschedule(true, true);
        return 0;
    }
    REAL(nanosleep, nullptr);
    return r(a, b);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b)
{
    if (managed()) {
        Rt g;
        reschedule(true, true);
        return 0;
    }
    REAL(clock_nanosleep, nullptr);
    return r(c, f, a, b);
}
int usleep(useconds_t u)
{
    if (managed()) {
        Rt g;
        reschedule(true, true);
        return 0;
    }
    REAL(usleep, nullptr);
    return r(u);
}

// I/O calls are visible operations (shared offsets, shared files)
#define IO_POINT()                                                             \
    do {                                                                       \
        if (managed()) {                                                       \
            Rt g_;                                                             \
            if (threads.size() > 1)                                            \
                reschedule(true);                                              \
        }                                                                      \
    } while (0)

// harness hook: may answer the call itself (returns true then)
__attribute__((weak)) bool mc_io_filter(const char* op, int fd, const void* b, size_t n,
                                        off_t o, ssize_t* ret);
#define IO_FILTER(op, b, n, o)                                                 \
    do {                                                                       \
        ssize_t fr_;                                                           \
        if (active && self && mc_io_filter && mc_io_filter(op, fd, b, n, o, &fr_)) \
            return fr_;                                                        \
    } while (0)
// what the kernel reads or writes on behalf of the caller
#define IO_ACCESS(b, n, wr)                                                    \
    do {                                                                       \
        if (managed() && fd > 2 && in_exe(PC) && (ssize_t)(n) > 0)             \
            access_range(reinterpret_cast<uintptr_t>(b), n, wr, false, PC);    \
    } while (0)
ssize_t write(int fd, const void* b, size_t n)
{
    if (fd > 2) {
        IO_POINT();
        IO_ACCESS(b, n, false);
        IO_FILTER("write", b, n, -1);
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t read(int fd, void* b, size_t n)
{
    IO_POINT();
    IO_FILTER("read", b, n, -1);
    ssize_t r = syscall(SYS_read, fd, b, n);
    IO_ACCESS(b, r, true);
    return r;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
{
    IO_POINT();
    IO_ACCESS(b, n, false);
    IO_FILTER("pwrite", b, n, o);
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o)
{
    IO_POINT();
    IO_ACCESS(b, n, false);
    IO_FILTER("pwrite", b, n, o);
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pread(int fd, void* b, size_t n, off_t o)
{
    IO_POINT();
    IO_FILTER("pread", b, n, o);
    ssize_t r = syscall(SYS_pread64, fd, b, n, o);
    IO_ACCESS(b, r, true);
    return r;
}
ssize_t pread64(int fd, void* b, size_t n, off_t o)
{
    IO_POINT();
    IO_FILTER("pread", b, n, o);
    ssize_t r = syscall(SYS_pread64, fd, b, n, o);
    IO_ACCESS(b, r, true);
    return r;
}
off_t lseek(int fd, off_t o, int w) __THROW
{
    IO_POINT();
    return syscall(SYS_lseek, fd, o, w);
}
int ftruncate(int fd, off_t n) __THROW
{
    IO_POINT();
    IO_FILTER("ftruncate", nullptr, 0, n);
    return static_cast<int>(syscall(SYS_ftruncate, fd, n));
}
int close(int fd)
{
    IO_POINT();
    IO_FILTER("close", nullptr, 0, 0);
    return static_cast<int>(syscall(SYS_close, fd));
}

// ---------------------------------------------------------------- allocation
void* malloc(size_t n)
{
    void* p = __libc_malloc(n);
    if (managed() && p) {
        Rt g;
        clear_range(reinterpret_cast<uintptr_t>(p), n);
    }
    return p;
}
void* calloc(size_t a, size_t b)
{
    void* p = __libc_calloc(a, b);
    if (managed() && p) {
        Rt g;
        clear_range(reinterpret_cast<uintptr_t>(p), a * b);
    }
    return p;
}
static void free_from(void* p, void* pc)
{
    if (!p) {
        return;
    }
    if (managed()) {
        managed_free(p, pc);
        return;
    }
    if (active && freed && is_freed(reinterpret_cast<uintptr_t>(p))) {
        return;
    }
    __libc_free(p);
}
void free(void* p)
{
    free_from(p, PC);
}
void* realloc(void* p, size_t n)
{
    if (!managed() || !p) {
        void* q = __libc_realloc(p, n);
        if (managed() && q) {
            Rt g;
            clear_range(reinterpret_cast<uintptr_t>(q), n);
        }
        return q;
    }
    size_t old = malloc_usable_size(p);
    void*  q   = malloc(n);
    memcpy(q, p, old < n ? old : n);
    free_from(p, PC);
    return q;
}
int posix_memalign(void** out, size_t al, size_t n) __THROW
{
    if (al < sizeof(void*) || (al & (al - 1))) {
        return EINVAL;
    }
    *out = __libc_memalign(al, n);
    if (managed() && *out) {
        Rt g;
        clear_range(reinterpret_cast<uintptr_t>(*out), n);
    }
    return *out ? 0 : ENOMEM;
}
void* aligned_alloc(size_t al, size_t n) __THROW
{
    void* p = nullptr;
    return posix_memalign(&p, al < sizeof(void*) ? sizeof(void*) : al, n) == 0
               ? p
               : nullptr;
}
} // extern "C"

void operator delete(void* p) noexcept
{
    free_from(p, PC);
}
void operator delete(void* p, size_t) noexcept
{
    free_from(p, PC);
}
void operator delete[](void* p) noexcept
{
    free_from(p, PC);
}
void operator delete[](void* p, size_t) noexcept
{
    free_from(p, PC);
}
void operator delete(void* p, std::align_val_t) noexcept
{
    free_from(p, PC);
}
void operator delete(void* p, size_t, std::align_val_t) noexcept
{
    free_from(p, PC);
}

// ---------------------------------------------------------------- libstdc++
namespace std {
// waits of std::future / std::promise
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v,
                                                       bool timed, chrono::seconds s,
                                                       chrono::nanoseconds ns)
{
    if (managed()) {
        Rt g;
        check_live(a, "future wait", PC);
        return block("future wait",
                     [a, v] { return __atomic_load_n(a, __ATOMIC_SEQ_CST) != v; },
                     timed, false)
               == 0;
    }
    struct timespec ts = {static_cast<time_t>(s.count()), static_cast<long>(ns.count())};
    if (timed) {
        if (syscall(SYS_futex, a, FUTEX_WAIT_BITSET | FUTEX_CLOCK_REALTIME, v, &ts,
                    nullptr, -1) == -1
            && errno == ETIMEDOUT) {
            return false;
        }
    } else {
        syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0);
    }
    return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(
    unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds ns)
{
    if (managed()) {
        return _M_futex_wait_until(a, v, timed, s, ns);
    }
    struct timespec ts = {static_cast<time_t>(s.count()), static_cast<long>(ns.count())};
    if (timed) {
        if (syscall(SYS_futex, a, FUTEX_WAIT_BITSET, v, &ts, nullptr, -1) == -1
            && errno == ETIMEDOUT) {
            return false;
        }
    } else {
        syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0);
    }
    return true;
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a)
{
    if (managed()) {
        return; // waiters poll their predicate
    }
    syscall(SYS_futex, a, FUTEX_WAKE, 0x7fffffff, nullptr, nullptr, 0);
}
} // namespace std

// ---------------------------------------------------------------- tsan ABI
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RD(n)                                                                  \
    void __tsan_read##n(void* a)                                               \
    {                                                                          \
        access_range(reinterpret_cast<uintptr_t>(a), n, false, false, PC);     \
    }                                                                          \
    void __tsan_write##n(void* a)                                              \
    {                                                                          \
        access_range(reinterpret_cast<uintptr_t>(a), n, true, false, PC);      \
    }                                                                          \
    void __tsan_unaligned_read##n(void* a)                                     \
    {                                                                          \
        access_range(reinterpret_cast<uintptr_t>(a), n, false, false, PC);     \
    }                                                                          \
    void __tsan_unaligned_write##n(void* a)                                    \
    {                                                                          \
        access_range(reinterpret_cast<uintptr_t>(a), n, true, false, PC);      \
    }                                                                          \
    void __tsan_volatile_read##n(void* a)                                      \
    {                                                                          \
        access_range(reinterpret_cast<uintptr_t>(a), n, false, false, PC);     \
    }                                                                          \
    void __tsan_volatile_write##n(void* a)                                     \
    {                                                                          \
        access_range(reinterpret_cast<uintptr_t>(a), n, true, false, PC);      \
    }
RD(1) RD(2) RD(4) RD(8) RD(16)
void __tsan_read_range(void* a, unsigned long n)
{
    access_range(reinterpret_cast<uintptr_t>(a), n, false, false, PC);
}
void __tsan_write_range(void* a, unsigned long n)
{
    access_range(reinterpret_cast<uintptr_t>(a), n, true, false, PC);
}
// calls to these from the code under test (the linker sends them here)
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (n && managed()) {
        access_range(reinterpret_cast<uintptr_t>(s), n, false, false, PC);
        access_range(reinterpret_cast<uintptr_t>(d), n, true, false, PC);
    }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    if (n && managed()) {
        access_range(reinterpret_cast<uintptr_t>(s), n, false, false, PC);
        access_range(reinterpret_cast<uintptr_t>(d), n, true, false, PC);
    }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    if (n && managed()) {
        access_range(reinterpret_cast<uintptr_t>(d), n, true, false, PC);
    }
    return __real_memset(d, c, n);
}
void __tsan_vptr_read(void** a)
{
    access_range(reinterpret_cast<uintptr_t>(a), 8, false, false, PC);
}
void __tsan_vptr_update(void** a, void* v)
{
    if (*a != v) {
        access_range(reinterpret_cast<uintptr_t>(a), 8, true, false, PC);
    }
}
#define ATOM(bits, T)                                                          \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo)                  \
    {                                                                          \
        atomic_pre(const_cast<T*>(a), sizeof(T), false, true, mo, PC);         \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                           \
    }                                                                          \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo)               \
    {                                                                          \
        atomic_pre(const_cast<T*>(a), sizeof(T), true, false, mo, PC);         \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                              \
    }                                                                          \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo)               \
    {                                                                          \
        atomic_pre(const_cast<T*>(a), sizeof(T), true, true, mo, PC);          \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                    \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo)              \
    {                                                                          \
        atomic_pre(const_cast<T*>(a), sizeof(T), true, true, mo, PC);          \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                     \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo)              \
    {                                                                          \
        atomic_pre(const_cast<T*>(a), sizeof(T), true, true, mo, PC);          \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                     \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo)              \
    {                                                                          \
        atomic_pre(const_cast<T*>(a), sizeof(T), true, true, mo, PC);          \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                     \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo)               \
    {                                                                          \
        atomic_pre(const_cast<T*>(a), sizeof(T), true, true, mo, PC);          \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                      \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo)              \
    {                                                                          \
        atomic_pre(const_cast<T*>(a), sizeof(T), true, true, mo, PC);          \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                     \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo)             \
    {                                                                          \
        atomic_pre(const_cast<T*>(a), sizeof(T), true, true, mo, PC);          \
        return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                    \
    }                                                                          \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e,     \
                                                      T v, int mo, int)        \
    {                                                                          \
        atomic_pre(const_cast<T*>(a), sizeof(T), true, true, mo, PC);          \
        return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST,   \
                                           __ATOMIC_SEQ_CST);                  \
    }                                                                          \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v,  \
                                                    int mo, int)               \
    {                                                                          \
        atomic_pre(const_cast<T*>(a), sizeof(T), true, true, mo, PC);          \
        return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST,   \
                                           __ATOMIC_SEQ_CST);                  \
    }                                                                          \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v,      \
                                                 int mo, int)                  \
    {                                                                          \
        atomic_pre(const_cast<T*>(a), sizeof(T), true, true, mo, PC);          \
        __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST,         \
                                    __ATOMIC_SEQ_CST);                         \
        return e;                                                              \
    }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int)
{
    if (managed()) {
        Rt g;
        reschedule(true);
        self->vc.join(fence_vc);
        fence_vc.join(self->vc);
        self->vc.c[self->id]++;
    }
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
void __tsan_atomic_signal_fence(int) {}
} // extern "C"
