// Exhaustive depth-first exploration of choice trees, with sharding over
// processes, replay artefacts and measured coverage.
#include "internal.h"

#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
extern "C" void __sanitizer_set_death_callback(void (*)());
#endif

namespace mc {
namespace detail {
SchedHooks*   sched_hooks = nullptr;
const Config* cur_cfg     = nullptr;
int           cpu_slot    = 0;
} // namespace detail
using namespace detail;

namespace {

constexpr size_t kMaxChoices = 1 << 18;
constexpr size_t kMaxHashes  = 1 << 16;
constexpr size_t kNoteBytes  = 1 << 18;
constexpr size_t kMaxCounter = 48;

struct Choice
{
    int16_t n;
    int16_t chosen;
    uint8_t sched;
    char    tag[15];
};
struct Shared
{
    // the path
    uint32_t len;     // choices on the stack
    uint32_t pos;     // next choice of this execution
    uint32_t visited; // choices made in this execution
    int      pruned;
    int      finished;
    int      violated;
    // per-execution reports
    uint64_t steps;
    uint64_t transitions;
    uint64_t validated;
    uint32_t n_states;
    uint32_t n_outcomes;
    uint32_t note_len;
    uint32_t n_counters;
    uint32_t n_known;
    uint64_t new_nodes;
    struct
    {
        char     name[40];
        uint64_t v;
    } counters[kMaxCounter];
    char     known[32][160];
    uint64_t states[kMaxHashes];
    uint64_t outcomes[256];
    char     outcome_text[512];
    char     notes[kNoteBytes];
    Choice   c[kMaxChoices];
};
Shared* S = nullptr;

std::vector<Scenario>* g_scen = nullptr;
std::string            g_property = "P00", g_tier = "quick", g_replay_dir = ".",
            g_scratch;
std::set<std::string> g_known;
bool                  g_replay_mode = false;
uint32_t              g_skip_depth  = 0; // abandon the execution at this choice
const Scenario*       g_cur         = nullptr;
int                   g_seed        = 1;

uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) {
        h ^= c[i];
        h *= 1099511628211ULL;
    }
    return h;
}

double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

struct PruneException
{
};

std::string replay_path()
{
    std::string s = g_cur ? g_cur->name : "none";
    for (char& ch : s) {
        if (!isalnum(static_cast<unsigned char>(ch)) && ch != '-' && ch != '_') {
            ch = '_';
        }
    }
    return g_replay_dir + "/" + g_property + "-" + s + ".replay";
}

// async-signal-tolerant writing of the artefact
void write_replay(const char* msg)
{
    std::string path = replay_path();
    std::string tmp  = path + "." + std::to_string(getpid());
    FILE*       f    = fopen(tmp.c_str(), "w");
    if (!f) {
        fprintf(stderr, "cannot write %s\n", tmp.c_str());
        return;
    }
    fprintf(f, "property %s\nscenario %s\ntier %s\n", g_property.c_str(),
            g_cur ? g_cur->name.c_str() : "-", g_tier.c_str());
    fprintf(f, "choices");
    for (uint32_t i = 0; i < S->visited && i < kMaxChoices; i++) {
        fprintf(f, " %d", S->c[i].chosen);
    }
    fprintf(f, "\nmessage %s\n", msg);
    fprintf(f, "options");
    for (uint32_t i = 0; i < S->visited && i < 4000; i++) {
        fprintf(f, " %s:%d/%d", S->c[i].tag, S->c[i].chosen, S->c[i].n);
    }
    fprintf(f, "\ntrace\n");
    fwrite(S->notes, 1, S->note_len, f);
    fprintf(f, "\n");
    fclose(f);
    rename(tmp.c_str(), path.c_str());
}

volatile sig_atomic_t g_in_violation = 0;
int g_log = -1, g_err = 2; // log of the code's own output; our stderr

[[noreturn]] void do_violation(const char* msg)
{
    if (g_in_violation) {
        _exit(66);
    }
    g_in_violation = 1;
    S->violated    = 1;
    fflush(stderr);
    if (g_log >= 0) {
        // last words of the code under test (sanitizer reports included)
        static char buf[2500];
        struct stat sb;
        if (fstat(g_log, &sb) == 0) {
            off_t   from = sb.st_size > 2400 ? sb.st_size - 2400 : 0;
            ssize_t n    = syscall(SYS_pread64, g_log, buf, 2400, from);
            if (n > 0) {
                dprintf(g_err, "%.*s\n", static_cast<int>(n), buf);
            }
        }
    }
    dprintf(g_err, "[mc] VIOLATION in scenario %s: %s\n",
            g_cur ? g_cur->name.c_str() : "-", msg);
    if (!g_replay_mode) {
        write_replay(msg);
    } else {
        fprintf(stderr, "[mc] trace:\n%.*s\n", static_cast<int>(S->note_len),
                S->notes);
    }
    _exit(66);
}

void on_signal(int sig)
{
    if (!g_cur) {
        signal(sig, SIG_DFL);
        raise(sig);
        return;
    }
    char buf[200];
    if (sig == SIGALRM) {
        snprintf(buf, sizeof buf,
                 "execution did not terminate within its time limit (hang)");
    } else {
        snprintf(buf, sizeof buf, "the code under test crashed with signal %d (%s)",
                 sig, strsignal(sig));
    }
    do_violation(buf);
}
void on_asan_death()
{
    if (g_cur) {
        do_violation("sanitizer report (see stderr)");
    }
}
void install_handlers()
{
    static char      altstack[65536];
    stack_t          ss{};
    ss.ss_sp   = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    sa.sa_flags   = SA_ONSTACK | SA_NODEFER;
    sigaction(SIGALRM, &sa, nullptr);
    sigaction(SIGABRT, &sa, nullptr);
    sigaction(SIGFPE, &sa, nullptr);
    sigaction(SIGILL, &sa, nullptr);
#ifdef MC_ASAN
    __sanitizer_set_death_callback(on_asan_death);
#else
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
#endif
    signal(SIGPIPE, SIG_IGN);
}

void set_alarm(double s)
{
    struct itimerval it{};
    it.it_value.tv_sec  = static_cast<time_t>(s);
    it.it_value.tv_usec = static_cast<suseconds_t>((s - std::floor(s)) * 1e6);
    setitimer(ITIMER_REAL, &it, nullptr);
}

void reset_exec()
{
    S->pos = S->visited = 0;
    S->pruned = S->finished = S->violated = 0;
    S->steps = S->transitions = S->validated = 0;
    S->n_states = S->n_outcomes = S->note_len = S->n_counters = S->n_known = 0;
    S->new_nodes                                                          = 0;
    S->outcome_text[0]                                                    = 0;
}

void run_body(const Scenario& sc)
{
    bool managed = sc.cfg.managed && sched_hooks;
    cur_cfg      = &sc.cfg;
    set_alarm(sc.cfg.exec_timeout);
    try {
        if (managed) {
            sched_hooks->begin(sc.cfg);
        }
        sc.body();
        if (managed) {
            sched_hooks->end();
        }
    } catch (PruneException&) {
        S->pruned = 1;
        if (managed) {
            sched_hooks->end();
        }
    } catch (std::exception& e) {
        violation(std::string("unexpected exception escaped: ")
                  + typeid(e).name() + ": " + e.what());
    } catch (...) {
        violation("unexpected exception escaped (unknown type)");
    }
    set_alarm(0);
    S->finished = 1;
}

struct JobStats
{
    uint64_t                         executions = 0, pruned = 0, steps = 0,
             transitions = 0, validated = 0, nodes = 0, max_depth = 0;
    bool                             complete = true;
    std::unordered_set<uint64_t>     states, outcomes;
    std::map<std::string, uint64_t>  counters;
    std::set<std::string>            known;
    std::vector<std::string>         samples;
};

void fold(JobStats& st, bool owned)
{
    for (uint32_t i = 0; i < S->n_known; i++) {
        st.known.insert(S->known[i]);
    }
    if (!owned) {
        return;
    }
    if (S->pruned) {
        st.pruned++;
    } else {
        st.executions++;
    }
    st.steps += S->steps;
    st.transitions += S->transitions;
    st.validated += S->validated;
    st.nodes += S->new_nodes;
    st.max_depth = std::max<uint64_t>(st.max_depth, S->visited);
    for (uint32_t i = 0; i < S->n_states; i++) {
        if (st.states.size() < 20000000) {
            st.states.insert(S->states[i]);
        }
    }
    for (uint32_t i = 0; i < S->n_outcomes; i++) {
        st.outcomes.insert(S->outcomes[i]);
    }
    for (uint32_t i = 0; i < S->n_counters; i++) {
        st.counters[S->counters[i].name] += S->counters[i].v;
    }
    uint64_t e = st.executions;
    if ((e == 1 || e == 40 || e == 3000) && !S->pruned) {
        std::string smp(S->notes, std::min<size_t>(S->note_len, 1500));
        smp += std::string(" => ") + S->outcome_text;
        smp += " [choices:";
        for (uint32_t i = 0; i < S->visited && i < 60; i++) {
            smp += " " + std::to_string(S->c[i].chosen);
        }
        smp += "]";
        st.samples.push_back(smp);
    }
}

void explore_job(const Scenario& sc, int shard, const std::string& out)
{
    JobStats st;
    g_cur        = &sc;
    S->len       = 0;
    double  t0   = now();
    int64_t prefix_ord = 0;
    bool    first      = true;
    uint32_t D = sc.cfg.shard_depth;
    uint32_t changed_at = 0; // index of the last modified choice
    for (;;) {
        reset_exec();
        // a new prefix of another shard: stop as soon as it is known in full
        g_skip_depth = 0;
        if (sc.cfg.shards > 1 && !sc.cfg.managed && (first || changed_at < D)
            && (prefix_ord + (first ? 0 : 1)) % sc.cfg.shards != shard) {
            g_skip_depth = D;
        }
        struct stat lb;
        if (g_log >= 0 && (st.executions & 1023) == 0 && fstat(g_log, &lb) == 0
            && lb.st_size > 1000000) {
            syscall(SYS_ftruncate, g_log, 0L);
        }
        if (sc.cfg.forked) {
            fflush(stdout);
            fflush(stderr);
            pid_t p = fork();
            if (p == 0) {
                install_handlers();
                run_body(sc);
                _exit(0);
            }
            int status = 0;
            while (waitpid(p, &status, 0) < 0 && errno == EINTR) {
            }
            if (WIFEXITED(status) && WEXITSTATUS(status) == 66) {
                _exit(66);
            }
            if (!WIFEXITED(status) || WEXITSTATUS(status) != 0 || !S->finished) {
                char b[100];
                snprintf(b, sizeof b,
                         "execution process died (status 0x%x)", status);
                do_violation(b);
            }
        } else {
            run_body(sc);
        }
        if (S->visited < S->len && !S->pruned) {
            dprintf(g_err,
                    "[mc] internal: execution made %u choices, prefix has %u "
                    "(nondeterministic harness) in %s\n",
                    S->visited, S->len, sc.name.c_str());
            _exit(3);
        }
        S->len     = S->visited;
        bool owned = true;
        if (sc.cfg.shards > 1) {
            if (!first && changed_at < D) {
                prefix_ord++;
            }
            owned = (prefix_ord % sc.cfg.shards) == shard;
        }
        first = false;
        fold(st, owned);
        if (!owned && S->len > D) {
            S->len = D;
        }
        // backtrack
        while (S->len > 0) {
            Choice& c = S->c[S->len - 1];
            if (c.chosen + 1 < c.n) {
                c.chosen++;
                break;
            }
            S->len--;
        }
        if (S->len == 0) {
            break;
        }
        changed_at = S->len - 1;
        if (sc.cfg.budget_s > 0 && now() - t0 > sc.cfg.budget_s) {
            st.complete = false;
            break;
        }
    }
    g_cur = nullptr;
    // report
    std::ofstream f(out + ".txt");
    f << "executions " << st.executions << "\npruned " << st.pruned << "\nsteps "
      << st.steps << "\ntransitions " << st.transitions << "\nvalidated "
      << st.validated << "\nnodes " << st.nodes << "\nmax_depth " << st.max_depth
      << "\ncomplete " << st.complete << "\nwall " << (now() - t0) << "\n";
    for (auto& kv : st.counters) {
        f << "counter " << kv.first << " " << kv.second << "\n";
    }
    for (auto& k : st.known) {
        f << "known " << k << "\n";
    }
    for (auto s : st.samples) {
        std::replace(s.begin(), s.end(), '\n', '|');
        f << "sample " << s << "\n";
    }
    f.close();
    std::ofstream h(out + ".states", std::ios::binary);
    for (uint64_t v : st.states) {
        h.write(reinterpret_cast<const char*>(&v), 8);
    }
    h.close();
    std::ofstream o(out + ".outcomes", std::ios::binary);
    for (uint64_t v : st.outcomes) {
        o.write(reinterpret_cast<const char*>(&v), 8);
    }
}

std::string json_str(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c == '\n') {
            o += "\\n";
        } else if (c < 32 || c >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else {
            o += static_cast<char>(c);
        }
    }
    return o + "\"";
}

void rm_rf(const std::string& p)
{
    // only ever called on directories created below by mkdtemp
    if (p.find("/mcscratch.") == std::string::npos) {
        return;
    }
    std::string cmd = "rm -rf -- '" + p + "'";
    int         r   = system(cmd.c_str());
    (void)r;
}

} // namespace

// ---------------------------------------------------------------- public API
int detail::pick(int n, const char* tag, bool sched)
{
    if (n <= 0) {
        violation(std::string("internal: choose(0) at ") + tag);
    }
    if (n == 1) {
        return 0;
    }
    uint32_t p = S->pos;
    if (p >= kMaxChoices) {
        violation("internal: too many choices in one execution");
    }
    Choice& c = S->c[p];
    if (p < S->len) {
        if (g_replay_mode) {
            c.n     = static_cast<int16_t>(n);
            c.sched = sched;
            if (c.chosen >= n) {
                fprintf(stderr, "[mc] replay diverged\n");
                _exit(4);
            }
        } else if (c.n != n) {
            dprintf(g_err,
                    "[mc] internal: choice %u has %d options, had %d on the "
                    "previous execution (%s/%s): nondeterministic harness in "
                    "%s\n",
                    p, n, c.n, tag, c.tag, g_cur ? g_cur->name.c_str() : "-");
            _exit(3);
        }
        strncpy(c.tag, tag, sizeof(c.tag) - 1);
    } else {
        c.n      = static_cast<int16_t>(n);
        c.chosen = 0;
        c.sched  = sched;
        strncpy(c.tag, tag, sizeof(c.tag) - 1);
        c.tag[sizeof(c.tag) - 1] = 0;
        S->new_nodes++;
    }
    if (p + 1 == S->len && !g_replay_mode) {
        S->new_nodes++; // the re-chosen branch leads to a new node
    }
    S->pos     = p + 1;
    S->visited = p + 1;
    if (p + 1 == g_skip_depth && !g_replay_mode) {
        g_skip_depth = 0;
        throw PruneException(); // this prefix belongs to another shard
    }
    return c.chosen;
}
void detail::add_steps(uint64_t n)
{
    S->steps += n;
}

int choose(int n, const char* tag)
{
    return detail::pick(n, tag, false);
}
void prune()
{
    throw PruneException();
}
void violation(const std::string& msg)
{
    do_violation(msg.c_str());
}
bool finding(const std::string& key, const std::string& msg)
{
    if (g_known.count(key)) {
        if (S->n_known < 32) {
            strncpy(S->known[S->n_known], key.c_str(), 159);
            S->known[S->n_known][159] = 0;
            bool dup                  = false;
            for (uint32_t i = 0; i < S->n_known; i++) {
                dup |= !strcmp(S->known[i], S->known[S->n_known]);
            }
            if (!dup) {
                S->n_known++;
            }
        }
        return true;
    }
    do_violation((msg + " [" + key + "]").c_str());
}
void finding_end(const std::string& key, const std::string& msg)
{
    finding(key, msg);
    prune();
}
void note(const std::string& l)
{
    if (S->note_len + l.size() + 2 < kNoteBytes) {
        memcpy(S->notes + S->note_len, l.data(), l.size());
        S->note_len += l.size();
        S->notes[S->note_len++] = '\n';
    }
}
void outcome(const std::string& o)
{
    if (S->n_outcomes < 256) {
        S->outcomes[S->n_outcomes++] = fnv(o.data(), o.size());
        strncpy(S->outcome_text, o.c_str(), sizeof(S->outcome_text) - 1);
        S->outcome_text[sizeof(S->outcome_text) - 1] = 0;
    }
}
void state(uint64_t h)
{
    if (S->n_states < kMaxHashes) {
        S->states[S->n_states++] = h;
    }
}
void state(const std::string& s)
{
    state(fnv(s.data(), s.size()));
}
void transitions(uint64_t n)
{
    S->transitions += n;
}
void validated(uint64_t n)
{
    S->validated += n;
}
void count(const std::string& name, uint64_t n)
{
    for (uint32_t i = 0; i < S->n_counters; i++) {
        if (!strcmp(S->counters[i].name, name.c_str())) {
            S->counters[i].v += n;
            return;
        }
    }
    if (S->n_counters < kMaxCounter) {
        strncpy(S->counters[S->n_counters].name, name.c_str(), 39);
        S->counters[S->n_counters].name[39] = 0;
        S->counters[S->n_counters].v        = n;
        S->n_counters++;
    }
}
bool thorough()
{
    return g_tier == "thorough";
}
int tier_pick(int q, int t)
{
    return thorough() ? t : q;
}
const std::string& scratch()
{
    if (g_scratch.empty()) {
        fprintf(stderr, "[mc] no scratch directory yet\n");
        abort();
    }
    return g_scratch;
}
void add(const std::string& name, const Config& cfg, std::function<void()> body)
{
    g_scen->push_back({name, cfg, std::move(body)});
    if (thorough() && cfg.deep > 0) {
        Scenario d = g_scen->back();
        d.name     = "deep-" + name;
        d.cfg.preemptions += cfg.deep;
        d.cfg.deep_pass = true;
        d.cfg.shards    = std::max(cfg.shards, 8);
        g_scen->push_back(d);
    }
}

namespace {
std::string make_scratch()
{
    for (const char* base : {"/dev/shm", "/tmp"}) {
        std::string t = std::string(base) + "/mcscratch." + g_property + ".XXXXXX";
        std::vector<char> b(t.begin(), t.end());
        b.push_back(0);
        if (mkdtemp(b.data())) {
            return b.data();
        }
    }
    fprintf(stderr, "[mc] no scratch directory\n");
    exit(2);
}

int run_replay(const std::string& file)
{
    std::ifstream f(file);
    std::string   line, scen;
    std::vector<int> ch;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string        k;
        is >> k;
        if (k == "scenario") {
            scen = line.size() > 9 ? line.substr(9) : "";
        } else if (k == "choices") {
            int v;
            while (is >> v) {
                ch.push_back(v);
            }
        } else if (k == "trace") {
            break;
        }
    }
    for (auto& sc : *g_scen) {
        if (sc.name == scen) {
            g_replay_mode = true;
            reset_exec();
            S->len = ch.size();
            for (size_t i = 0; i < ch.size(); i++) {
                S->c[i].n      = 0;
                S->c[i].chosen = ch[i];
            }
            g_scratch = make_scratch();
            pid_t p   = fork();
            if (p == 0) {
                install_handlers();
                g_cur = &sc;
                run_body(sc);
                g_cur = nullptr;
                _exit(0);
            }
            int status = 0;
            waitpid(p, &status, 0);
            rm_rf(g_scratch);
            if (WIFEXITED(status)) {
                return WEXITSTATUS(status);
            }
            return 66;
        }
    }
    fprintf(stderr, "[mc] scenario %s not found\n", scen.c_str());
    return 5;
}
} // namespace
} // namespace mc

using namespace mc;

int main(int argc, char** argv)
{
    std::string replay, only, part;
    int         jobs = 8;
    bool        list = false;
    double      budget = 0;
    std::string known_file;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--property") {
            g_property = next();
        } else if (a == "--tier") {
            g_tier = next();
        } else if (a == "--replay") {
            replay = next();
        } else if (a == "--only") {
            only = next();
        } else if (a == "--part") {
            part = next();
        } else if (a == "--replay-dir") {
            g_replay_dir = next();
        } else if (a == "--known") {
            known_file = next();
        } else if (a == "--jobs") {
            jobs = atoi(next().c_str());
        } else if (a == "--seed") {
            g_seed = atoi(next().c_str());
        } else if (a == "--budget") {
            budget = atof(next().c_str());
        } else if (a == "--list") {
            list = true;
        }
    }
    if (!known_file.empty()) {
        std::ifstream f(known_file);
        std::string   l;
        while (std::getline(f, l)) {
            if (!l.empty()) {
                g_known.insert(l);
            }
        }
    }
    S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                  MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<Scenario> scen;
    g_scen = &scen;
    // what harnesses prepare in advance has a place of its own
    g_scratch = make_scratch();
    mc_register();
    rm_rf(g_scratch);
    g_scratch.clear();
    if (list) {
        for (auto& s : scen) {
            printf("%s\n", s.name.c_str());
        }
        return 0;
    }
    if (!replay.empty()) {
        return run_replay(replay);
    }
    double      t0  = now();
    std::string dir = make_scratch();
    struct Job
    {
        size_t scen;
        int    shard;
        pid_t  pid;
        int    status;
        bool   done;
        int    slot;
    };
    std::vector<Job> js;
    for (size_t i = 0; i < scen.size(); i++) {
        if (!only.empty() && scen[i].name.find(only) == std::string::npos) {
            continue;
        }
        for (int s = 0; s < scen[i].cfg.shards; s++) {
            js.push_back({i, s, 0, 0, false, 0});
        }
    }
    std::stable_partition(js.begin(), js.end(),
                          [&](const Job& j) { return !scen[j.scen].cfg.deep_pass; });
    const double deep_deadline = getenv("MC_DEEP_S") ? atof(getenv("MC_DEEP_S")) : 600;
    size_t nextj = 0, running = 0;
    int    bad = 0; // 0 ok, 1 violation, 2 error
    std::string vio_scen;
    std::vector<bool> slots(jobs, false);
    while (nextj < js.size() || running > 0) {
        while (nextj < js.size() && static_cast<int>(running) < jobs && !bad) {
            Job& j = js[nextj];
            fflush(stdout);
            fflush(stderr);
            if (budget > 0 && scen[j.scen].cfg.budget_s == 0) {
                scen[j.scen].cfg.budget_s = budget;
            }
            if (scen[j.scen].cfg.deep_pass && budget == 0) {
                // share what is left of the time evenly
                scen[j.scen].cfg.budget_s
                    = std::max(1.0, (deep_deadline - (now() - t0)) * jobs
                                        / static_cast<double>(js.size() - nextj));
            }
            j.slot = 0;
            while (slots[j.slot]) {
                j.slot++;
            }
            slots[j.slot] = true;
            cpu_slot      = j.slot;
            j.pid = fork();
            if (j.pid == 0) {
                // fresh shared area for this worker
                S = static_cast<Shared*>(
                    mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
                g_scratch = dir + "/w" + std::to_string(nextj);
                mkdir(g_scratch.c_str(), 0700);
                // keep the code's chatter out of the report
                if (!getenv("MC_VERBOSE")) {
                    g_log = open((dir + "/out" + std::to_string(nextj)).c_str(),
                                 O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
                    fcntl(2, F_DUPFD_CLOEXEC, 200);
                    g_err  = fcntl(2, F_DUPFD_CLOEXEC, 201);
                    int dn = open("/dev/null", O_WRONLY);
                    dup2(dn, 1);
                    dup2(g_log, 2);
                    close(dn);
                }
                install_handlers();
                explore_job(scen[j.scen], j.shard,
                            dir + "/res" + std::to_string(nextj));
                _exit(0);
            }
            running++;
            nextj++;
        }
        if (bad && running == 0) {
            break;
        }
        int   status = 0;
        pid_t p      = wait(&status);
        if (p < 0) {
            break;
        }
        for (auto& j : js) {
            if (j.pid == p && !j.done) {
                j.done   = true;
                slots[j.slot] = false;
                j.status = status;
                running--;
                rm_rf(dir + "/w" + std::to_string(&j - &js[0]));
                if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
                } else if (WIFEXITED(status) && WEXITSTATUS(status) == 66) {
                    if (bad != 1) {
                        vio_scen = scen[j.scen].name;
                    }
                    bad = 1;
                } else {
                    fprintf(stderr, "[mc] scenario %s: worker ended with 0x%x\n",
                            scen[j.scen].name.c_str(), status);
                    if (!bad) {
                        bad = 2;
                    }
                }
                if (bad) {
                    for (auto& k : js) {
                        if (k.pid && !k.done) {
                            kill(k.pid, SIGKILL);
                        }
                    }
                }
            }
        }
    }
    // aggregate
    uint64_t exec = 0, pruned = 0, steps = 0, trans = 0, valid = 0, nodes = 0,
             maxd = 0;
    bool complete = bad == 0;
    std::unordered_set<uint64_t>    states, outcomes;
    std::map<std::string, uint64_t> counters;
    std::set<std::string>           known;
    std::vector<std::string>        samples;
    std::map<std::string, std::string> per;
    std::map<size_t, std::array<uint64_t, 4>> ps;
    std::map<size_t, bool> pc;
    for (size_t k = 0; k < js.size(); k++) {
        std::string   r = dir + "/res" + std::to_string(k);
        std::ifstream f(r + ".txt");
        if (!f) {
            complete = false;
            continue;
        }
        std::string line;
        auto&       a = ps[js[k].scen];
        if (!pc.count(js[k].scen)) {
            pc[js[k].scen] = true;
        }
        while (std::getline(f, line)) {
            std::istringstream is(line);
            std::string        key;
            is >> key;
            uint64_t v = 0;
            if (key == "counter") {
                std::string n = line.substr(8);
                size_t      sp = n.rfind(' ');
                counters[n.substr(0, sp)] += strtoull(n.c_str() + sp, nullptr, 10);
                continue;
            }
            if (key == "known") {
                known.insert(line.substr(6));
                continue;
            }
            if (key == "sample") {
                if (js[k].shard == 0 && samples.size() < 12) {
                    samples.push_back(scen[js[k].scen].name + ": "
                                      + line.substr(7));
                }
                continue;
            }
            if (key == "wall") {
                double w;
                is >> w;
                a[3] += static_cast<uint64_t>(w * 1000);
                continue;
            }
            is >> v;
            if (key == "executions") {
                exec += v;
                a[0] += v;
            } else if (key == "pruned") {
                pruned += v;
            } else if (key == "steps") {
                steps += v;
                a[1] += v;
            } else if (key == "transitions") {
                trans += v;
            } else if (key == "validated") {
                valid += v;
            } else if (key == "nodes") {
                nodes += v;
                a[2] += v;
            } else if (key == "max_depth") {
                maxd = std::max(maxd, v);
            } else if (key == "complete") {
                complete = complete && (v || scen[js[k].scen].cfg.deep_pass);
                pc[js[k].scen] = pc[js[k].scen] && v;
            }
        }
        for (int w = 0; w < 2; w++) {
            std::ifstream h(r + (w ? ".outcomes" : ".states"), std::ios::binary);
            uint64_t      v;
            while (h.read(reinterpret_cast<char*>(&v), 8)) {
                // outcomes are per scenario
                if (w) {
                    outcomes.insert(v ^ (js[k].scen * 0x9e3779b97f4a7c15ULL));
                } else {
                    states.insert(v);
                }
            }
        }
    }
    rm_rf(dir);
    if (!part.empty()) {
        std::ofstream f(part);
        f << "{\n \"executions\": " << exec << ",\n \"pruned\": " << pruned
          << ",\n \"schedule_steps\": " << steps << ",\n \"op_transitions\": " << trans
          << ",\n \"comparisons\": " << valid << ",\n \"choice_nodes\": " << nodes
          << ",\n \"max_choice_depth\": " << maxd
          << ",\n \"distinct_states\": " << states.size()
          << ",\n \"distinct_outcomes\": " << outcomes.size()
          << ",\n \"complete\": " << (complete ? "true" : "false")
          << ",\n \"wall_s\": " << (now() - t0) << ",\n \"counters\": {";
        bool c = false;
        for (auto& kv : counters) {
            f << (c ? ", " : "") << json_str(kv.first) << ": " << kv.second;
            c = true;
        }
        f << "},\n \"known\": [";
        c = false;
        for (auto& k : known) {
            f << (c ? ", " : "") << json_str(k);
            c = true;
        }
        f << "],\n \"scenarios\": [";
        c = false;
        for (auto& kv : ps) {
            f << (c ? ",\n  " : "\n  ") << "{\"name\": " << json_str(scen[kv.first].name)
              << ", \"executions\": " << kv.second[0] << ", \"steps\": " << kv.second[1]
              << ", \"nodes\": " << kv.second[2] << ", \"cpu_ms\": " << kv.second[3]
              << ", \"complete\": " << (pc[kv.first] ? "true" : "false");
            if (scen[kv.first].cfg.managed) {
                f << (scen[kv.first].cfg.delay_bounded ? ", \"delay_bound\": " : ", \"preemption_bound\": ") << scen[kv.first].cfg.preemptions;
            }
            f << "}";
            c = true;
        }
        f << "],\n \"samples\": [";
        c = false;
        for (auto& s : samples) {
            f << (c ? ",\n  " : "\n  ") << json_str(s);
            c = true;
        }
        f << "]\n}\n";
    }
    for (auto& k : known) {
        printf("KNOWN %s\n", k.c_str());
    }
    printf("[mc] %s: executions=%llu pruned=%llu steps=%llu ops=%llu nodes=%llu "
           "states=%zu outcomes=%zu complete=%d wall=%.1fs\n",
           g_property.c_str(), (unsigned long long)exec, (unsigned long long)pruned,
           (unsigned long long)steps, (unsigned long long)trans,
           (unsigned long long)nodes, states.size(), outcomes.size(), complete,
           now() - t0);
    if (bad == 1) {
        for (auto& sc : scen) {
            if (sc.name == vio_scen) {
                g_cur = &sc;
            }
        }
        printf("VIOLATED %s\n", replay_path().c_str());
        g_cur = nullptr;
        return 66;
    }
    if (bad == 2) {
        return 2;
    }
    return 0;
}
