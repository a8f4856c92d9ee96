// P04: a process kill at any file-system mutation, including inside a write,
// leaves a store that reopens and holds every acknowledged update.
#include "store_common.h"

#include <atomic>
#include <dirent.h>
#include <fcntl.h>
#include <mutex>
#include <set>
#include <stdarg.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace {
using namespace store;

// ---- kill points ------------------------------------------------------------
using Image = std::map<std::string, std::string>; // the files of the store
struct Snapshot
{
    Image       img;
    int         acked, started;
    std::string where;
};

std::recursive_mutex  g_mx;
std::string           g_dir;      // directory being watched ("" for none)
bool                  g_record = false;
std::vector<Snapshot> g_snaps;
std::set<size_t>      g_seen;
std::atomic<int>      g_acked{0}, g_started{0};
std::string           g_fd[4096]; // watched files
uint64_t              g_points = 0;
bool                  g_every_byte = false;

bool noise(const std::string& name)
{
    return name.compare(0, 3, "LOG") == 0 || name == "LOCK";
}
std::string slurp(const std::string& p)
{
    std::string o;
    int         fd = syscall(SYS_open, p.c_str(), O_RDONLY);
    char        buf[65536];
    ssize_t     n;
    while (fd >= 0 && (n = syscall(SYS_read, fd, buf, sizeof buf)) > 0) {
        o.append(buf, n);
    }
    syscall(SYS_close, fd);
    return o;
}
Image capture(const std::string& dir)
{
    Image img;
    DIR*  d = ::opendir(dir.c_str());
    while (d) {
        dirent* e = ::readdir(d);
        if (!e) {
            break;
        }
        std::string n = e->d_name;
        if (n != "." && n != ".." && !noise(n)) {
            img[n] = slurp(dir + "/" + n);
        }
    }
    if (d) {
        ::closedir(d);
    } else {
        img[".absent"] = "";
    }
    return img;
}
void restore(const Image& img, const std::string& dir)
{
    wipe(dir);
    if (img.count(".absent")) {
        return;
    }
    ::mkdir(dir.c_str(), 0755);
    for (auto& f : img) {
        int fd = syscall(SYS_open, (dir + "/" + f.first).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        for (size_t o = 0; o < f.second.size();) {
            ssize_t n = syscall(SYS_write, fd, f.second.data() + o, f.second.size() - o);
            if (n <= 0) {
                abort();
            }
            o += n;
        }
        syscall(SYS_close, fd);
    }
}
void kill_point(const std::string& where)
{
    if (!g_record) {
        return;
    }
    g_points++;
    Snapshot sn;
    sn.acked   = g_acked;
    sn.img     = capture(g_dir);
    sn.started = g_started;
    sn.where   = where;
    size_t h   = std::hash<std::string>()(s(sn.acked) + "," + s(sn.started));
    for (auto& f : sn.img) {
        h = h * 1000003 ^ std::hash<std::string>()(f.first);
        h = h * 1000003 ^ std::hash<std::string>()(f.second);
    }
    if (g_seen.insert(h).second) {
        g_snaps.push_back(std::move(sn));
    }
}
bool watched(const char* path, std::string& name)
{
    if (g_dir.empty() || !path) {
        return false;
    }
    std::string p = path;
    if (p == g_dir) {
        name = ".";
        return true;
    }
    if (p.compare(0, g_dir.size() + 1, g_dir + "/")) {
        return false;
    }
    name = p.substr(g_dir.size() + 1);
    while (!name.empty() && name[0] == '/') {
        name = name.substr(1);
    }
    return !noise(name);
}
using Lock = std::lock_guard<std::recursive_mutex>;
} // namespace

extern "C" {
int open(const char* path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    std::string n;
    Lock        l(g_mx);
    bool        w = watched(path, n);
    bool        m = w && (flags & (O_CREAT | O_TRUNC));
    if (m) {
        kill_point("before open " + n);
    }
    int fd = syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    if (fd >= 0 && fd < 4096) {
        g_fd[fd] = w && (flags & (O_WRONLY | O_RDWR)) ? n : "";
    }
    return fd;
}
int close(int fd)
{
    if (fd >= 0 && fd < 4096 && !g_fd[fd].empty()) {
        Lock l(g_mx);
        g_fd[fd].clear();
    }
    return syscall(SYS_close, fd);
}
ssize_t write(int fd, const void* buf, size_t n)
{
    if (fd < 0 || fd >= 4096 || g_fd[fd].empty()) {
        return syscall(SYS_write, fd, buf, n);
    }
    Lock             l(g_mx);
    std::string      name = g_fd[fd];
    const char*      p    = (const char*)buf;
    size_t           done = 0;
    std::set<size_t> cuts = {0};
    if (g_record && n > 1) {
        if (g_every_byte && n <= 96) {
            for (size_t i = 1; i < n; i++)
                cuts.insert(i);
        } else {
            cuts.insert({1, n / 2, n - 1});
            if (n > 8)
                cuts.insert(7); // the header of a log record
        }
    }
    for (size_t c : cuts) {
        while (done < c) {
            ssize_t r = syscall(SYS_write, fd, p + done, c - done);
            if (r <= 0) {
                return done ? (ssize_t)done : r;
            }
            done += r;
        }
        kill_point("after " + s(c) + " of " + s(n) + " bytes written to " + name);
    }
    while (done < n) {
        ssize_t r = syscall(SYS_write, fd, p + done, n - done);
        if (r <= 0) {
            return done ? (ssize_t)done : r;
        }
        done += r;
    }
    return n;
}
ssize_t pwrite(int fd, const void* buf, size_t n, off_t off)
{
    if (fd < 0 || fd >= 4096 || g_fd[fd].empty()) {
        return syscall(SYS_pwrite64, fd, buf, n, off);
    }
    Lock l(g_mx);
    kill_point("before pwrite to " + g_fd[fd]);
    if (g_record && n > 1) {
        syscall(SYS_pwrite64, fd, buf, n / 2, off);
        kill_point("within pwrite to " + g_fd[fd]);
    }
    return syscall(SYS_pwrite64, fd, buf, n, off);
}
int ftruncate(int fd, off_t len)
{
    if (fd < 0 || fd >= 4096 || g_fd[fd].empty()) {
        return syscall(SYS_ftruncate, fd, len);
    }
    Lock l(g_mx);
    kill_point("before ftruncate of " + g_fd[fd]);
    return syscall(SYS_ftruncate, fd, len);
}
int unlink(const char* p)
{
    std::string n;
    Lock        l(g_mx);
    if (watched(p, n)) {
        kill_point("before unlink of " + n);
    }
    return syscall(SYS_unlink, p);
}
int rename(const char* a, const char* b)
{
    std::string n;
    Lock        l(g_mx);
    if (watched(b, n)) {
        kill_point("before rename to " + n);
    }
    return syscall(SYS_rename, a, b);
}
int link(const char* a, const char* b)
{
    std::string n;
    Lock        l(g_mx);
    if (watched(b, n)) {
        kill_point("before link to " + n);
    }
    return syscall(SYS_link, a, b);
}
int mkdir(const char* p, mode_t m)
{
    std::string n;
    Lock        l(g_mx);
    if (watched(p, n)) {
        kill_point("before mkdir " + n);
    }
    return syscall(SYS_mkdir, p, m);
}
}

namespace {
// ---- the three stores -------------------------------------------------------
template<typename V>
V val(int i)
{
    V v;
    v.fill((uint8_t)(i + 1));
    return v;
}
struct KV // small values
{
    using V     = std::array<uint8_t, 8>;
    using Model = std::map<int, int>;
    static constexpr int kUpdates = 3;
    sse::sophos::RockDBWrapper db;
    explicit KV(const std::string& d) : db(d)
    {
    }
    static std::array<uint8_t, 16> key(int k)
    {
        std::array<uint8_t, 16> a{};
        a[3]  = 1;
        a[15] = k;
        return a;
    }
    bool update(int op, int i, Model& m)
    {
        bool ok;
        if (op < 2) {
            ok = db.put(key(op), val<V>(i));
            if (ok)
                m[op] = i;
        } else {
            ok = db.remove(key(0));
            if (ok)
                m.erase(0);
        }
        return ok;
    }
    bool read(Model& m)
    {
        for (int k = 0; k < 2; k++) {
            V v;
            if (db.get(key(k), v)) {
                m[k] = (int)v[0] - 1;
                for (auto b : v)
                    if (b != v[0])
                        return false;
            }
        }
        return true;
    }
    void flush()
    {
        db.flush(true);
    }
};
struct BigKV // values that span several blocks of the log
{
    using V     = std::array<uint8_t, 40000>;
    using Model = std::map<int, int>;
    static constexpr int kUpdates = 2;
    sse::sophos::RockDBWrapper db;
    explicit BigKV(const std::string& d) : db(d)
    {
    }
    bool update(int op, int i, Model& m)
    {
        auto v  = std::make_unique<V>(val<V>(i));
        bool ok = db.put(KV::key(op), *v);
        if (ok)
            m[op] = i;
        return ok;
    }
    bool read(Model& m)
    {
        auto v = std::make_unique<V>();
        for (int k = 0; k < 2; k++) {
            if (db.get(KV::key(k), *v)) {
                m[k] = (int)(*v)[0] - 1;
                for (auto b : *v)
                    if (b != (*v)[0])
                        return false;
            }
        }
        return true;
    }
    void flush()
    {
        db.flush(true);
    }
};
struct Counter
{
    using Model = std::map<int, int>;
    static constexpr int kUpdates = 4;
    sse::sophos::RocksDBCounter db;
    explicit Counter(const std::string& d) : db(d)
    {
    }
    bool update(int op, int i, Model& m)
    {
        uint32_t v;
        bool     ok = false;
        auto     it = m.find(op == 1);
        int      nx = it == m.end() ? 0 : it->second + 1;
        switch (op) {
        case 0:
            ok = db.increment("a");
            break;
        case 1:
            ok = db.get_and_increment("b", v);
            break;
        case 2:
            ok = db.remove_key("a");
            break;
        case 3:
            nx = 100 + i;
            ok = db.set("a", nx);
            break;
        }
        if (ok && op == 2) {
            m.erase(0);
        } else if (ok) {
            m[op == 1] = nx;
        }
        return ok;
    }
    bool read(Model& m)
    {
        uint32_t v;
        if (db.get("a", v))
            m[0] = v;
        if (db.get("b", v))
            m[1] = v;
        return true;
    }
    void flush()
    {
        db.flush(true);
    }
};
} // namespace
namespace sse { namespace sophos {
template<>
struct serialization<uint64_t>
{
    std::string serialize(const uint64_t& x)
    {
        return std::string((const char*)&x, 8);
    }
    bool deserialize(std::string::iterator& it, const std::string::iterator& end, uint64_t& out)
    {
        if (end - it < 8) {
            return false;
        }
        std::copy(it, it + 8, (char*)&out);
        it += 8;
        return true;
    }
};
}} // namespace sse::sophos
namespace {
struct Lists
{
    using Model = std::map<int, int>;
    static constexpr int kUpdates = 2;
    sse::sophos::RockDBListStore<uint64_t> db;
    explicit Lists(const std::string& d) : db(d)
    {
    }
    static std::list<uint64_t> list(int i)
    {
        return std::list<uint64_t>(1 + i % 3, i);
    }
    bool update(int op, int i, Model& m)
    {
        bool ok = db.put(KV::key(op), list(i));
        if (ok)
            m[op] = i;
        return ok;
    }
    bool read(Model& m)
    {
        for (int k = 0; k < 2; k++) {
            std::list<uint64_t> l;
            if (db.get(KV::key(k), l)) {
                if (l.empty() || l != list(l.front())) {
                    return false;
                }
                m[k] = l.front();
            }
        }
        return true;
    }
    void flush()
    {
        db.flush(true);
    }
};

std::string show(const std::map<int, int>& m)
{
    std::string o = "{";
    for (auto& x : m)
        o += " " + s(x.first) + ":" + s(x.second);
    return o + " }";
}

template<class St>
struct Run
{
    using Model = typename St::Model;
    std::vector<Model> after; // model after i updates
    std::string        tr;

    // open what the kill left and compare; `deep`: also kill the recovery
    void verify(const Snapshot& sn, int deep)
    {
        std::string dir = mc::scratch() + "/recover";
        restore(sn.img, dir);
        std::string at = " after a kill " + sn.where + " [" + tr + "]";
        std::vector<Snapshot> inner;
        std::set<size_t>      seen;
        if (deep) {
            std::swap(inner, g_snaps);
            std::swap(seen, g_seen);
            g_dir     = dir;
            g_acked   = sn.acked;
            g_started = sn.started;
            g_record  = true;
        }
        std::unique_ptr<St> db;
        std::string         err;
        try {
            db = std::make_unique<St>(dir);
        } catch (std::exception& e) {
            err = e.what();
        }
        if (deep) {
            Lock l(g_mx);
            g_record = false;
            g_dir.clear();
            std::swap(inner, g_snaps);
            std::swap(seen, g_seen);
        }
        MC_CHECK(db != nullptr, "the store does not reopen" + at);
        Model got;
        bool  sane = db->read(got);
        bool  ok   = sane;
        if (ok) {
            ok = false;
            for (int j = sn.acked; j <= sn.started; j++) {
                ok = ok || after[j] == got;
            }
        }
        MC_CHECK(sane, "the reopened store holds a value that was never written" + at);
        MC_CHECK(ok, "the reopened store holds " + show(got) + " instead of " + show(after[sn.acked])
                         + (sn.started > sn.acked ? " or " + show(after[sn.started]) : std::string()) + at);
        mc::validated();
        mc::count("kill_states_checked");
        // the recovered store works and keeps what it showed
        Model cont = got;
        MC_CHECK(db->update(1, 77, cont), "an update of the reopened store fails" + at);
        db.reset();
        Model again;
        db = std::make_unique<St>(dir);
        MC_CHECK(db->read(again) && again == cont,
                 "the reopened store, updated and reopened, holds " + show(again) + " instead of " + show(cont) + at);
        db.reset();
        wipe(dir);
        for (auto& i : inner) {
            i.where = sn.where + " and a second kill during recovery, " + i.where;
            verify(i, deep - 1);
        }
    }

    void history(int depth, int deep)
    {
        int gen = 0;
        // a fresh directory name per generation: a killed process keeps its files
        auto name = [&] { return mc::scratch() + "/db" + s(gen); };
        wipe(name());
        g_snaps.clear();
        g_seen.clear();
        g_acked = g_started = 0;
        after.assign(1, Model());
        std::unique_ptr<St>              db;
        std::vector<std::unique_ptr<St>> dead;
        const int ups = mc::thorough() ? St::kUpdates : std::min(St::kUpdates, 3);
        const int ops = ups + 3;
        auto open = [&](bool record) {
            {
                Lock l(g_mx);
                g_dir    = name();
                g_record = record;
            }
            db = std::make_unique<St>(name());
        };
        tr = "open";
        open(depth == 0);
        for (int i = 0; i < depth; i++) {
            int op = mc::choose(ops, "op");
            mc::transitions();
            {
                Lock l(g_mx);
                g_record = i + 1 == depth; // shorter histories were explored on their own
            }
            if (op < ups) {
                tr += " update" + s(op);
                Model m = after.back();
                // what the update will do, before it starts
                Model next = m;
                predict(op, i, next);
                after.push_back(next);
                g_started = after.size() - 1;
                bool ok   = db->update(op, i, m);
                MC_CHECK(ok, "an update fails for no reason [" + tr + "]");
                g_acked = after.size() - 1;
            } else if (op == ups) {
                tr += " flush";
                db->flush();
            } else if (op == ups + 1) {
                tr += " reopen";
                db.reset();
                open(i + 1 == depth);
            } else {
                tr += " kill";
                Image img;
                {
                    Lock l(g_mx);
                    img = capture(g_dir);
                    g_dir.clear();
                }
                dead.push_back(std::move(db));
                gen++;
                restore(img, name());
                open(i + 1 == depth);
            }
        }
        {
            Lock l(g_mx);
            kill_point("at the end");
            g_record = false;
            g_dir.clear();
        }
        mc::count("kill_points", g_points);
        g_points = 0;
        Model got;
        MC_CHECK(db->read(got) && got == after.back(),
                 "the store holds " + show(got) + " instead of " + show(after.back()) + " [" + tr + "]");
        db.reset();
        dead.clear();
        for (; gen >= 0; gen--) {
            wipe(name());
        }
        std::vector<Snapshot> snaps;
        snaps.swap(g_snaps);
        // one execution per slice of the kill points, to share the work
        int slices = deep ? 16 : 1, slice = mc::choose(slices, "slice");
        for (size_t i = slice; i < snaps.size(); i += slices) {
            Snapshot& sn = snaps[i];
            verify(sn, deep);
            mc::state(sn.where + show(after[sn.acked]) + s(sn.started - sn.acked));
        }
        mc::outcome(s(snaps.size()) + show(after.back()));
    }
    static void predict(int op, int i, Model& m);
};
template<>
void Run<KV>::predict(int op, int i, Model& m)
{
    if (op < 2)
        m[op] = i;
    else
        m.erase(0);
}
template<>
void Run<BigKV>::predict(int op, int i, Model& m)
{
    m[op] = i;
}
template<>
void Run<Lists>::predict(int op, int i, Model& m)
{
    m[op] = i;
}
template<>
void Run<Counter>::predict(int op, int i, Model& m)
{
    int k = op == 1;
    if (op == 2)
        m.erase(0);
    else if (op == 3)
        m[0] = 100 + i;
    else
        m[k] = m.count(k) ? m[k] + 1 : 0;
}
template<class St>
void all(const std::string& name, int depth, int deep_depth)
{
    for (int d = 0; d <= depth; d++) {
        mc::Config c;
        c.shards      = d <= deep_depth ? 16 : d < 2 ? 1 : 24;
        c.shard_depth = d <= deep_depth ? d + 1 : 2;
        c.exec_timeout = 300;
        mc::add(name + ", " + s(d) + " operations", c, [d, deep_depth] {
            g_every_byte = mc::thorough() && d <= 3;
            Run<St>().history(d, d <= deep_depth ? 1 : 0);
        });
    }
}
} // namespace

void mc_register()
{
    if (!getenv("MC_LOG"))
        sse::logger::set_logger(nullptr);
    int q = mc::tier_pick(0, 1);
    all<KV>("key-value store", 3 + q, 1);
    all<Counter>("counters", 3 + q, q ? 1 : -1);
    all<Lists>("list store", 2 + 2 * q, q ? 1 : -1);
    all<BigKV>("key-value store, large values", 2 + q, q ? 0 : -1);
}
