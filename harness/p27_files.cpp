// P27: directory removal deletes the given tree and nothing outside it; the
// existence, creation and removal helpers report what is on the file system.
//
// Containment: every execution is a process of an unprivileged user that owns
// nothing but its scratch directory, and the destructive library calls are
// replaced by stand-ins which refuse (and report) any target outside of it.
#include "mc.h"
#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/utils.hpp>

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <map>
#include <set>

namespace {
std::string g_base; // real path of the scratch directory, empty: no guard
}

// ---- stand-ins of the destructive calls -----------------------------------
namespace {
std::string real(const std::string& p)
{
    char b[PATH_MAX];
    return ::realpath(p.c_str(), b) ? b : "";
}
void guard(int dirfd, const char* path, const char* what)
{
    if (g_base.empty() || !path || !*path) {
        return;
    }
    std::string p = path ? path : "";
    if (p.empty() || p[0] != '/') {
        std::string d;
        if (dirfd == AT_FDCWD) {
            char b[PATH_MAX];
            d = ::getcwd(b, sizeof b) ? b : "/";
        } else {
            d = real("/proc/self/fd/" + std::to_string(dirfd));
        }
        p = d + "/" + p;
    }
    while (p.size() > 1 && p.back() == '/')
        p.pop_back();
    size_t      sl     = p.rfind('/');
    std::string parent = real(sl == 0 ? "/" : p.substr(0, sl));
    std::string last   = p.substr(sl + 1);
    if (parent.empty()) {
        return; // fails anyway
    }
    std::string t = parent + "/" + last;
    if (last == "." || last == "..") {
        t = real(p);
    }
    if (t.compare(0, g_base.size() + 1, g_base + "/") != 0) {
        g_base.clear();
        mc::violation(std::string(what) + " of " + t + ", outside of the tree");
    }
}
} // namespace
extern "C" {
int unlinkat(int fd, const char* p, int flags) __THROW
{
    struct stat sb;
    // (unlinking a directory always fails)
    if ((flags & AT_REMOVEDIR) || fstatat(fd, p, &sb, AT_SYMLINK_NOFOLLOW) != 0 || !S_ISDIR(sb.st_mode)) {
        guard(fd, p, "removal");
    }
    return syscall(SYS_unlinkat, fd, p, flags);
}
int unlink(const char* p) __THROW
{
    return unlinkat(AT_FDCWD, p, 0);
}
int rmdir(const char* p) __THROW
{
    return unlinkat(AT_FDCWD, p, AT_REMOVEDIR);
}
int remove(const char* p) __THROW
{
    if (unlink(p) == 0) {
        return 0;
    }
    if (errno == EISDIR || errno == EPERM) {
        return rmdir(p);
    }
    return -1;
}
int rename(const char* a, const char* b) __THROW
{
    guard(AT_FDCWD, a, "renaming");
    guard(AT_FDCWD, b, "renaming");
    return syscall(SYS_rename, a, b);
}
int truncate(const char* a, off_t n) __THROW
{
    guard(AT_FDCWD, a, "truncation");
    return syscall(SYS_truncate, a, n);
}
int chmod(const char* a, mode_t m) __THROW
{
    guard(AT_FDCWD, a, "mode change");
    return syscall(SYS_chmod, a, m);
}
}

namespace {
using namespace sse::utility;
using Snap = std::map<std::string, std::string>;

std::string num(uint64_t x)
{
    return std::to_string(x);
}

// everything below `dir`, without following links
void snap(const std::string& dir, const std::string& rel, Snap& o)
{
    DIR* d = opendir(dir.c_str());
    if (!d) {
        return;
    }
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") {
            continue;
        }
        std::string p = dir + "/" + n, r = rel.empty() ? n : rel + "/" + n;
        struct stat sb;
        if (lstat(p.c_str(), &sb) != 0) {
            continue;
        }
        char desc[64];
        snprintf(desc, sizeof desc, "%o ", (unsigned)sb.st_mode);
        std::string v = desc;
        if (S_ISLNK(sb.st_mode)) {
            char b[PATH_MAX];
            ssize_t k = readlink(p.c_str(), b, sizeof b);
            v += std::string(b, k > 0 ? k : 0);
        } else if (S_ISREG(sb.st_mode)) {
            v += num(sb.st_size) + " ";
            int fd = open(p.c_str(), O_RDONLY | O_NOFOLLOW);
            if (fd >= 0) {
                char    b[256];
                ssize_t k = read(fd, b, sizeof b);
                v += std::string(b, k > 0 ? k : 0);
                close(fd);
            }
        }
        o[r] = v;
        if (S_ISDIR(sb.st_mode)) {
            snap(p, r, o);
        }
    }
    closedir(d);
}
Snap snap(const std::string& dir)
{
    Snap s;
    snap(dir, "", s);
    return s;
}
std::string diff(const Snap& a, const Snap& b)
{
    std::string o;
    for (auto& x : a) {
        auto i = b.find(x.first);
        if (i == b.end()) {
            o += " missing:" + x.first;
        } else if (i->second != x.second) {
            o += " changed:" + x.first;
        }
    }
    for (auto& x : b) {
        if (!a.count(x.first)) {
            o += " appeared:" + x.first;
        }
    }
    return o;
}
// what is left when the tree at `t` is gone
Snap without(const Snap& s, const std::string& t)
{
    Snap o;
    for (auto& x : s) {
        if (x.first != t && x.first.compare(0, t.size() + 1, t + "/") != 0) {
            o.insert(x);
        }
    }
    return o;
}

void file(const std::string& p, const std::string& c = "x", mode_t m = 0644)
{
    int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_EXCL, m);
    if (fd < 0) {
        return;
    }
    (void)!write(fd, c.data(), c.size());
    close(fd);
}
void dir(const std::string& p)
{
    (void)!mkdir(p.c_str(), 0755);
}
void sym(const std::string& to, const std::string& p)
{
    (void)!symlink(to.c_str(), p.c_str());
}

// forget what previous executions left (native calls, scratch only)
void clean(const std::string& d)
{
    DIR* h = opendir(d.c_str());
    if (!h) {
        return;
    }
    std::vector<std::string> names;
    while (dirent* e = readdir(h)) {
        std::string n = e->d_name;
        if (n != "." && n != "..")
            names.push_back(n);
    }
    closedir(h);
    for (auto& n : names) {
        std::string p = d + "/" + n;
        struct stat sb;
        if (lstat(p.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) {
            syscall(SYS_chmod, p.c_str(), 0700);
            clean(p);
            syscall(SYS_rmdir, p.c_str());
        } else {
            syscall(SYS_unlink, p.c_str());
        }
    }
}

// a fresh work directory, owned by the unprivileged user this process becomes
std::string enter()
{
    g_base.clear();
    umask(022);
    std::string b = real(mc::scratch());
    std::string w = b + "/W";
    clean(b);
    if (mkdir(w.c_str(), 0755) != 0) {
        mc::violation("harness: cannot create " + w);
    }
    if (geteuid() == 0) {
        // so that the other user can reach the scratch directory
        for (std::string p = b; p.size() > 1 && p != "/tmp" && p != "/dev/shm"; p = p.substr(0, p.rfind('/'))) {
            struct stat sb;
            if (stat(p.c_str(), &sb) == 0 && sb.st_uid == 0 && (sb.st_mode & 07777) == 0700) {
                (void)!syscall(SYS_chmod, p.c_str(), 0711);
            }
        }
        (void)!chown(w.c_str(), 65534, 65534);
        (void)!setgroups(0, nullptr);
        (void)!setresgid(65534, 65534, 65534);
        (void)!setresuid(65534, 65534, 65534);
    }
    if (chdir(w.c_str()) != 0) {
        mc::violation("harness: cannot enter " + w);
    }
    g_base = w;
    return w;
}
std::string outside_area(const std::string& w)
{
    dir(w + "/out");
    file(w + "/out/file", "precious");
    dir(w + "/out/dir");
    file(w + "/out/dir/inner", "precious too");
    dir(w + "/out/empty");
    // names close to that of the tree
    dir(w + "/root2");
    file(w + "/root2/f");
    file(w + "/roo");
    dir(w + "/root.bak");
    file(w + "/rooty");
    return w + "/out";
}

const char* kinds[] = {"-", "file", "file0", "dir", "dir{f}", "dir{dir{f,>}}", "dir{>dir,>file}", ">file", ">dir", ">dir/", ">dangling",
                       ">sibling", ">..", ">.", "fifo", "hidden", "odd", "hardlink", ">self", "long", ">/", "dir{>..}"};
constexpr int kKinds = sizeof(kinds) / sizeof(*kinds);

void make(const std::string& root, int i, int kind, const std::string& out)
{
    std::string n = "e" + num(i);
    if (kind == 15) {
        n = "." + n;
    } else if (kind == 16) {
        n = i == 0 ? "a b\n*" : i == 1 ? "...": "-rf";
    } else if (kind == 19) {
        n = std::string(254, 'n') + num(i);
    }
    std::string p = root + "/" + n;
    switch (kind) {
    case 0: return;
    case 1: file(p); return;
    case 2: file(p, "", 0000); return;
    case 3: dir(p); return;
    case 4: dir(p); file(p + "/f"); return;
    case 5: dir(p); dir(p + "/d"); file(p + "/d/f"); sym(out + "/dir", p + "/d/l"); file(p + "/z"); return;
    case 6: dir(p); sym(out + "/dir", p + "/l"); sym("../../out/file", p + "/m"); return;
    case 7: sym(out + "/file", p); return;
    case 8: sym("../out/dir", p); return;
    case 9: sym(out + "/dir/", p); return;
    case 10: sym(out + "/none", p); return;
    case 11: sym("e" + num((i + 1) % 3), p); return;
    case 12: sym("..", p); return;
    case 13: sym(".", p); return;
    case 14: (void)!mkfifo(p.c_str(), 0644); return;
    case 15: file(p); return;
    case 16: file(p); return;
    case 17: (void)!link((out + "/file").c_str(), p.c_str()); return;
    case 18: sym(n, p); return;
    case 19: file(p); return;
    case 20: sym(mc::scratch() + "/W", p); return; // the whole work area
    case 21: dir(p); sym("../..", p + "/l"); return;
    }
}

// how the tree is named in the call
const char* forms[] = {"absolute", "absolute/", "relative", "./relative", "relative//", "via ..", "via link", "inside"};
std::string form(int f, const std::string& w)
{
    switch (f) {
    case 0: return w + "/root";
    case 1: return w + "/root/";
    case 2: return "root";
    case 3: return "./root";
    case 4: return "root//";
    case 5: return "out/../root";
    case 6: sym(".", w + "/lnk"); return "lnk/root";
    default: (void)!chdir((w + "/root").c_str()); return w + "/root";
    }
}

void remove_and_check(const std::string& w, const std::string& arg, const std::string& target, const std::string& what)
{
    Snap before = snap(w);
    char c0[PATH_MAX], c1[PATH_MAX];
    bool in = ::getcwd(c0, sizeof c0) && std::string(c0) == w;
    bool ret = false;
    std::string ex;
    try {
        ret = remove_directory(arg);
    } catch (const std::exception& e) {
        ex = e.what();
    }
    Snap after = snap(w);
    Snap want  = without(before, target);
    std::string d = diff(want, after);
    mc::transitions();
    mc::validated();
    MC_CHECK(ex.empty(), "removing " + what + " throws: " + ex);
    MC_CHECK(d.empty(), "after removing " + what + ":" + d);
    MC_CHECK(ret, "removing " + what + " returns false");
    if (in) {
        MC_CHECK(::getcwd(c1, sizeof c1) && std::string(c0) == c1, "removing " + what + " changes the working directory");
    }
}

// every tree of at most `n` top-level entries, under every name of the tree
void trees(int n, bool all_forms)
{
    int k[3] = {0, 0, 0};
    for (int i = 0; i < n; i++)
        k[i] = mc::choose(kKinds, "entry");
    std::string d;
    for (int i = 0; i < n; i++)
        d += std::string(i ? ", " : "") + kinds[k[i]];
    mc::state(d);
    std::string w   = enter();
    std::string out = outside_area(w);
    int         nf  = all_forms ? 8 : 2;
    for (int f = 0; f < nf; f++) {
        dir(w + "/root");
        for (int i = 0; i < n; i++)
            make(w + "/root", i, k[i], out);
        std::string a = form(all_forms ? f : 2 * f, w);
        std::string what = "{" + d + "} (" + forms[all_forms ? f : 2 * f] + ")";
        remove_and_check(w, a, "root", what);
        (void)!chdir(w.c_str());
        // once more: it is missing now
        remove_and_check(w, w + "/root", "root", "the missing directory");
    }
    mc::outcome("removed");
}

void deep()
{
    int         shape = mc::choose(6, "shape");
    std::string w     = enter();
    std::string out   = outside_area(w);
    std::string r     = w + "/root";
    dir(r);
    std::string what;
    if (shape < 3) {
        int         depth = shape == 0 ? 10 : shape == 1 ? 60 : 200;
        std::string p     = r;
        for (int i = 0; i < depth; i++) {
            p += "/d";
            dir(p);
            file(p + "/f");
            sym(out + "/dir", p + "/l");
            dir(p + "/z");
        }
        what = "a chain of " + num(depth) + " directories";
    } else {
        int n = shape == 3 ? 64 : shape == 4 ? 300 : 3000;
        for (int i = 0; i < n; i++) {
            if (i % 3 == 0)
                file(r + "/f" + num(i));
            else if (i % 3 == 1)
                sym(out + "/dir", r + "/f" + num(i));
            else {
                dir(r + "/f" + num(i));
                file(r + "/f" + num(i) + "/x");
            }
        }
        what = num(n) + " entries";
    }
    remove_and_check(w, r, "root", what);
}

// trees of nested directories with a link at every place
void nested(int max_nodes)
{
    // a tree as a parent vector; each node is a directory, its last child slot
    // holds one of the entry kinds
    std::string w   = enter();
    std::string out = outside_area(w);
    dir(w + "/root");
    std::vector<std::string> dirs{w + "/root"};
    std::string d;
    int         n = mc::choose(max_nodes, "nodes") + 1;
    static const int leaf[] = {0, 1, 7, 8, 12, 3, 10};
    for (int i = 0; i < n; i++) {
        int p = mc::choose((int)dirs.size(), "parent");
        int l = leaf[mc::choose(7, "leaf")];
        std::string q = dirs[p] + "/n" + num(i);
        dir(q);
        make(q, 0, l, out);
        dirs.push_back(q);
        d += " " + num(p) + ":" + kinds[l];
    }
    mc::state(d);
    remove_and_check(w, w + "/root", "root", "the tree" + d);
}

// a link given as the directory: what it points to must survive
void link_root()
{
    int         k   = mc::choose(5, "target");
    std::string w   = enter();
    std::string out = outside_area(w);
    const char* t[] = {"out/dir", "out/empty", "out/none", "out/file", "."};
    sym(t[k], w + "/l");
    Snap before = without(snap(w), "l");
    try {
        remove_directory(mc::flip("relative") ? "l" : w + "/l");
    } catch (const std::exception&) {
    }
    std::string d = diff(before, without(snap(w), "l"));
    mc::validated();
    MC_CHECK(d.empty(), std::string("after removing a link to ") + t[k] + ":" + d);
}

void missing()
{
    std::string w = enter();
    outside_area(w);
    std::string paths[] = {w + "/none", "none", "none/", "none/deeper/still", "roo/x", w + "/out/dir/none", "./none"};
    std::string p       = paths[mc::choose(7, "path")];
    Snap        before  = snap(w);
    bool        r       = false;
    try {
        r = remove_directory(p);
    } catch (const std::exception& e) {
        mc::violation("removing the missing " + p + " throws: " + e.what());
    }
    mc::validated();
    MC_CHECK(r, "removing the missing " + p + " returns false");
    std::string d = diff(before, snap(w));
    MC_CHECK(d.empty(), "removing the missing " + p + " has an effect:" + d);
}

// ---- the other helpers -----------------------------------------------------
bool st(const std::string& p, struct stat& sb)
{
    return stat(p.c_str(), &sb) == 0;
}
void query(const std::string& p)
{
    struct stat sb, lb;
    bool        ok  = st(p, sb);
    bool        lok = lstat(p.c_str(), &lb) == 0;
    mc::validated(3);
    MC_CHECK(is_file(p) == (ok && S_ISREG(sb.st_mode)), "is_file(" + p + ") is " + num(is_file(p)));
    MC_CHECK(is_directory(p) == (ok && S_ISDIR(sb.st_mode)), "is_directory(" + p + ") is " + num(is_directory(p)));
    if (ok == lok) { // a dangling link may count as existing or not
        MC_CHECK(exists(p) == ok, "exists(" + p + ") is " + num(exists(p)));
    }
}
// real location of the entry named by p, relative to w ("" if its directory does not exist)
std::string locate(const std::string& w, std::string p)
{
    while (p.size() > 1 && p.back() == '/')
        p.pop_back();
    size_t      sl = p.rfind('/');
    std::string d  = sl == std::string::npos ? w : real(p.substr(0, sl));
    struct stat sb;
    if (d.empty() || !st(d, sb) || !S_ISDIR(sb.st_mode) || (d != w && d.compare(0, w.size() + 1, w + "/") != 0)) {
        return "";
    }
    std::string f = d + "/" + (sl == std::string::npos ? p : p.substr(sl + 1));
    return f.substr(w.size() + 1);
}

void do_create(const std::string& w, const std::string& p, mode_t mode, mode_t um)
{
    struct stat lb;
    Snap        before = snap(w);
    std::string loc    = locate(w, p);
    bool        can    = !loc.empty() && lstat(p.c_str(), &lb) != 0;
    umask(um);
    bool r = create_directory(p, mode);
    umask(022);
    Snap want = before;
    if (can) {
        char b[32];
        snprintf(b, sizeof b, "%o ", (unsigned)(S_IFDIR | (mode & ~um)));
        want[loc] = b;
    }
    std::string d = diff(want, snap(w));
    mc::validated();
    mc::transitions();
    MC_CHECK(r == can, "create_directory(" + p + ") returns " + num(r));
    MC_CHECK(d.empty(), "after create_directory(" + p + "):" + d);
}
void do_remove_file(const std::string& w, const std::string& p)
{
    struct stat lb;
    Snap        before = snap(w);
    bool        can    = lstat(p.c_str(), &lb) == 0 && !S_ISDIR(lb.st_mode);
    std::string loc    = can ? locate(w, p) : "";
    bool        r      = remove_file(p);
    Snap        want   = can ? without(before, loc) : before;
    std::string d      = diff(want, snap(w));
    mc::validated();
    mc::transitions();
    MC_CHECK(r == can, "remove_file(" + p + ") returns " + num(r));
    MC_CHECK(d.empty(), "after remove_file(" + p + "):" + d);
}
void do_remove_dir(const std::string& w, const std::string& p)
{
    struct stat lb;
    bool        lok = lstat(p.c_str(), &lb) == 0;
    if (lok && !S_ISDIR(lb.st_mode)) {
        return; // only directories are promised
    }
    remove_and_check(w, p, lok ? locate(w, p) : std::string("?"), p);
}

void single()
{
    std::string w = enter();
    outside_area(w);
    sym("out/file", w + "/lf");
    sym("out/dir", w + "/ld");
    sym("none", w + "/dg");
    sym("loop", w + "/loop");
    (void)!mkfifo((w + "/ff").c_str(), 0644);
    file(w + "/secret", "s", 0000);
    file(w + "/empty", "");
    dir(w + "/closed");
    file(w + "/closed/in");
    std::string paths[] = {"out/file", "empty", "secret", "out", "out/", "lf", "ld", "ld/", "ld/inner", "dg", "loop", "ff", "none", "none/x",
                           "roo/x", "", ".", "out/.", w, w + "/out/dir/inner", std::string(256, 'x'), "new", "new/", "ld/new", "dg/new", "lf/new",
                           "out/../new2", "closed"};
    std::string p = paths[mc::choose(sizeof(paths) / sizeof(*paths), "path")];
    int         op = mc::choose(14, "operation");
    if (op == 0) {
        query(p);
        mc::transitions();
    } else if (op == 1) {
        std::string last = p.substr(p.rfind('/') == std::string::npos ? 0 : p.rfind('/') + 1);
        if (last != "." && !(p.size() && p.back() == '/')) {
            do_remove_file(w, p);
        }
    } else {
        static const mode_t modes[] = {0700, 0755, 0777, 0500}, ums[] = {0, 022, 077};
        mode_t m = modes[(op - 2) / 3], u = ums[(op - 2) % 3];
        if (!p.empty() && p.back() != '/' && p != w && p.size() < 256) {
            do_create(w, p, m, u);
        }
    }
    query(p);
    mc::outcome(num(op));
}

// every sequence of operations on four names
void sequences(int depth)
{
    std::string w = enter();
    const char* names[] = {"a", "b", "a/c", "b/c"};
    std::string h;
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(4 * 4 + 3, "operation");
        if (op < 16) {
            std::string p = names[op / 4];
            switch (op % 4) {
            case 0: do_create(w, p, 0755, 022); h += " mkdir:" + p; break;
            case 1: file(w + "/" + p); h += " write:" + p; break;
            case 2: do_remove_file(w, p); h += " rmfile:" + p; break;
            default: do_remove_dir(w, p); h += " rmdir:" + p; break;
            }
        } else if (op == 16) {
            sym("a", w + "/b");
            h += " b>a";
        } else if (op == 17) {
            sym("../b", w + "/a/c");
            h += " a/c>b";
        } else {
            sym("../a", w + "/b/c");
            h += " b/c>a";
        }
        mc::note(h);
        for (auto n : names) {
            query(n);
        }
        Snap s = snap(w);
        std::string t;
        for (auto& x : s)
            t += x.first + "=" + x.second + ";";
        mc::state(t);
    }
}
} // namespace

void mc_register()
{
    if (!getenv("MC_LOG"))
        sse::logger::set_logger(nullptr);
    // the directory order of a file system is arbitrary: enumerate in the order
    // of creation
    mc::Config c;
    c.forked      = true;
    c.shards      = 8;
    c.shard_depth = 1;
    c.exec_timeout = 60;
    mc::Config one = c;
    one.shards     = 1;
    mc::add("trees of 2 entries, every name of the directory", c, [] { trees(2, true); });
    mc::add("trees of 3 entries", c, [] { trees(3, false); });
    mc::add("nested directories", c, [] { nested(mc::tier_pick(2, 3)); });
    mc::add("large trees", one, [] { deep(); });
    mc::add("a link as the directory", one, [] { link_root(); });
    mc::add("missing directories", one, [] { missing(); });
    mc::add("helpers, one call", c, [] { single(); });
    c.shard_depth = 2;
    mc::add("helpers, sequences", c, [] { sequences(mc::tier_pick(3, 4)); });
}
