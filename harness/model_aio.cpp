#include "model_aio.h"
#include "mc.h"
#include "mcaccess.h"

#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <libaio.h>
#include <map>
#include <set>
#include <sys/syscall.h>
#include <unistd.h>

namespace kaio {
namespace {
Options              opt;
int                  faults_left = 0;
std::vector<Request> reqs;
uint64_t             n_eagain = 0;
struct Ctx
{
    bool             alive = true;
    std::vector<int> pending; // accepted, not delivered
};
std::map<io_context_t, Ctx>* ctxs = nullptr;
uintptr_t                    next_ctx = 0x1000;
std::map<int, bool>          fds; // fd -> O_DIRECT

bool take_fault(bool enabled, const char* tag)
{
    if (!enabled || faults_left <= 0) {
        return false;
    }
    if (mc::choose(2, tag) == 1) {
        faults_left--;
        return true;
    }
    return false;
}

Ctx& ctx(io_context_t c, const char* what)
{
    auto it = ctxs->find(c);
    if (it == ctxs->end()) {
        mc::violation(std::string(what) + " on an unknown AIO context");
    }
    if (!it->second.alive) {
        mc::violation(std::string(what) + " on a destroyed AIO context");
    }
    return it->second;
}

void perform(Request& r)
{
    if (take_fault(opt.io_error, "io-error")) {
        int k = mc::choose(2, "io-error-kind");
        if (k == 0) {
            r.result = -EIO;
            r.done   = true;
            return;
        }
        // short transfer
        size_t half = r.len / 2;
        mc::access(r.buf, half, !r.write);
        r.result = r.write ? syscall(SYS_pwrite64, r.fd, r.buf, half, r.off)
                           : syscall(SYS_pread64, r.fd, r.buf, half, r.off);
        r.done = true;
        return;
    }
    mc::access(r.buf, r.len, !r.write);
    r.result = r.write ? syscall(SYS_pwrite64, r.fd, r.buf, r.len, r.off)
                       : syscall(SYS_pread64, r.fd, r.buf, r.len, r.off);
    if (r.result < 0) {
        r.result = -errno;
    }
    r.done = true;
}
} // namespace

void reset(const Options& o)
{
    opt         = o;
    faults_left = o.faults;
    reqs.clear();
    reqs.reserve(256);
    if (!ctxs) {
        ctxs = new std::map<io_context_t, Ctx>();
    }
    ctxs->clear();
    next_ctx = 0x1000;
    n_eagain = 0;
}
void change(const Options& o)
{
    opt         = o;
    faults_left = o.faults;
}
const std::vector<Request>& log()
{
    return reqs;
}
int contexts_alive()
{
    int n = 0;
    for (auto& c : *ctxs) {
        n += c.second.alive;
    }
    return n;
}
uint64_t eagains()
{
    return n_eagain;
}
void fd_reset()
{
    for (auto& f : fds) {
        syscall(SYS_close, f.first);
    }
    fds.clear();
}
int open_fds()
{
    return static_cast<int>(fds.size());
}
} // namespace kaio

using namespace kaio;

extern "C" {

int io_setup(int n, io_context_t* c)
{
    mc::Unmanaged u;
    if (n <= 0) {
        return -EINVAL;
    }
    if (*c != nullptr) {
        return -EINVAL;
    }
    *c          = reinterpret_cast<io_context_t>(next_ctx += 0x10);
    (*ctxs)[*c] = Ctx();
    return 0;
}
int io_destroy(io_context_t c)
{
    mc::Unmanaged u;
    Ctx& x = ctx(c, "io_destroy");
    x.alive = false;
    return 0;
}
int io_submit(io_context_t c, long n, struct iocb* ios[])
{
    mc::sched_point("io_submit");
    int ret;
    {
        mc::Unmanaged u;
        Ctx& x = ctx(c, "io_submit");
        if (n < 0) {
            return -EINVAL;
        }
        if (n == 0) {
            return 0;
        }
        long free_slots = opt.capacity - static_cast<long>(x.pending.size());
        if (free_slots <= 0) {
            n_eagain++;
            return -EAGAIN;
        }
        if (take_fault(opt.submit_error, "submit-err")) {
            return mc::choose(2, "submit-errno") ? -EINVAL : -EIO;
        }
        long k = n < free_slots ? n : free_slots;
        if (opt.partial && k > 1) {
            k -= mc::choose(static_cast<int>(k), "partial");
        }
        for (long i = 0; i < k; i++) {
            if (::fcntl(ios[i]->aio_fildes, F_GETFD) < 0) {
                if (i == 0) {
                    return -EBADF;
                }
                k = i;
                break;
            }
            Request r;
            r.write = ios[i]->aio_lio_opcode == IO_CMD_PWRITE;
            r.fd    = ios[i]->aio_fildes;
            r.buf   = ios[i]->u.c.buf;
            r.len   = ios[i]->u.c.nbytes;
            r.off   = ios[i]->u.c.offset;
            r.data  = ios[i]->data;
            x.pending.push_back(static_cast<int>(reqs.size()));
            reqs.push_back(r);
        }
        ret = static_cast<int>(k);
    }
    mc::hb_release(reinterpret_cast<void*>(c));
    // the requests may complete before the call returns
    mc::sched_point("io_submit-return");
    return ret;
}
int io_getevents(io_context_t c, long min_nr, long nr, struct io_event* ev,
                 struct timespec* timeout)
{
    if (!mc::managed_now()) { // (native runs that make no asynchronous request)
        usleep(200);
        return 0;
    }
    mc::sched_point("io_getevents");
    {
        mc::Unmanaged u;
        ctx(c, "io_getevents");
        if (take_fault(opt.eintr, "eintr")) {
            return -EINTR;
        }
    }
    bool got = mc::block_until(
        [c] {
            auto it = ctxs->find(c);
            return !it->second.pending.empty();
        },
        "io_getevents", timeout != nullptr);
    if (!got) {
        return 0;
    }
    int n = 0;
    {
        Ctx& x = ctx(c, "io_getevents");
        // which of the pending requests have completed, in which order
        while (!x.pending.empty() && n < nr) {
            if (n > 0 && opt.split) {
                mc::Unmanaged u;
                if (mc::choose(2, "more") == 1) {
                    break;
                }
            }
            int k = 0;
            if (opt.any_order && x.pending.size() > 1) {
                mc::Unmanaged u;
                k = mc::choose(static_cast<int>(x.pending.size()), "order");
            }
            int      id = x.pending[k];
            Request& r  = reqs[id];
            x.pending.erase(x.pending.begin() + k);
            mc::hb_acquire(reinterpret_cast<void*>(c));
            perform(r);
            memset(&ev[n], 0, sizeof ev[n]);
            ev[n].data = r.data;
            ev[n].res  = static_cast<unsigned long>(r.result);
            r.delivered = true;
            n++;
        }
    }
    (void)min_nr;
    return n;
}

// ---------------------------------------------------------------- files
// O_DIRECT is modelled: tmpfs may not support it, and its alignment rules are
// enforced on every descriptor opened with it.
int open(const char* path, int flags, ...)
{
    mode_t  mode = 0;
    va_list ap;
    va_start(ap, flags);
    if (flags & (O_CREAT | O_TMPFILE)) {
        mode = va_arg(ap, mode_t);
    }
    va_end(ap);
    bool direct = flags & O_DIRECT;
    mc::sched_point("open");
    int fd = static_cast<int>(
        syscall(SYS_openat, AT_FDCWD, path, flags & ~O_DIRECT, mode));
    if (fd >= 0 && mc::managed_now()) {
        mc::Unmanaged u;
        fds[fd] = direct;
    }
    return fd;
}
int open64(const char* path, int flags, ...)
{
    mode_t  mode = 0;
    va_list ap;
    va_start(ap, flags);
    if (flags & (O_CREAT | O_TMPFILE)) {
        mode = va_arg(ap, mode_t);
    }
    va_end(ap);
    return open(path, flags, mode);
}

bool mc_io_filter(const char* op, int fd, const void* b, size_t n, off_t o, ssize_t* ret)
{
    if (!mc::managed_now()) {
        return false;
    }
    mc::Unmanaged u;
    if (!strcmp(op, "close")) {
        auto it = fds.find(fd);
        if (it == fds.end()) {
            mc::violation("close() of descriptor " + std::to_string(fd)
                          + " which the code did not open (or closed already)");
        }
        fds.erase(it);
        return false;
    }
    auto it = fds.find(fd);
    if (it == fds.end()) {
        return false;
    }
    if (it->second && (!strcmp(op, "write") || !strcmp(op, "pwrite") || !strcmp(op, "pread")
                       || !strcmp(op, "read"))) {
        int64_t off = o;
        if (o == -1) {
            off = syscall(SYS_lseek, fd, 0, SEEK_CUR);
        }
        if (reinterpret_cast<uintptr_t>(b) % 512 || n % 512 || off % 512) {
            errno = EINVAL;
            *ret  = -1;
            return true;
        }
    }
    return false;
}
} // extern "C"
