// libaio on ordinary files for harnesses that do not explore schedules:
// requests are carried out when they are submitted, and waits are short, so
// that opening and closing a vector does not cost a 100 ms timeout.
// O_DIRECT is dropped when files are opened (the harness files are small and
// on tmpfs).
#include <condition_variable>
#include <cstdarg>
#include <deque>
#include <errno.h>
#include <fcntl.h>
#include <libaio.h>
#include <mutex>
#include <sys/syscall.h>
#include <unistd.h>

namespace {
struct Ctx
{
    std::mutex              m;
    std::condition_variable cv;
    std::deque<io_event>    q;
};
} // namespace

extern "C" {
int io_setup(int, io_context_t* c)
{
    *c = reinterpret_cast<io_context_t>(new Ctx);
    return 0;
}
int io_destroy(io_context_t c)
{
    delete reinterpret_cast<Ctx*>(c);
    return 0;
}
int io_submit(io_context_t c, long n, struct iocb** b)
{
    Ctx* x = reinterpret_cast<Ctx*>(c);
    for (long i = 0; i < n; i++) {
        ssize_t r;
        if (b[i]->aio_lio_opcode == IO_CMD_PREAD) {
            r = pread(b[i]->aio_fildes, b[i]->u.c.buf, b[i]->u.c.nbytes, b[i]->u.c.offset);
        } else {
            r = pwrite(b[i]->aio_fildes, b[i]->u.c.buf, b[i]->u.c.nbytes, b[i]->u.c.offset);
        }
        io_event e{};
        e.data = b[i]->data;
        e.obj  = b[i];
        e.res  = r < 0 ? -errno : r;
        std::lock_guard<std::mutex> g(x->m);
        x->q.push_back(e);
        x->cv.notify_all();
    }
    return (int)n;
}
int io_getevents(io_context_t c, long min_nr, long nr, struct io_event* ev, struct timespec*)
{
    Ctx*                         x = reinterpret_cast<Ctx*>(c);
    std::unique_lock<std::mutex> g(x->m);
    x->cv.wait_for(g, std::chrono::microseconds(100), [&] { return (long)x->q.size() >= min_nr; });
    long k = 0;
    while (k < nr && !x->q.empty()) {
        ev[k++] = x->q.front();
        x->q.pop_front();
    }
    return (int)k;
}
int open(const char* path, int flags, ...)
{
    va_list a;
    va_start(a, flags);
    mode_t m = flags & (O_CREAT | O_TMPFILE) ? va_arg(a, mode_t) : 0;
    va_end(a);
    return (int)syscall(SYS_openat, AT_FDCWD, path, (flags & ~O_DIRECT) | O_CLOEXEC, m);
}
}
