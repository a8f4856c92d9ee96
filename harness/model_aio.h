// Model kernel for the libaio interface (linked instead of libaio) and for
// O_DIRECT files; every allowed kernel answer is a choice of the explorer.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <sys/types.h>
#include <vector>

namespace kaio {
struct Options
{
    int  capacity     = 64;    // requests in flight before io_submit says EAGAIN
    int  faults       = 0;     // injected kernel misbehaviours, total
    bool partial      = false; // io_submit may accept a prefix
    bool any_order    = true;  // completions may be delivered in any order
    bool split        = true;  // completions may be delivered in any grouping
    bool eintr        = false; // io_getevents may fail with EINTR (uses a fault)
    bool submit_error = false; // io_submit may fail with EIO (uses a fault)
    bool io_error     = false; // a request may complete with EIO / short (fault)
};
void reset(const Options& o); // at the beginning of an execution
void change(const Options& o); // from now on

struct Request
{
    bool     write;
    int      fd;
    void*    buf;
    size_t   len;
    int64_t  off;
    void*    data; // iocb.data
    int64_t  result    = 0;
    bool     done      = false;
    bool     delivered = false;
};
const std::vector<Request>& log(); // every accepted request, in order
int                         contexts_alive();
uint64_t                    eagains();

// ---- files (descriptors opened through open()) ----
void fd_reset();
// number of descriptors the code has open (opened minus closed)
int open_fds();
} // namespace kaio
