// Shared pieces of the append-only vector harnesses (P05, P06).
#pragma once
#include "mc.h"
#include "model_aio.h"

#include <sse/schemes/abstractio/awonvm_vector.hpp>

#include <cstring>
#include <fcntl.h>
#include <memory>
#include <thread>
#include <unistd.h>

using sse::abstractio::awonvm_vector;
using sse::abstractio::Scheduler;

// a value whose every byte depends on its identity
struct alignas(512) Page
{
    unsigned char b[512];
};
using Small = uint64_t;
struct Odd
{
    unsigned char b[3];
};

template<typename T>
T make(int id)
{
    T v;
    memset(reinterpret_cast<unsigned char*>(&v), id * 16 + 1, sizeof v);
    return v;
}
template<typename T>
bool is(const T& v, int id)
{
    const T w = make<T>(id);
    return memcmp(&v, &w, sizeof v) == 0;
}

inline std::string s(long i)
{
    return std::to_string(i);
}

inline void wait_until(const std::function<bool()>& p, const char* what)
{
    if (mc::managed_now()) {
        mc::block_until(p, what);
        p(); // in this thread: orders it after what was waited for
        return;
    }
    for (int i = 0; i < 200000; i++) {
        if (p()) {
            return;
        }
        usleep(i < 1000 ? 5 : 50);
    }
    mc::violation(std::string("never happens: ") + what);
}
