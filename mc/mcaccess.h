#pragma once
#include <cstddef>
namespace mc {
// record a memory access on behalf of the current thread (for model objects
// that touch user buffers, e.g. the model kernel)
void access(const void* p, size_t n, bool write);
}
