// Stubs for harnesses without the controlled scheduler.
#include "mc.h"
namespace mc {
bool block_until(const std::function<bool()>& p, const char*, bool) { return p(); }
void sched_point(const char*) {}
bool managed_now() { return false; }
int  self_id() { return 0; }
void hb_release(const void*) {}
void hb_acquire(const void*) {}
Unmanaged::Unmanaged() {}
Unmanaged::~Unmanaged() {}
void access(const void*, size_t, bool) {}
}
