#pragma once
#include <cstddef>
void sodium_memzero(void* const pnt, const size_t len);
