// force-included: uniform draws can be chosen by the harness
#pragma once
#include <algorithm>
#include <cstdint>
#include <random>
// the next draw, or false: draw it from the generator
bool mc_draw(uint64_t* v);
namespace std {
template<class T = int>
struct mc_uniform_int
{
    T lo, hi;
    explicit mc_uniform_int(T a = 0, T b = numeric_limits<T>::max()) : lo(a), hi(b)
    {
    }
    template<class R>
    T operator()(R& r)
    {
        uint64_t v;
        if (lo == 0 && hi == numeric_limits<T>::max() && mc_draw(&v))
            return static_cast<T>(v);
        return uniform_int_distribution<T>(lo, hi)(r);
    }
};
} // namespace std
#define uniform_int_distribution mc_uniform_int
