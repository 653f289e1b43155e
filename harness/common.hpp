#pragma once
#include "sx.hpp"
#include "Simu/math.hpp"
#include "Simu/physics/BoundingBox.hpp"
#include <vector>

namespace h
{
using namespace simu;
// lattice vector
inline Vec2 latVec(const char* n, int lo, int hi, int scale = 0)
{
    float x = sx::lat(n, lo, hi, scale);
    float y = sx::lat(n, lo, hi, scale);
    return Vec2{x, y};
}
inline Vec2 realVec(const char* n, float lo, float hi)
{
    float x = sx::real(n, lo, hi);
    float y = sx::real(n, lo, hi);
    return Vec2{x, y};
}
inline float fpFinite(const char* n)
{
    float x = sx::fp(n);
    sx::assume((x <= 3.402823466e+38f) & (x >= -3.402823466e+38f));
    return x;
}
inline void eqVec(const char* l, Vec2 a, Vec2 b, float tol = 1e-3f)
{
    sx::eq(l, a[0], b[0], tol);
    sx::eq(l, a[1], b[1], tol);
}
// equality up to tol, also in the symbolic run: for concrete inputs whose rounding enters the result
inline void near(const char* l, float a, float b, float tol)
{
    sx::check(l, (a - b <= tol) & (b - a <= tol));
}
inline void nearVec(const char* l, Vec2 a, Vec2 b, float tol)
{
    near(l, a[0], b[0], tol);
    near(l, a[1], b[1], tol);
}
inline float sq(float x) { return x * x; }
// decides c: no symbolic value is left
__attribute__((noinline)) inline bool known(bool c)
{
    volatile bool r = false;
    if (c) r = true;
    return r;
}
inline bool implies(bool a, bool b) { return !a | b; }
} // namespace h
