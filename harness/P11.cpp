//! bound: pairs of convex polygons with 3..6 vertices taken from a family of shapes (fat, thin, axis-aligned, oblique), at every relative translation on 10 (quick) or 24 (thorough) lines of different directions, real parameter |t| <= 12
//! assume: exact real arithmetic (no rounding)
#include "common.hpp"
#include "Simu/math/Gjk.hpp"
using namespace h;
#include "shapes.hpp"

namespace
{
template <class G>
void measure(const G& a, const G& b)
{
    float tol = sx::symbolic() ? 0.002f : 0.02f; // concrete quotients are rounded
    Gjk<G> g{a, b};
    if (g.areColliding())
    {
        Vec2 p = g.penetration();
        Vec2 s = g.separation();
        sx::check("colliding polygons have no separation", (s[0] == 0) & (s[1] == 0));
        float pp       = p[0] * p[0] + p[1] * p[1];
        bool minimal   = true;
        bool separates = false;
        auto axis      = [&](float mx, float my, const G& x, const G& y, float sign) {
            // depth of y into x along the outward normal (mx, my) of x
            float hi = -1e9f, lo = 1e9f;
            for (auto& v : x) hi = std::max(hi, mx * v[0] + my * v[1]);
            for (auto& v : y) lo = std::min(lo, mx * v[0] + my * v[1]);
            float depth = hi - lo;
            float mm    = mx * mx + my * my;
            minimal     = minimal & (pp * mm <= depth * depth + tol);
            // p removes the overlap along this axis
            float along = sign * (p[0] * mx + p[1] * my);
            separates   = separates | (along >= depth - tol);
        };
        auto all = [&](const G& x, const G& y, float sign) {
            auto prev = *(x.end() - 1);
            for (auto& v : x)
            {
                axis(v[1] - prev[1], prev[0] - v[0], x, y, sign);
                prev = v;
            }
        };
        all(a, b, 1.f);
        all(b, a, -1.f);
        sx::check("moving by the penetration leaves the polygons at most touching", separates);
        sx::check("no shorter translation ends the penetration", minimal);
    }
    else
    {
        Vec2 p = g.penetration();
        sx::check("separated polygons have no penetration", (p[0] == 0) & (p[1] == 0));
        Vec2 s   = g.separation();
        float ss = s[0] * s[0] + s[1] * s[1];
        bool gap = true;
        for (auto& x : a)
            for (auto& y : b)
                gap = gap & ((y[0] - x[0]) * s[0] + (y[1] - x[1]) * s[1] >= ss - tol);
        sx::check("no shorter translation makes the polygons touch", gap);
        sx::check("moving by the separation makes the polygons touch", overlapping(shifted(a, s), b, tol));
    }
}
// relative positions sweep lines in many directions
constexpr int NLines = 24;
Vec2 onLine(int k, float r)
{
    static const float O[6] = {-4.5f, 1, -1, 2.5f, 0, 5};
    float o = O[k / 4 % 6];
    switch (k % 4)
    {
    case 0: return Vec2{r, o};
    case 1: return Vec2{o, r};
    case 2: return Vec2{r + o, r};
    default: return Vec2{o - r, 2 * r};
    }
}
} // namespace
SX_HARNESS(family, "split")
{
    int i  = sx::choose("first", sx::tier() ? NShapes : 4);
    int j  = sx::choose("second", sx::tier() ? NShapes : 4);
    int k  = sx::choose("line", sx::tier() ? NLines : 10);
    float r = sx::real("t", -12, 12);
    measure(shape(i), shifted(shape(j), onLine(k, r)));
}
