//! bound: triangles and quadrilaterals (convex, concave or crossing) with arbitrary real vertices |x| <= 100; pentagons and hexagons that are fans of symbolic triangles, |x| <= 100; translations and scales |t| <= 100, 1/8 <= s <= 8
//! assume: exact real arithmetic (no rounding); |area| >= 1/16 for centroid and moment
#include "common.hpp"
#include "Simu/math/Geometry.hpp"
#include "Simu/math/Polygon.hpp"
using namespace h;

namespace
{
// area, first moment and second moment about the origin of the triangles of a fan; kept as
// integer multiples so that concrete vertices introduce no rounding of their own
struct Sum
{
    float a2 = 0, x6 = 0, y6 = 0, m12 = 0; // 2 area, 6 first moments, 12 second moment
    void add(Vec2 p, Vec2 q, Vec2 r)
    {
        float t = (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0]);
        a2 += t;
        x6 += t * (p[0] + q[0] + r[0]);
        y6 += t * (p[1] + q[1] + r[1]);
        // integral of |v|^2 over a triangle = area / 6 * sum over pairs i <= j of vi . vj
        m12 += t * (dot(p, p) + dot(q, q) + dot(r, r) + dot(p, q) + dot(q, r) + dot(r, p));
    }
};
GeometricProperties compare(const Vertices& v, bool moment)
{
    Sum s;
    for (size_t i = 1; i + 1 < v.size(); ++i) s.add(v[0], v[i], v[i + 1]);
    GeometricProperties p{v};
    sx::check("degenerate exactly when the area is zero", p.isDegenerate == (s.a2 == 0));
    sx::assume((s.a2 >= 0.125f) | (s.a2 <= -0.125f));
    sx::eq("area is the signed sum of its triangles", 2 * p.area, s.a2, 1e-2f);
    sx::eq("centroid x is the area-weighted mean", p.centroid[0] * s.a2 * 3.f, s.x6, 1e-2f);
    sx::eq("centroid y is the area-weighted mean", p.centroid[1] * s.a2 * 3.f, s.y6, 1e-2f);
    if (moment)
    {
        // second moment about the centroid, not negative whatever the orientation
        sx::check("moment of area is not negative", p.momentOfArea >= 0);
        float n = 3 * s.m12 * s.a2 - 2 * (s.x6 * s.x6 + s.y6 * s.y6); // 36 a2 m
        float e = 36 * s.a2 * p.momentOfArea;
        float t = sx::symbolic() ? 0.f : 0.01f * (1 + (n < 0 ? -n : n));
        sx::check("moment of area is the absolute second moment about the centroid",
                  ((e - n <= t) & (n - e <= t)) | ((e + n <= t) & (-n - e <= t)));
    }
    return p;
}
} // namespace

SX_HARNESS(triangle, "rounding")
{
    Vertices v{realVec("v", -100, 100), realVec("v", -100, 100), realVec("v", -100, 100)};
    auto p = compare(v, false);
    eqVec("centroid of a triangle is the mean of its vertices", 3.f * p.centroid, v[0] + v[1] + v[2], 0.05f);
}
SX_HARNESS(quadrilateral, "rounding")
{
    Vertices v;
    for (int i = 0; i < 4; ++i) v.emplace_back(realVec("v", -100, 100));
    compare(v, false);
}
SX_HARNESS(hexagon, "rounding,thorough")
{
    Vertices v;
    for (int i = 0; i < 6; ++i) v.emplace_back(realVec("v", -100, 100));
    compare(v, false);
}
SX_HARNESS(triangleMoment, "rounding")
{
    static const float P[][4] = {{0, 0, 4, 0}, {1, 2, -3, 5}, {-7, 3, 2, -6}, {20, 30, 23, 31}};
    int k = sx::choose("k", 4), r = sx::choose("r", 3);
    Vertices v{Vec2{P[k][0], P[k][1]}, Vec2{P[k][2], P[k][3]}, realVec("v", -100, 100)};
    std::rotate(v.begin(), v.begin() + r, v.end());
    compare(v, true);
}
SX_HARNESS(quadMoment, "rounding")
{
    static const float P[4][2] = {{1, -1}, {7, 0}, {9, 4}, {-2, 6}};
    int k = sx::choose("k", 4);
    Vertices v;
    for (int i = 0; i < 4; ++i) v.emplace_back(Vec2{P[i][0], P[i][1]});
    v[k] = realVec("v", -100, 100);
    compare(v, true);
}
SX_HARNESS(pentagon, "rounding,thorough")
{
    // a symbolic vertex in each position of a concrete polygon
    static const float P[5][2] = {{0, 0}, {6, -1}, {9, 4}, {5, 9}, {-2, 6}};
    int k = sx::choose("k", 5);
    Vertices v;
    for (int i = 0; i < 5; ++i) v.emplace_back(Vec2{P[i][0], P[i][1]});
    v[k] = realVec("v", -100, 100);
    compare(v, true);
}

SX_HARNESS(concrete, "rounding")
{
    // a concrete geometry in every position and size, both orientations
    static const float P[][8] = {{0, 0, 6, -1, 9, 4, 5, 9}, {-2, 1, 0, -3, 5, 0, 1, 1}, {1, 1, 1, 4, 8, 4, 8, 1}};
    int k = sx::choose("k", 3);
    Vec2 t = realVec("t", -16, 16);
    float s = sx::real("s", 0.5f, 4);
    if (sx::choose("which", 2)) s = 1; else t = Vec2{};
    Vertices v, w;
    for (int i = 0; i < 8; i += 2)
    {
        v.emplace_back(Vec2{P[k][i], P[k][i + 1]});
        w.emplace_back(s * v.back() + t);
    }
    GeometricProperties p{v}, q{w};
    float e = q.momentOfArea - s * s * s * s * p.momentOfArea, tol = sx::symbolic() ? 0.5f : 1.f;
    sx::check("moment of area is invariant under translation and scales with the fourth power", (e <= tol) & (e >= -tol));
}

SX_HARNESS(invariance, "rounding")
{
    Vertices v;
    for (int i = 0; i < 4; ++i) v.emplace_back(realVec("v", -10, 10));
    GeometricProperties p{v};
    sx::assume((p.area >= 0.0625f) | (p.area <= -0.0625f));
    int k = sx::choose("k", 4);
    if (k == 0) // translation
    {
        Vec2 t = realVec("t", -10, 10);
        for (auto& x : v) x += t;
        GeometricProperties q{v};
        sx::eq("area does not depend on the position", q.area, p.area, 0.1f);
        eqVec("centroid moves with the geometry", q.centroid, p.centroid + t, 0.1f);
    }
    if (k == 1) // reversal
    {
        std::reverse(v.begin(), v.end());
        GeometricProperties q{v};
        sx::eq("reversed geometry has the opposite area", q.area, -p.area, 1e-2f);
        eqVec("centroid does not depend on the orientation", q.centroid, p.centroid, 1e-2f);
    }
    if (k == 2) // another start vertex
    {
        std::rotate(v.begin(), v.begin() + 1, v.end());
        GeometricProperties q{v};
        sx::eq("area does not depend on the first vertex", q.area, p.area, 1e-2f);
        eqVec("centroid does not depend on the first vertex", q.centroid, p.centroid, 1e-2f);
    }
    if (k == 3) // uniform scale
    {
        float s = sx::real("s", 0.125f, 8);
        for (auto& x : v) x *= s;
        GeometricProperties q{v};
        sx::eq("area scales with the square", q.area, s * s * p.area, 0.1f);
        eqVec("centroid scales", q.centroid, s * p.centroid, 0.1f);
    }
}

SX_HARNESS(box, "")
{
    float w = sx::real("w", 0.25f, 64), d = sx::real("h", 0.25f, 64);
    Vec2 c = realVec("c", -16, 16);
    GeometricProperties p = Polygon::box(Vec2{w, d}, c).properties();
    sx::eq("area of a box", p.area, w * d, 0.05f);
    eqVec("centroid of a box is its center", p.centroid, c, 0.05f);
    sx::eq("moment of area of a box is wh(w2 + h2)/12", p.momentOfArea, w * d * (w * w + d * d) / 12.f, 0.2f);
}
