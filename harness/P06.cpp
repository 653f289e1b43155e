//! bound: segments and triangles with arbitrary real vertices and query points, |x| <= 100 (segments), |x| <= 16 relative to the first vertex (triangles); degenerate segments included; all triangles with one edge on the x axis and |cross| > 1e-3 in both orientations, eight concrete oblique (acute, obtuse, thin) triangles in every labelling against every real query point, plus flat triangles on the integer grid |x| <= 8
//! assume: exact real arithmetic (no rounding)
#include "common.hpp"
#include "Simu/math/BarycentricCoordinates.hpp"
using namespace h;

SX_HARNESS(segment, "")
{
    Vec2 A = realVec("A", -100, 100), B = realVec("B", -100, 100), Q = realVec("Q", -100, 100);
    LineBarycentric l{A, B, Q};
    Vec2 P = l.closestPoint;
    sx::observe("Px", P[0]);
    sx::eq("coordinates sum to one", l.u + l.v, 1, 1e-2f);
    // P is on the line AB, and between A and B
    Vec2 AB = B - A;
    float tol = sx::symbolic() ? 0.f : 0.1f;
    sx::eq("the closest point is on the line", cross(P - A, AB), 0, 10.f);
    sx::check("the closest point is between the end points", dot(P - A, P - B) <= tol);
    // variational inequality: no point of the segment is closer
    sx::check("no point of the segment is closer (start)", dot(Q - P, A - P) <= tol);
    sx::check("no point of the segment is closer (end)", dot(Q - P, B - P) <= tol);
    if (normSquared(AB) >= 0.25f)
    {
        // Q = uA + vB + multiple of the normal
        sx::eq("coordinates reproduce the projection of Q", dot(l.u * A + l.v * B - Q, AB), 0, 50.f);
        if ((l.u > 0) & (l.v > 0)) eqVec("interior closest point is uA + vB", P, l.u * A + l.v * B, 0.1f);
    }
}

SX_HARNESS(point, "fp")
{
    float x = fpFinite("x"), y = fpFinite("y"), a = fpFinite("a"), b = fpFinite("b");
    bool ok = (x < 1e18f) & (x > -1e18f) & (y < 1e18f) & (y > -1e18f) & (a < 1e18f) & (a > -1e18f) & (b < 1e18f) & (b > -1e18f);
    sx::assume(ok);
    Vec2 A{a, b};
    LineBarycentric l{A, A, Vec2{x, y}};
    sx::check("a segment of one point has that point as closest point", (l.closestPoint[0] == a) & (l.closestPoint[1] == b));
}

namespace
{
void closest(Vec2 A, Vec2 B, Vec2 C, Vec2 Q, float area)
{
    TriangleBarycentric t{A, B, C, Q};
    Vec2 P    = t.closestPoint;
    float tol = sx::symbolic() ? 0.f : 0.05f;
    sx::eq("coordinates sum to the area", t.u + t.v + t.w, 0.5f * (area < 0 ? -area : area), 1e-2f);
    float s = area < 0 ? -1.f : 1.f;
    bool inside = (s * cross(B - A, Q - A) >= 0) & (s * cross(C - B, Q - B) >= 0) & (s * cross(A - C, Q - C) >= 0);
    if (inside)
    {
        eqVec("a point of the triangle is its own closest point", P, Q, 1e-2f);
        return;
    }
    sx::check("the closest point is in the triangle (AB)", s * cross(B - A, P - A) >= -tol);
    sx::check("the closest point is in the triangle (BC)", s * cross(C - B, P - B) >= -tol);
    sx::check("the closest point is in the triangle (CA)", s * cross(A - C, P - C) >= -tol);
    sx::check("no point of the triangle is closer (A)", dot(Q - P, A - P) <= tol);
    sx::check("no point of the triangle is closer (B)", dot(Q - P, B - P) <= tol);
    sx::check("no point of the triangle is closer (C)", dot(Q - P, C - P) <= tol);
}
} // namespace

namespace
{
void triangle(Vec2 A, Vec2 B, Vec2 C, Vec2 Q)
{
    float area = cross(B - A, C - A);
    sx::assume((area > 1e-3f) | (area < -1e-3f));
    // any vertex can be the first one: the vertices are relabelled
    int r = sx::choose("r", 3);
    if (r == 0) closest(A, B, C, Q, area);
    if (r == 1) closest(C, A, B, Q, area);
    if (r == 2) closest(B, C, A, Q, area);
}
} // namespace
SX_HARNESS(triangleAligned, "")
{
    float b = sx::real("b", -16, 16);
    triangle(Vec2{0, 0}, Vec2{b, 0}, realVec("C", -16, 16), realVec("Q", -16, 16));
}
SX_HARNESS(triangleFamily, "")
{
    static const float T[][6] = {
        {1, 2, 4, 3, 2, 5}, {1, 2, 2, 5, 4, 3}, {0, 0, 8, 1, -3, 1}, {0, 0, -3, 1, 8, 1},
        {-5, -4, 3, -2, 7, 6}, {2, 2, 2.25f, 2, 9, 9.5f}, {0, 0, 10, 0, 5, 0.125f}, {-1, 3, 0, -7, 2, 8},
    };
    int k = sx::choose("k", 8);
    triangle(Vec2{T[k][0], T[k][1]}, Vec2{T[k][2], T[k][3]}, Vec2{T[k][4], T[k][5]}, realVec("Q", -16, 16));
}

SX_HARNESS(flat, "int")
{
    // collinear triangles: the vertices are multiples of one direction
    float dx = sx::lat("dx", -2, 2), dy = sx::lat("dy", -2, 2), p = sx::lat("p", -4, 4), q = sx::lat("q", -4, 4);
    Vec2 Q = latVec("Q", -4, 4);
    Vec2 A{0, 0}, B{p * dx, p * dy}, C{q * dx, q * dy};
    bool threw = false;
    Vec2 P;
    try { P = TriangleBarycentric{A, B, C, Q}.closestPoint; } catch (const simu::Exception&) { threw = true; }
    sx::check("a flat triangle is accepted", !threw);
    if (threw) return;
    float tol = sx::symbolic() ? 0.f : 0.05f;
    sx::check("no point of a flat triangle is closer",
              (dot(Q - P, A - P) <= tol) & (dot(Q - P, B - P) <= tol) & (dot(Q - P, C - P) <= tol));
    sx::eq("the closest point is on the line", cross(P, Vec2{dx, dy}), 0, 1e-2f);
}
