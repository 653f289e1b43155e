//! bound: triangles and convex or concave quadrilaterals with real vertices |x| <= 20, densities in [1/8, 8]; quadrilaterals split along a diagonal; combinations of up to three arbitrary mass properties
//! assume: exact real arithmetic (no rounding); |area| >= 1/16
#include "common.hpp"
#include "Simu/physics/Body.hpp"
using namespace h;

namespace
{
MassProperties any(const char* n)
{
    MassProperties p;
    p.m        = sx::real(n, 0.125f, 16);
    p.I        = sx::real(n, 0.125f, 16);
    p.centroid = realVec(n, -20, 20);
    return p;
}
void same(const char* l, const MassProperties& a, const MassProperties& b)
{
    sx::eq(l, a.m, b.m, 1e-2f);
    eqVec(l, a.centroid, b.centroid, 1e-2f);
    sx::eq(l, a.I, b.I, 5e-2f);
}
} // namespace

SX_HARNESS(triangle, "rounding")
{
    Vec2 a{0, 0}, b = realVec("b", -20, 20), c = realVec("c", -20, 20);
    float d    = sx::real("d", 0.125f, 8);
    float area = 0.5f * cross(b - a, c - a);
    sx::assume(area >= 0.0625f);
    MassProperties p{Vertices{a, b, c}, d};
    sx::eq("mass is area times density", p.m, d * area, 1e-2f);
    eqVec("the centroid of a triangle is the mean of its vertices", p.centroid * 3, a + b + c, 1e-2f);
    // polar second moment of a triangle about its centroid: area / 36 * sum of squared sides
    float sides = normSquared(b - a) + normSquared(c - b) + normSquared(a - c);
    sx::eq("inertia is the second moment times density", 36 * p.I, d * area * sides, 5e-2f);
    sx::check("mass is positive", p.m > 0);
}
SX_HARNESS(masses, "rounding")
{
    static const float F[][6] = {{0, 0, 1, 0, 0, 1}, {2, 1, 7, 3, 3, 8}, {-4, -4, 8, -3, 2, -1}, {10, 10, 14, 10, 10, 12}};
    int k = sx::choose("triangle", 4);
    Vertices v{Vec2{F[k][0], F[k][1]}, Vec2{F[k][2], F[k][3]}, Vec2{F[k][4], F[k][5]}};
    float d = sx::real("d", 0.125f, 8);
    MassProperties p{v, d};
    sx::check("mass and inertia are positive", (p.m > 0) & (p.I > 0));
    Mass m{GeometricProperties{v}, d};
    sx::eq("the mass of a geometry is the same", m.mass(), p.m, 1e-2f);
    sx::eq("the inertia of a geometry is the same", m.inertia(), p.I, 5e-2f);
    sx::eq("inverse mass", m.invMass() * p.m, 1, 1e-2f);
    sx::eq("inverse inertia", m.invInertia() * p.I, 1, 5e-2f);
}
SX_HARNESS(split, "rounding")
{
    Vec2 a{0, 0}, b = realVec("b", -20, 20), c = realVec("c", -20, 20), e = realVec("e", -20, 20);
    float d = sx::real("d", 0.125f, 8);
    sx::assume(cross(b, c) >= 0.0625f);
    sx::assume(cross(c, e) >= 0.0625f);
    MassProperties whole{Vertices{a, b, c, e}, d};
    MassProperties parts = MassProperties{Vertices{a, b, c}, d} + MassProperties{Vertices{a, c, e}, d};
    sx::eq("mass of the parts", parts.m, whole.m, 1e-2f);
    // whole.centroid is over the area, parts.centroid over the mass: compare first moments
    eqVec("center of mass of the parts", parts.centroid * whole.m, whole.centroid * whole.m, 1e-1f);
}
SX_HARNESS(splitInertia, "rounding")
{
    // one free vertex
    Vec2 a{0, 0}, b{4, 1}, c = realVec("c", 1, 8), e{-2, 5};
    sx::assume(cross(b, c) >= 0.0625f);
    sx::assume(cross(c, e) >= 0.0625f);
    MassProperties whole{Vertices{a, b, c, e}, 2};
    MassProperties parts = MassProperties{Vertices{a, b, c}, 2} + MassProperties{Vertices{a, c, e}, 2};
    sx::eq("inertia of the parts", parts.I, whole.I, 1e-1f);
}
SX_HARNESS(combination, "rounding")
{
    MassProperties a = any("a"), b = any("b");
    MassProperties s = a + b;
    sx::eq("masses add up", s.m, a.m + b.m);
    eqVec("the center of mass is the mass-weighted mean", s.centroid * s.m, a.centroid * a.m + b.centroid * b.m, 1e-2f);
    float shift = a.m * normSquared(a.centroid - s.centroid) + b.m * normSquared(b.centroid - s.centroid);
    sx::eq("inertias add up about the common center", s.I, a.I + b.I + shift, 5e-2f);
    same("combining is commutative", s, b + a);
    same("nothing is neutral", a + MassProperties{}, a);
    same("nothing is neutral (left)", MassProperties{} + a, a);
    MassProperties none = MassProperties{} + MassProperties{};
    sx::check("nothing and nothing is nothing", (none.m == 0) & (none.I == 0) & (none.centroid[0] == 0) & (none.centroid[1] == 0));
}
SX_HARNESS(associative, "rounding")
{
    MassProperties a = any("a"), b = any("b"), c = any("c");
    MassProperties l = (a + b) + c, r = a + (b + c);
    sx::eq("combining is associative (mass)", l.m, r.m);
    eqVec("combining is associative (center)", l.centroid, r.centroid, 1e-2f);
    sx::eq("combining is associative (inertia)", l.I, r.I, 5e-2f);
}
SX_HARNESS(refused, "fp")
{
    float d = sx::fp("density");
    sx::assume(((d < 1e10f) & (d > -1e10f)) | !(d == d));
    bool threw = false;
    try { MassProperties{Vertices{Vec2{0, 0}, Vec2{1, 0}, Vec2{0, 1}}, d}; } catch (const simu::Exception&) { threw = true; }
    sx::check("exactly a density that is not positive is refused", threw == !(d > 0));
    float m = sx::fp("mass"), I = sx::fp("inertia");
    bool threwMass = false;
    try { Mass{m, I}; } catch (const simu::Exception&) { threwMass = true; }
    sx::check("exactly a mass or inertia that is not positive is refused", threwMass == !((m > 0) & (I > 0)));
}
SX_HARNESS(flat, "int")
{
    Vec2 a = latVec("a", -8, 8), b = latVec("b", -8, 8), c = latVec("c", -8, 8);
    sx::assume(cross(b - a, c - a) == 0);
    bool threw = false;
    try { MassProperties{Vertices{a, b, c}, 1.f}; } catch (const simu::Exception&) { threw = true; }
    sx::check("geometry without a surface is refused", threw);
}
