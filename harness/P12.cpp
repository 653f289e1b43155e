//! bound: all rotation angles, offsets and points with real coordinates |x| <= 100 (angles |a| <= 10); compositions of two arbitrary transforms, chains of three
//! assume: exact real arithmetic with exact sine and cosine (rounding excluded)
#include "common.hpp"
#include "Simu/physics/Transform.hpp"
using namespace h;

namespace
{
Rotation rot(const char* n) { return Rotation{sx::real(n, -10, 10)}; }
Translation tra(const char* n) { return Translation{realVec(n, -100, 100)}; }
Transform tr(const char* n)
{
    Rotation r = rot(n);
    return Transform{r, tra(n)};
}
constexpr float Tol = 1e-2f;
} // namespace

SX_HARNESS(rotation, "")
{
    float a = sx::real("a", -10, 10);
    Rotation r{a};
    Vec2 p = realVec("p", -100, 100), q = realVec("q", -100, 100);
    Vec2 rp = r * p, rq = r * q;
    eqVec("a rotation is counterclockwise by its angle", rp, Vec2{std::cos(a) * p[0] - std::sin(a) * p[1], std::sin(a) * p[0] + std::cos(a) * p[1]}, Tol);
    sx::eq("rotation preserves dot products", dot(rp, rq), dot(p, q), Tol);
    sx::eq("rotation preserves orientation", cross(rp, rq), cross(p, q), Tol);
    eqVec("the inverse rotation undoes it", r.inverse() * rp, p, Tol);
    eqVec("the inverse rotation is undone by it", r * (r.inverse() * p), p, Tol);
    sx::eq("inverse angle", r.inverse().theta(), -a);
    eqVec("a rotation as a matrix", Mat3{r} * p, rp, Tol);
    Rotation s{0.f};
    s.set(a);
    eqVec("setting the angle", s * p, rp, Tol);
    sx::eq("angle is kept", s.theta(), a);
}
SX_HARNESS(composition, "")
{
    Rotation a = rot("a"), b = rot("b");
    Vec2 p     = realVec("p", -100, 100);
    eqVec("composed rotations apply one after the other", (a * b) * p, a * (b * p), Tol);
    sx::eq("angles add up", (a * b).theta(), a.theta() + b.theta());
    Translation s = tra("s"), t = tra("t");
    eqVec("a translation adds its offset", s * p, p + s.offset(), Tol);
    eqVec("composed translations", (s * t) * p, s * (t * p), Tol);
    eqVec("inverse translation", s.inverse() * (s * p), p, Tol);
    eqVec("rotation after translation", (a * t) * p, a * (t * p), Tol);
    eqVec("translation after rotation", (t * a) * p, t * (a * p), Tol);
    Translation u = s;
    u *= t;
    eqVec("accumulated translations", u * p, p + s.offset() + t.offset(), Tol);
}
SX_HARNESS(transforms, "")
{
    Transform A = tr("A"), B = tr("B");
    Rotation r    = rot("r");
    Translation t = tra("t");
    Vec2 p        = realVec("p", -100, 100);
    eqVec("a transform rotates, then translates", A * p, A.translation() * (A.rotation() * p), Tol);
    eqVec("composition of transforms is function composition", (A * B) * p, A * (B * p), Tol);
    eqVec("transform after rotation", (A * r) * p, A * (r * p), Tol);
    eqVec("transform after translation", (A * t) * p, A * (t * p), Tol);
    eqVec("rotation after transform", (r * A) * p, r * (A * p), Tol);
    eqVec("translation after transform", (t * A) * p, t * (A * p), Tol);
    eqVec("a transform as a matrix", Mat3{A} * p, A * p, Tol);
    eqVec("matrix of a composition is the product of matrices", (Mat3{A} * Mat3{B}) * p, (A * B) * p, Tol);
    eqVec("identity", Transform::identity() * p, p);
    eqVec("default transform is the identity", Transform{} * p, p);
}
SX_HARNESS(inverse, "")
{
    Transform A = tr("A");
    Vec2 p      = realVec("p", -100, 100);
    eqVec("inverse undoes a transform", A.inverse() * (A * p), p, Tol);
    eqVec("inverse is undone by the transform", A * (A.inverse() * p), p, Tol);
    Transform B = tr("B");
    eqVec("inverse of a composition", (A * B).inverse() * p, B.inverse() * (A.inverse() * p), Tol);
}
SX_HARNESS(around, "")
{
    float a = sx::real("a", -10, 10);
    Vec2 o = realVec("o", -100, 100), c = realVec("c", -100, 100), p = realVec("p", -100, 100);
    Transform T = Transform::transformAround(a, o, c);
    eqVec("rotates around the origin point, then translates", T * p, c + o + Rotation{a} * (p - c), Tol);
    eqVec("the origin point is only translated", T * c, c + o, Tol);
}
SX_HARNESS(chain, "")
{
    Transform A = tr("A"), B = tr("B"), C = tr("C");
    Vec2 p      = realVec("p", -10, 10);
    eqVec("composition is associative", ((A * B) * C) * p, (A * (B * C)) * p, Tol);
}
