//! bound: two bodies touching in six ways (one or two contact points, boxes and triangles, structural and dynamic, of different mass and dominance) with any velocities, bounciness and friction (real, |v| <= 10), up to four solver iterations and two successive solves
//! assume: exact real arithmetic (rounding excluded beyond a tolerance of 0.05)
#include "rigs.hpp"

namespace
{
constexpr float Tol = 5e-2f;
struct Touch : Rig
{
    std::optional<ContactConstraint> c;
    ContactInfo info;
    Touch(int k, float bounce, float friction, float sink = 0, float fixedSink = 0.01f)
    {
        auto put = [&](int i, Vec2 pos, float angle, const Polygon& shape, float density, float dominance) {
            BodyDescriptor d{};
            d.position    = pos;
            d.orientation = angle;
            d.dominance   = dominance;
            b[i]          = w.makeBody(d);
            Material mat{};
            mat.density    = density;
            mat.bounciness = CombinableProperty{bounce};
            mat.friction   = CombinableProperty{friction};
            b[i]->addCollider(ColliderDescriptor{shape, mat});
        };
        constexpr float Corner = 1.41421356f;
        float s                = fixedSink;
        switch (k)
        {
        case 0: // a box on the floor
            put(0, Vec2{0, 0}, 0, rect(-5, -2, 5, 0), 1, 0);
            put(1, Vec2{0.5f, 1 - s - sink}, 0, square(), 1, 1);
            break;
        case 1: // the same, named the other way around
            put(0, Vec2{0.5f, 1 - s - sink}, 0, square(), 1, 1);
            put(1, Vec2{0, 0}, 0, rect(-5, -2, 5, 0), 1, 0);
            break;
        case 2: // boxes side by side
            put(0, Vec2{0, 0}, 0, square(), 1, 1);
            put(1, Vec2{2 - s - sink, 0.5f}, 0, square(), 3, 0.5f);
            break;
        case 3: // a box on its corner
            put(0, Vec2{0, 0}, 0, rect(-5, -2, 5, 0), 1, 0);
            put(1, Vec2{0, Corner - s - sink}, 0.78539816f, square(), 2, 1);
            break;
        case 4: // a leaning corner between dynamic bodies
            put(0, Vec2{0, 1.29f}, 0.5f, square(), 1, 1);
            put(1, Vec2{0, 0}, 0, rect(-5, -2, 5, 0), 0.25f, 1);
            break;
        default: // a triangle against a box
            put(0, Vec2{0, 0}, 0, square(), 1, 1);
            put(1, Vec2{0.985f, 0}, 0, Polygon{Vertex{0, -0.25f}, Vertex{2, -1}, Vertex{2, 1}}, 2, 2);
            break;
        }
        setup();
        c.emplace(const_cast<Collider&>(*b[0]->colliders().begin()), const_cast<Collider&>(*b[1]->colliders().begin()));
        Proxies x = proxies();
        sx::check("touching bodies have an active contact", c->isActive(x));
        info = c->contactInfo();
    }
    // relative velocity of the bodies at contact i along the normal, positive when separating
    Vec2 relative(int i) const { return velocityAt(0, info.incContacts[i]) - velocityAt(1, info.refContacts[i]); }
    float separating(int i) const { return dot(info.normal, relative(i)); }
    // impulse that the first body received
    Vec2 impulse(const Before& o) const { return structural(0) ? (o.u[1] - v[1].linear()) * mass[1] : (v[0].linear() - o.u[0]) * mass[0]; }
};
constexpr int Touches = 6;
} // namespace

SX_HARNESS(normal, "rounding")
{
    Touch t{sx::choose("touch", Touches), 0, 0};
    t.velocities();
    Before before{t};
    int n = t.info.nContacts;
    float was[2], now[2];
    for (int i = 0; i < n; ++i) was[i] = t.separating(i);
    Proxies x = t.proxies();
    t.c->initSolve(x);
    int it = 1 + sx::choose("iterations", 2);
    for (int i = 0; i < it; ++i) t.c->solveVelocities(x, 0.125f);
    bool apart = true;
    for (int i = 0; i < n; ++i)
    {
        now[i] = t.separating(i);
        apart  = apart & (was[i] >= Tol);
        sx::check("bodies do not approach at a contact", now[i] >= -Tol);
    }
    Vec2 j = t.impulse(before);
    sx::check("contacts only push", dot(j, t.info.normal) >= -Tol);
    near("contacts without friction act along the normal", cross(j, t.info.normal), 0, Tol);
    bool same = true;
    for (int i = 0; i < 2; ++i)
        same = same & (std::abs(t.v[i].linear()[0] - before.u[i][0]) <= Tol) & (std::abs(t.v[i].linear()[1] - before.u[i][1]) <= Tol) & (std::abs(t.v[i].angular() - before.o[i]) <= Tol);
    sx::check("bodies that separate are left alone", implies(apart, same));
    bool held = false;
    for (int i = 0; i < n; ++i) held = held | (std::abs(now[i]) <= Tol);
    sx::check("impulses are given to stop a contact only", same | held);
    before.kept(t);
}
// the complementarity per contact: an impulse in a contact only when it is stopped there
SX_HARNESS(pair, "rounding")
{
    Touch t{sx::choose("touch", 3), 0, 0};
    t.velocities();
    Before before{t};
    sx::check("faces touch in two points", t.info.nContacts == 2);
    Proxies x = t.proxies();
    t.c->initSolve(x);
    t.c->solveVelocities(x, 0.125f);
    // impulses of the two contacts from the force and its moment on the dynamic body
    int k     = t.structural(0) ? 1 : 0;
    Vec2 c    = t.p[k].centroid(), n = t.info.normal;
    Vec2 p0   = k ? t.info.refContacts[0] : t.info.incContacts[0], p1 = k ? t.info.refContacts[1] : t.info.incContacts[1];
    Vec2 j    = t.impulse(before);
    float sum = dot(j, n);
    float l   = (k ? -1 : 1) * t.inertia[k] * (t.v[k].angular() - before.o[k]);
    float a0 = cross(p0 - c, n), a1 = cross(p1 - c, n);
    float l1 = (l - sum * a0) / (a1 - a0), l0 = sum - l1;
    sx::check("each contact only pushes", (l0 >= -Tol) & (l1 >= -Tol));
    sx::check("a contact pushes only while its bodies do not separate", ((l0 <= Tol) | (t.separating(0) <= Tol)) & ((l1 <= Tol) | (t.separating(1) <= Tol)));
}
SX_HARNESS(bounce, "rounding")
{
    float e = sx::choose("bounciness", 3) * 0.5f;
    Touch t{sx::choose("corner", 2) + 3, e, 0};
    sx::check("corners touch in one point", t.info.nContacts == 1);
    t.velocities();
    Before before{t};
    float was = t.separating(0);
    sx::assume((was > -0.99f) | (was < -1.01f));
    Proxies x = t.proxies();
    t.c->initSolve(x);
    t.c->solveVelocities(x, 0.125f);
    float now = t.separating(0), slow = was > -1 ? std::max(was, 0.f) : -e * was;
    near("a fast impact bounces with the coefficient of restitution", now, slow, Tol);
    before.kept(t);
}
SX_HARNESS(anyBounce, "rounding")
{
    float e = sx::real("bounciness", 0, 1);
    Touch t{3, e, 0};
    sx::assume(t.info.nContacts == 1);
    float v = sx::real("v", -10, 10);
    t.v[1]  = Velocity{Vec2{0, v}, 0};
    sx::assume((v < -1.01f) | (v > -0.99f));
    Proxies x = t.proxies();
    t.c->initSolve(x);
    t.c->solveVelocities(x, 0.125f);
    near("a fast impact bounces with the coefficient of restitution", t.v[1].linear()[1], v >= 0 ? v : v > -1 ? 0.f : -e * v, Tol);
    sx::check("an impact gives no energy", t.v[1].linear()[1] * t.v[1].linear()[1] <= v * v + 0.1f);
}
SX_HARNESS(pairBounce, "rounding")
{
    float e = sx::choose("bounciness", 3) * 0.5f;
    Touch t{sx::choose("touch", 3), e, 0};
    // approaching without spin: both contacts alike
    t.v[0] = Velocity{realVec("v", -10, 10), 0};
    t.v[1] = Velocity{realVec("v", -10, 10), 0};
    float was = t.separating(0);
    sx::assume(was < -1.01f);
    Proxies x = t.proxies();
    t.c->initSolve(x);
    t.c->solveVelocities(x, 0.125f);
    for (unsigned i = 0; i < t.info.nContacts; ++i) sx::check("a fast impact bounces off at least with the coefficient of restitution", t.separating(i) >= -e * was - Tol);
    near("a fast impact bounces with the coefficient of restitution", std::min(t.separating(0), t.separating(1)), -e * was, Tol);
}
SX_HARNESS(friction, "rounding")
{
    float mu = sx::choose("friction", 3) * 0.5f;
    Touch t{sx::choose("touch", Touches), 0, mu};
    t.velocities();
    Before before{t};
    Proxies x = t.proxies();
    t.c->initSolve(x);
    t.c->solveVelocities(x, 0.125f);
    float push = dot(t.impulse(before), t.info.normal);
    near("friction needs a normal impulse", cross(t.impulse(before), t.info.normal), 0, Tol);
    t.c->solveVelocities(x, 0.125f);
    float drag = cross(t.impulse(before), t.info.normal);
    sx::check("friction is bounded by its coefficient times the normal impulse", (drag <= mu * push + Tol) & (drag >= -mu * push - Tol));
    // friction acts at points of both bodies, which are as far apart as the bodies overlap
    before.kept(t, 0.08f * std::abs(drag));
}
// below the center of mass friction and normal do not mix: sliding is stopped as far as the bound allows
SX_HARNESS(sliding, "rounding")
{
    float mu = sx::choose("friction", 4) * 0.25f;
    Touch t{3, 0, mu};
    t.velocities();
    Before before{t};
    Vec2 tangent{-t.info.normal[1], t.info.normal[0]};
    Proxies x = t.proxies();
    t.c->initSolve(x);
    t.c->solveVelocities(x, 0.125f);
    float push = dot(t.impulse(before), t.info.normal), slide = dot(tangent, t.relative(0));
    t.c->solveVelocities(x, 0.125f);
    Vec2 p  = t.info.refContacts[0] - t.p[1].centroid();
    float r = cross(p, tangent), k = 1 / t.mass[1] + r * r / t.inertia[1];
    float need = -slide / k, got = std::max(-mu * push, std::min(need, mu * push));
    near("friction stops sliding as far as its bound allows", dot(tangent, t.relative(0)), slide + k * got, Tol);
}
// successive steps: impulses given in advance are taken back when they are not needed
SX_HARNESS(warm, "rounding")
{
    Touch t{sx::choose("touch", Touches), 0, 0};
    t.velocities();
    Proxies x = t.proxies();
    t.c->initSolve(x);
    t.c->solveVelocities(x, 0.125f);
    t.velocities();
    Before before{t};
    int n = t.info.nContacts;
    bool apart = true;
    for (int i = 0; i < n; ++i) apart = apart & (t.separating(i) >= Tol);
    t.c->initSolve(x);
    t.c->warmstart(x, 0.125f);
    t.c->solveVelocities(x, 0.125f);
    for (int i = 0; i < n; ++i) sx::check("bodies do not approach at a contact", t.separating(i) >= -Tol);
    sx::check("contacts only push", dot(t.impulse(before), t.info.normal) >= -Tol);
    bool same = true;
    for (int i = 0; i < 2; ++i) same = same & (std::abs(t.v[i].linear()[0] - before.u[i][0]) <= Tol) & (std::abs(t.v[i].linear()[1] - before.u[i][1]) <= Tol);
    sx::check("impulses given in advance are taken back from bodies that separate", implies(apart, same));
    before.kept(t);
}
// overlap is reduced, by a fifth up to the tolerance and never beyond it
SX_HARNESS(overlap, "rounding")
{
    float sink = sx::real("sink", 0, 0.9f);
    int k      = sx::choose("touch", 2) ? 0 : 2;
    Touch t{k, 0, 0, sink, 0.01f};
    Proxies x = t.proxies();
    float depth = 0.01f + sink, pen = 0.005f;
    auto gap = [&] { return k ? t.p[1].centroid()[0] - t.p[0].centroid()[0] - 2 : t.p[1].centroid()[1] - 1; };
    t.c->solvePositions(x);
    float moved = gap() + depth;
    float wanted = depth < 3 * pen ? 0.f : std::min(0.2f * (depth - pen), 0.2f);
    sx::assume((depth < 3 * pen - 0.001f) | (depth > 3 * pen + 0.001f));
    near("position correction takes back a part of the overlap", moved, wanted, 0.01f);
    if (t.structural(0)) nearVec("a structural body is not moved", t.p[0].position(), t.b[0]->position(), 0);
    near("correction of a face does not turn it", t.p[1].orientation() * (k ? 0 : 1), 0, 0.01f);
}
