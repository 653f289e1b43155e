//! bound: bodies of one or two colliders of any density in [1/8, 8] at any position and orientation; any velocity, impulse, force, point of application and time step (real, |x| <= 20); up to two free steps
//! assume: exact real arithmetic with exact sine and cosine (rounding excluded)
#include "worlds.hpp"

namespace
{
constexpr float Tol = 2e-2f;
Body* free(World& w)
{
    Body* b = makeBody(w, realVec("p", -20, 20), sx::real("a", -6, 6), 1, sx::real("density", 0.125f, 8));
    b->setVelocity(realVec("v", -20, 20));
    b->setAngularVelocity(sx::real("w", -20, 20));
    return b;
}
} // namespace

SX_HARNESS(setters, "rounding")
{
    World w;
    Body* b = free(w);
    State s{b};
    Vec2 v  = realVec("nv", -20, 20);
    float o = sx::real("no", -20, 20);
    b->setVelocity(v);
    eqVec("the velocity is set", b->velocity(), v);
    sx::eq("setting the velocity keeps the angular velocity", b->angularVelocity(), s.w);
    b->setAngularVelocity(o);
    sx::eq("the angular velocity is set", b->angularVelocity(), o);
    eqVec("setting the angular velocity keeps the velocity", b->velocity(), v);
    eqVec("the position is kept", b->position(), s.p);
    sx::eq("the orientation is kept", b->orientation(), s.a);
}
SX_HARNESS(impulse, "rounding")
{
    World w;
    Body* b = free(w);
    State s{b};
    Vec2 j = realVec("j", -20, 20), r = realVec("r", -20, 20);
    b->applyImpulse(j, r);
    eqVec("an impulse changes the momentum by itself", (b->velocity() - s.v) * b->mass(), j, Tol);
    sx::eq("an impulse changes the angular momentum by its moment", (b->angularVelocity() - s.w) * b->inertia(), r[0] * j[1] - r[1] * j[0], Tol);
    eqVec("an impulse keeps the position", b->position(), s.p);
    sx::eq("an impulse keeps the orientation", b->orientation(), s.a);
}
SX_HARNESS(central, "rounding")
{
    World w;
    Body* b = free(w);
    State s{b};
    Vec2 j = realVec("j", -20, 20);
    b->applyImpulse(j);
    eqVec("a central impulse changes the momentum by itself", (b->velocity() - s.v) * b->mass(), j, Tol);
    sx::eq("a central impulse does not spin", b->angularVelocity(), s.w);
}
SX_HARNESS(force, "rounding")
{
    World w;
    Body* b = free(w);
    State s{b};
    Vec2 f = realVec("f", -20, 20), r = realVec("r", -20, 20);
    float dt = sx::real("dt", 0, 2);
    b->applyForce(f, dt, r);
    eqVec("a force changes the momentum by its impulse", (b->velocity() - s.v) * b->mass(), f * dt, Tol);
    sx::eq("a force changes the angular momentum by its moment", (b->angularVelocity() - s.w) * b->inertia(), (r[0] * f[1] - r[1] * f[0]) * dt, Tol);
    b->applyForce(f, dt);
    eqVec("a central force changes the momentum by its impulse", (b->velocity() - s.v) * b->mass(), f * (2 * dt), Tol);
}
SX_HARNESS(masses, "rounding")
{
    World w;
    float d = sx::real("density", 0.125f, 8);
    Body* b = makeBody(w, Vec2{1, 2}, 0, 1, d);
    sx::eq("mass is density times area", b->mass(), 4 * d, Tol);
    float excess = 3 * b->inertia() - 8 * d;
    sx::check("inertia is density times second moment", (excess <= 0.01f * d) & (excess >= -0.01f * d));
    sx::eq("inverse mass", b->invMass() * b->mass(), 1, Tol);
    sx::eq("inverse inertia", b->invInertia() * b->inertia(), 1, Tol);
}
// free motion
namespace
{
void motion(Body* b, World& w, float dt)
{
    State s{b};
    w.step(dt);
    eqVec("a free body keeps its velocity", b->velocity(), s.v, Tol);
    sx::eq("a free body keeps its angular velocity", b->angularVelocity(), s.w, Tol);
    eqVec("a free body advances by velocity times time", b->position(), s.p + s.v * dt, Tol);
    sx::eq("a free body turns by angular velocity times time", b->orientation(), s.a + s.w * dt, Tol);
    eqVec("the center of mass advances by velocity times time", b->centroid(), s.c + s.v * dt, Tol);
}
} // namespace
// a body without a collider: no geometry to turn
SX_HARNESS(bare, "rounding")
{
    World w;
    BodyDescriptor d{};
    d.position    = realVec("p", -20, 20);
    d.orientation = sx::real("a", -6, 6);
    d.dominance   = sx::choose("structural", 2) ? 0.f : 1.f;
    Body* b       = w.makeBody(d);
    b->setVelocity(realVec("v", -20, 20));
    b->setAngularVelocity(sx::real("w", -20, 20));
    float dt = sx::real("dt", 0.0078125f, 2);
    motion(b, w, dt);
    motion(b, w, dt);
}
SX_HARNESS(translating, "rounding")
{
    World w;
    Body* b = makeBody(w, realVec("p", -20, 20), 0, 1, 2);
    b->setVelocity(realVec("v", -20, 20));
    float dt = sx::real("dt", 0.0078125f, 2);
    motion(b, w, dt);
    motion(b, w, dt);
}
SX_HARNESS(turning, "rounding")
{
    World w;
    Body* b = makeBody(w, Vec2{1, 2}, 0, 1, 2);
    b->setVelocity(Vec2{3, -4});
    b->setAngularVelocity(sx::real("w", -6, 6));
    motion(b, w, 0.5f);
}
SX_HARNESS(still, "rounding")
{
    World w;
    Body* b = free(w);
    State s{b};
    float dt = sx::real("dt", -2, 0);
    w.step(dt);
    eqState("nothing moves in no time", b, s);
}
// rotation around the center of mass, not around the origin of the body
SX_HARNESS(offCenter, "rounding")
{
    World w;
    BodyDescriptor d{};
    d.position = realVec("p", -20, 20);
    Body* b    = w.makeBody(d);
    b->addCollider(ColliderDescriptor{rect(2, 1, 4, 3), dense(2)});
    eqVec("the center of mass is that of the geometry", b->centroid(), d.position + Vec2{3, 2}, Tol);
    Vec2 v  = realVec("v", -20, 20);
    float o = sx::real("w", -3, 3);
    b->setVelocity(v);
    b->setAngularVelocity(o);
    w.step(1.f);
    eqVec("the center of mass moves with the velocity", b->centroid(), d.position + Vec2{3, 2} + v, Tol);
    Vec2 l  = realVec("l", -5, 5);
    Vec2 r  = b->toWorldSpace() * l - b->centroid();
    float c = std::cos(o), n = std::sin(o);
    Vec2 q  = l - Vec2{3, 2};
    eqVec("points turn around the center of mass", r, Vec2{c * q[0] - n * q[1], n * q[0] + c * q[1]}, Tol);
    eqVec("local space inverts world space", b->toLocalSpace() * (b->toWorldSpace() * l), l, Tol);
}
