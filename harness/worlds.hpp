// Worlds with bodies made of simple shapes.
#pragma once
#include "common.hpp"
#include "Simu/physics.hpp"
using namespace h;

namespace
{
inline Polygon rect(float x0, float y0, float x1, float y1)
{
    return Polygon{Vertex{x0, y0}, Vertex{x1, y0}, Vertex{x1, y1}, Vertex{x0, y1}};
}
// a square of side 2 around the origin: area 4, second moment 8/3
inline Polygon square() { return rect(-1, -1, 1, 1); }
inline Material dense(float d)
{
    Material m{};
    m.density = d;
    return m;
}
inline Body* makeBody(World& w, Vec2 pos, float angle = 0, float dominance = 1, float density = 1)
{
    BodyDescriptor d{};
    d.position    = pos;
    d.orientation = angle;
    d.dominance   = dominance;
    Body* b       = w.makeBody(d);
    b->addCollider(ColliderDescriptor{square(), dense(density)});
    return b;
}
struct State
{
    Vec2 p, v, c;
    float a, w;
    explicit State(const Body* b) : p{b->position()}, v{b->velocity()}, c{b->centroid()}, a{b->orientation()}, w{b->angularVelocity()} {}
};
inline void eqState(const char* l, const Body* b, const State& s, float tol = 1e-3f)
{
    eqVec(l, b->position(), s.p, tol);
    eqVec(l, b->velocity(), s.v, tol);
    sx::eq(l, b->orientation(), s.a, tol);
    sx::eq(l, b->angularVelocity(), s.w, tol);
}
inline bool sameBits(const Body* b, const State& s)
{
    return (b->position()[0] == s.p[0]) & (b->position()[1] == s.p[1]) & (b->velocity()[0] == s.v[0])
           & (b->velocity()[1] == s.v[1]) & (b->orientation() == s.a) & (b->angularVelocity() == s.w);
}
} // namespace
