// Constraints driven directly on positions and velocities of their own.
#pragma once
#include "worlds.hpp"

namespace
{
struct Placement
{
    float x, y, angle, density, dominance;
};
// two bodies with positions and velocities for a solver
struct Rig
{
    World w;
    Body* b[2];
    std::vector<Position> p;
    Velocity v[2]{};
    InvMasses m;
    float mass[2], inertia[2]; // as seen by the constraint: infinite (0 here) when structural
    Rig() = default;
    // two squares placed concretely
    Rig(const Placement& x, const Placement& y)
    {
        const Placement* q[2] = {&x, &y};
        for (int i = 0; i < 2; ++i) b[i] = makeBody(w, Vec2{q[i]->x, q[i]->y}, q[i]->angle, q[i]->dominance, q[i]->density);
        setup();
    }
    void setup()
    {
        float d[2];
        for (int i = 0; i < 2; ++i)
        {
            p.push_back(Position{b[i]->position(), b[i]->orientation(), b[i]->localCentroid()});
            d[i]       = b[i]->dominance();
            mass[i]    = d[i] == 0 ? 0 : b[i]->mass() / d[i];
            inertia[i] = d[i] == 0 ? 0 : b[i]->inertia() / d[i];
        }
        m = InvMasses{d[0] * b[0]->invMass(), d[0] * b[0]->invInertia(), d[1] * b[1]->invMass(), d[1] * b[1]->invInertia()};
    }
    void velocities(float bound = 10)
    {
        for (int i = 0; i < 2; ++i) v[i] = Velocity{realVec("v", -bound, bound), sx::real("w", -bound, bound)};
    }
    Bodies bodies() { return Bodies{b[0], b[1]}; }
    Proxies proxies() { return Proxies{SolverProxy{&p[0], &v[0]}, SolverProxy{&p[1], &v[1]}, m}; }
    Vec2 velocityAt(int i, Vec2 world) const
    {
        Vec2 r = world - p[i].centroid();
        return v[i].linear() + Vec2{-v[i].angular() * r[1], v[i].angular() * r[0]};
    }
    bool structural(int i) const { return mass[i] == 0; }
    Vec2 momentum() const { return v[0].linear() * mass[0] + v[1].linear() * mass[1]; }
    float angularMomentum() const
    {
        float l = 0;
        for (int i = 0; i < 2; ++i)
        {
            Vec2 c = p[i].centroid(), u = v[i].linear();
            l += inertia[i] * v[i].angular() + mass[i] * (c[0] * u[1] - c[1] * u[0]);
        }
        return l;
    }
};
// what every pair of opposite impulses keeps
struct Before
{
    Vec2 p, u[2];
    float l, o[2];
    explicit Before(const Rig& r) : p{r.momentum()}, u{r.v[0].linear(), r.v[1].linear()}, l{r.angularMomentum()}, o{r.v[0].angular(), r.v[1].angular()} {}
    void kept(const Rig& r, float off = 0) const
    {
        if (r.structural(0) || r.structural(1))
        {
            int i = r.structural(0) ? 0 : 1;
            nearVec("a structural body keeps its velocity", r.v[i].linear(), u[i], 0);
            near("a structural body keeps its angular velocity", r.v[i].angular(), o[i], 0);
        }
        else
        {
            nearVec("the total momentum is kept", r.momentum(), p, 0.02f);
            near("the total angular momentum is kept", r.angularMomentum(), l, 0.1f + off);
        }
    }
    void same(const char* label, const Rig& r, float tol) const
    {
        for (int i = 0; i < 2; ++i)
        {
            nearVec(label, r.v[i].linear(), u[i], tol);
            near(label, r.v[i].angular(), o[i], tol);
        }
    }
};
inline Rig* rig(int k)
{
    switch (k)
    {
    case 0: return new Rig{{0, 0, 0, 1, 1}, {4, 0, 0, 1, 1}};
    case 1: return new Rig{{0, 0, 0.5f, 2, 1}, {3, 2, -1, 0.5f, 1}};
    case 2: return new Rig{{-1, 2, 0, 1, 0}, {2, 3, 0.25f, 3, 1}};
    case 3: return new Rig{{1, 1, 2, 1, 1}, {-2, 3, 0, 1, 0}};
    default: return new Rig{{0, -2, 1, 1, 0.25f}, {1, 2, -0.5f, 2, 2}};
    }
}
constexpr int Rigs = 5;
} // namespace
