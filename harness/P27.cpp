//! bound: worlds of two or three bodies with a contact, distances and gravity between them, all velocities (real, |v| <= 8), every combination of dominances out of five values, up to three steps; structural bodies with and without colliders, at rest and moving
//! assume: exact real arithmetic (rounding excluded beyond a tolerance of 0.02); bodies placed so that nothing spins
#include "worlds.hpp"

namespace
{
constexpr float Tol = 0.02f, Dt = 0.0625f;
const float Dominances[5] = {0, 0.25f, 1, 2, 8};
struct Line
{
    World w;
    Body* add(float x, float dominance, float density, float v, bool collider = true)
    {
        BodyDescriptor d{};
        d.position  = Vec2{x, 0};
        d.dominance = dominance;
        Body* b     = w.makeBody(d);
        if (collider)
        {
            ColliderDescriptor c{square(), dense(density)};
            c.material.friction.value = 0;
            b->addCollider(c);
        }
        b->setVelocity(Vec2{v, 0});
        return b;
    }
    void hold(Body* a, Body* b, std::optional<Bodies::Dominance> d = std::nullopt)
    {
        w.makeConstraint<DistanceConstraint>(Bodies{{a, b}, d}, std::array<Vec2, 2>{a->position(), b->position()});
    }
    void settings(unsigned positions)
    {
        World::Settings s     = w.settings();
        s.nPositionIterations = positions;
        w.updateSettings(s);
    }
};
} // namespace

// a body that runs into another
SX_HARNESS(impact, "rounding")
{
    Line l;
    float d0 = Dominances[sx::choose("dominance", 5)], d1 = Dominances[sx::choose("dominance", 5)];
    sx::assume(d0 + d1 > 0);
    l.settings(sx::choose("positions", 2) * 2);
    float va = sx::real("v", -8, 8), vb = sx::real("v", -8, 8);
    bool pull = sx::choose("gravity", 2);
    if (pull) l.w.makeForceField<Gravity>(Vec2{sx::real("g", -8, 8), 0});
    Body* a = l.add(0, d0, 1, 0);
    Body* b = l.add(1.875f, d1, 2, 0);
    l.w.step(Dt); // finds the contact
    sx::check("overlapping bodies have a contact", !a->contacts().empty());
    a->setVelocity(Vec2{va, 0});
    b->setVelocity(Vec2{vb, 0});
    Vec2 pa = a->position(), pb = b->position();
    l.w.step(Dt);
    if (d0 == 0)
    {
        nearVec("a structural body keeps its velocity", a->velocity(), Vec2{va, 0}, 0);
        nearVec("a structural body moves by its velocity", a->position(), pa + Vec2{va, 0} * Dt, 1e-4f);
    }
    if (d1 == 0)
    {
        nearVec("a structural body keeps its velocity", b->velocity(), Vec2{vb, 0}, 0);
        nearVec("a structural body moves by its velocity", b->position(), pb + Vec2{vb, 0} * Dt, 1e-4f);
    }
    sx::check("bodies do not approach at a contact", b->velocity()[0] - a->velocity()[0] >= -Tol);
    if (!pull && d0 != 0 && d1 != 0)
        near("dominance weighs the momentum", 4 / d0 * a->velocity()[0] + 8 / d1 * b->velocity()[0], 4 / d0 * va + 8 / d1 * vb, 0.05f);
    if (!pull) near("bodies that separate are left alone", (vb >= va ? 1 : 0) * (b->velocity()[0] - vb), 0, Tol);
}
// anchors
SX_HARNESS(anchor, "rounding")
{
    Line l;
    l.settings(sx::choose("positions", 2) * 2);
    bool collider = sx::choose("collider", 2), order = sx::choose("order", 2), moving = sx::choose("moving", 2);
    float va      = moving ? sx::real("anchor", -8, 8) : 0.f;
    Body* a = l.add(0, 0, 1, va, collider);
    Body* b = l.add(20, Dominances[1 + sx::choose("dominance", 4)], 1, 0);
    float vb = sx::real("v", -8, 8);
    b->setVelocity(Vec2{vb, 0});
    if (order) l.hold(a, b);
    else l.hold(b, a);
    bool pull = sx::choose("gravity", 2);
    if (pull) l.w.makeForceField<Gravity>(Vec2{sx::real("g", -8, 8), 0});
    for (int i = 1; i <= 2; ++i)
    {
        l.w.step(Dt);
        nearVec("a structural body keeps its velocity", a->velocity(), Vec2{va, 0}, 0);
        nearVec("a structural body moves by its velocity", a->position(), Vec2{va * Dt * i, 0}, 1e-4f);
        nearVec("a held body follows its anchor", b->velocity(), Vec2{va, 0}, Tol);
        if (i == 1) nearVec("a held body follows its anchor", b->position(), Vec2{20 + va * Dt * i, 0}, Tol);
    }
}
// dominances given for one constraint
SX_HARNESS(overridden, "rounding")
{
    Line l;
    l.settings(0);
    float va = sx::real("v", -8, 8), vb = sx::real("v", -8, 8);
    float own = sx::choose("own", 2) ? 1.f : 4.f;
    Body* a = l.add(0, own, 1, va);
    Body* b = l.add(20, 1, 3, vb);
    float d0 = Dominances[sx::choose("dominance", 5)], d1 = Dominances[sx::choose("dominance", 5)];
    sx::assume(d0 + d1 > 0);
    l.hold(a, b, Bodies::Dominance{d0, d1});
    l.w.step(Dt);
    near("bodies at a fixed distance move together", a->velocity()[0], b->velocity()[0], Tol);
    if (d0 == 0) near("a body is not affected by constraints it dominates", a->velocity()[0], va, Tol);
    else if (d1 == 0) near("a body is not affected by constraints it dominates", b->velocity()[0], vb, Tol);
    else near("dominance weighs the momentum", 4 / d0 * a->velocity()[0] + 12 / d1 * b->velocity()[0], 4 / d0 * va + 12 / d1 * vb, 0.1f);
}
// constraints need a body that can move
SX_HARNESS(refused, "")
{
    World w;
    float d0 = Dominances[sx::choose("dominance", 5)], d1 = Dominances[sx::choose("dominance", 5)];
    Body* a = makeBody(w, Vec2{0, 0}, 0, d0);
    Body* b = sx::choose("empty", 2) ? w.makeBody(BodyDescriptor{Vec2{10, 0}, 0, d1}) : makeBody(w, Vec2{10, 0}, 0, d1);
    float x = sx::real("x", 0, 10);
    bool made = true;
    try
    {
        if (sx::choose("hinge", 2)) w.makeConstraint<HingeConstraint>(Bodies{a, b}, Vec2{x, 0});
        else w.makeConstraint<RotationConstraint>(Bodies{a, b});
    }
    catch (const Exception&)
    {
        made = false;
    }
    sx::check("a constraint is made exactly if one of its bodies can move", made == (d0 != 0 || d1 != 0));
}
// one structural body that turns and holds bodies which have nothing else in common
SX_HARNESS(rotor, "rounding")
{
    World w;
    World::Settings s     = w.settings();
    s.nPositionIterations = 0;
    w.updateSettings(s);
    int n   = 1 + sx::choose("held", 3);
    Body* p = w.makeBody(BodyDescriptor{Vec2{0, 0}, 0, 0});
    std::vector<Body*> held;
    for (int i = 0; i < n; ++i)
    {
        held.push_back(makeBody(w, Vec2{10.f + 10 * i, 0}));
        w.makeConstraint<RotationConstraint>(sx::choose("order", 2) ? Bodies{p, held[i]} : Bodies{held[i], p});
    }
    float spin = sx::real("spin", -4, 4), v = sx::choose("moves", 2) ? sx::real("v", -8, 8) : 0.f;
    p->setAngularVelocity(spin);
    p->setVelocity(Vec2{v, 0});
    int i = 1;
    {
        w.step(Dt);
        nearVec("a structural body moves by its velocity", p->position(), Vec2{v * Dt * i, 0}, 1e-3f);
        near("a structural body turns by its velocity", p->orientation(), spin * Dt * i, 1e-3f);
        sx::check("a structural body keeps its velocity", (p->angularVelocity() == spin) & (p->velocity()[0] == v));
        for (Body* b : held) near("held bodies turn with it", b->angularVelocity(), spin, Tol);
    }
}
// momentum in a world
SX_HARNESS(chain, "rounding")
{
    Line l;
    bool touch = sx::choose("touch", 2);
    l.settings(touch ? 2 : 0);
    float v[3], p[3];
    Body* b[3];
    for (int i = 0; i < 3; ++i)
    {
        v[i] = sx::real("v", -8, 8);
        p[i] = 1 + i;
        b[i] = l.add(i * (touch ? 1.875f : 10.f), 1, p[i], 0);
    }
    if (touch)
    {
        l.w.step(Dt);
    }
    else
    {
        l.hold(b[0], b[1]);
        l.hold(b[1], b[2]);
    }
    float was = 0, now = 0, center = 0, moved = 0;
    for (int i = 0; i < 3; ++i)
    {
        b[i]->setVelocity(Vec2{v[i], 0});
        was += v[i] * p[i];
        center += p[i] * b[i]->position()[0];
    }
    l.w.step(Dt);
    for (int i = 0; i < 3; ++i)
    {
        now += b[i]->velocity()[0] * p[i];
        moved += p[i] * b[i]->position()[0];
        near("nothing moves across the line", b[i]->velocity()[1], 0, Tol);
        near("nothing spins on the line", b[i]->angularVelocity(), 0, Tol);
    }
    near("the total momentum of a step is kept", now, was, 0.05f);
    near("the center of mass moves by the total momentum", moved, center + was * Dt, 0.05f);
}
