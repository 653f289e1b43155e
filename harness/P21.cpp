//! bound: pairs of bodies in five placements (turned, of different mass, dominance and structural) with any velocities (real, |v| <= 10), shared points and errors; up to eight solver iterations; colliders added and removed while held
//! assume: exact real arithmetic (rounding excluded beyond a tolerance of 0.02)
#include "rigs.hpp"

namespace
{
constexpr float Tol = 2e-2f;
Vec2 sharedPoint(int k)
{
    switch (k)
    {
    case 0: return Vec2{1, 1};
    case 1: return Vec2{-3, 2.5f};
    default: return Vec2{2, 0};
    }
}
void solve(Constraint& c, Rig& r, int n, float dt = 0.125f)
{
    Proxies x = r.proxies();
    c.initSolve(x);
    for (int i = 0; i < n; ++i) c.solveVelocities(x, dt);
}
} // namespace

SX_HARNESS(hinge, "rounding")
{
    Rig& r = *rig(sx::choose("rig", Rigs));
    Vec2 s = sharedPoint(sx::choose("point", 3));
    HingeConstraint c{r.bodies(), s};
    r.velocities();
    Before before{r};
    solve(c, r, 1 + sx::choose("iterations", 2));
    nearVec("hinged points move together", r.velocityAt(0, s), r.velocityAt(1, s), Tol);
    before.kept(r);
    Before after{r};
    solve(c, r, 1);
    after.same("solving a satisfied constraint changes nothing", r, Tol);
}
SX_HARNESS(rotation, "rounding")
{
    Rig& r = *rig(sx::choose("rig", Rigs));
    RotationConstraint c{r.bodies()};
    r.velocities();
    Before before{r};
    solve(c, r, 1);
    near("bodies of a rotation constraint turn together", r.v[0].angular(), r.v[1].angular(), Tol);
    nearVec("a rotation constraint does not act on the velocity", r.v[0].linear(), before.u[0], 0);
    nearVec("a rotation constraint does not act on the velocity", r.v[1].linear(), before.u[1], 0);
    before.kept(r);
}
SX_HARNESS(weld, "rounding")
{
    Rig& r = *rig(sx::choose("rig", Rigs));
    WeldConstraint c{r.bodies()};
    r.velocities();
    Before before{r};
    solve(c, r, 1);
    near("welded bodies turn together", r.v[0].angular(), r.v[1].angular(), Tol);
    Vec2 s{sx::real("sx", -3, 3), sx::real("sy", -3, 3)};
    nearVec("welded bodies move as one", r.velocityAt(0, s), r.velocityAt(1, s), 0.1f);
    before.kept(r);
}
// the weight of the last impulse: warm starting a repeated solve gives the same velocities
SX_HARNESS(warm, "rounding")
{
    Rig& r = *rig(sx::choose("rig", Rigs));
    Vec2 s = sharedPoint(sx::choose("point", 3));
    HingeConstraint h{r.bodies(), s};
    RotationConstraint o{r.bodies()};
    Constraint& c = sx::choose("kind", 2) ? static_cast<Constraint&>(h) : static_cast<Constraint&>(o);
    r.velocities();
    Before first{r};
    solve(c, r, 1);
    Velocity solved[2] = {r.v[0], r.v[1]};
    for (int i = 0; i < 2; ++i) r.v[i] = Velocity{first.u[i], first.o[i]};
    Proxies x = r.proxies();
    c.initSolve(x);
    c.warmstart(x, 0.125f);
    for (int i = 0; i < 2; ++i)
    {
        nearVec("warm starting repeats the last impulse", r.v[i].linear(), solved[i].linear(), Tol);
        near("warm starting repeats the last impulse", r.v[i].angular(), solved[i].angular(), Tol);
    }
    c.solveVelocities(x, 0.125f);
    for (int i = 0; i < 2; ++i)
    {
        nearVec("warm starting does not change the solution", r.v[i].linear(), solved[i].linear(), Tol);
        near("warm starting does not change the solution", r.v[i].angular(), solved[i].angular(), Tol);
    }
    // from other velocities as well
    r.velocities();
    Before other{r};
    c.initSolve(x);
    c.warmstart(x, 0.125f);
    c.solveVelocities(x, 0.125f);
    Velocity warm[2] = {r.v[0], r.v[1]};
    for (int i = 0; i < 2; ++i) r.v[i] = Velocity{other.u[i], other.o[i]};
    solve(c, r, 1);
    for (int i = 0; i < 2; ++i)
    {
        nearVec("warm starting does not change the solution", warm[i].linear(), r.v[i].linear(), 0.1f);
        near("warm starting does not change the solution", warm[i].angular(), r.v[i].angular(), 0.1f);
    }
}
// drift
SX_HARNESS(rotationDrift, "rounding")
{
    Rig& r = *rig(sx::choose("rig", Rigs));
    RotationConstraint c{r.bodies()};
    float initial = r.p[1].orientation() - r.p[0].orientation();
    float e0 = sx::real("e", -3, 3), e1 = sx::real("e", -3, 3);
    r.p[0] = Position{r.b[0]->position(), r.b[0]->orientation() + e0, r.b[0]->localCentroid()};
    r.p[1] = Position{r.b[1]->position(), r.b[1]->orientation() + e1, r.b[1]->localCentroid()};
    Proxies x = r.proxies();
    c.initSolve(x);
    c.solvePositions(x);
    near("position correction restores the angle", r.p[1].orientation() - r.p[0].orientation(), initial, Tol);
    for (int i = 0; i < 2; ++i)
        if (r.structural(i)) near("a structural body is not moved", r.p[i].orientation(), r.b[i]->orientation() + (i ? e1 : e0), 0);
}
SX_HARNESS(hingeDrift, "rounding")
{
    // hinged at the centers: correction is a translation
    Rig& r = *rig(sx::choose("rig", Rigs));
    Body *a = r.b[0], *b = r.b[1];
    Vec2 s = a->position();
    // the second body is placed on the first one
    r.p[1] = Position{s, b->orientation(), b->localCentroid()};
    Vec2 e = realVec("e", -5, 5);
    World w2;
    Body* c0 = makeBody(w2, s, a->orientation(), a->dominance(), 1);
    Body* c1 = makeBody(w2, s, b->orientation(), b->dominance(), 2);
    HingeConstraint c{Bodies{c0, c1}, s};
    r.p[0] = Position{s, c0->orientation(), Vec2{}};
    r.p[1] = Position{s + e, c1->orientation(), Vec2{}};
    Proxies x{SolverProxy{&r.p[0], &r.v[0]}, SolverProxy{&r.p[1], &r.v[1]},
              InvMasses{c0->dominance() * c0->invMass(), c0->dominance() * c0->invInertia(), c1->dominance() * c1->invMass(), c1->dominance() * c1->invInertia()}};
    c.initSolve(x);
    c.solvePositions(x);
    nearVec("position correction brings the points together", r.p[0].centroid(), r.p[1].centroid(), Tol);
    for (int i = 0; i < 2; ++i)
        if (r.structural(i)) nearVec("a structural body is not moved", r.p[i].position(), i ? s + e : s, 0);
}
// the jacobian is the derivative of the constraint
SX_HARNESS(jacobian, "rounding")
{
    Rig& r = *rig(sx::choose("rig", Rigs));
    Vec2 s = sharedPoint(sx::choose("point", 3));
    HingeConstraintFunction f{r.bodies(), s};
    RotationConstraintFunction g{r.bodies()};
    Proxies x = r.proxies();
    nearVec("a constraint is satisfied where it is created", f.eval(x), Vec2{0, 0}, Tol);
    near("a constraint is satisfied where it is created", g.eval(x)[0], 0, Tol);
    r.velocities();
    Vec2 rate = f.jacobian(x) * x.velocity();
    nearVec("the hinge's jacobian is its derivative", rate, r.velocityAt(1, s) - r.velocityAt(0, s), Tol);
    near("the rotation's jacobian is its derivative", (g.jacobian(x) * x.velocity())[0], r.v[1].angular() - r.v[0].angular(), Tol);
    WeldConstraintFunction both{f, g};
    auto all = both.jacobian(x) * x.velocity();
    nearVec("a composition has the rows of its parts", Vec2{all[0], all[1]}, rate, Tol);
    near("a composition has the rows of its parts", all[2], r.v[1].angular() - r.v[0].angular(), Tol);
    // moved bodies
    Vec2 d0 = realVec("d", -5, 5), d1 = realVec("d", -5, 5);
    r.p[0].advance(d0, 0);
    r.p[1].advance(d1, 0);
    nearVec("the hinge's value is the distance of its points", f.eval(x), d1 - d0, Tol);
    auto e = both.eval(x);
    nearVec("a composition has the values of its parts", Vec2{e[0], e[1]}, d1 - d0, Tol);
    near("a composition has the values of its parts", e[2], 0, Tol);
}
// in a world
SX_HARNESS(stepped, "rounding")
{
    World w;
    float d0 = sx::choose("dominance", 3), d1 = sx::choose("dominance", 3);
    sx::assume(d0 + d1 > 0);
    Body* a = makeBody(w, Vec2{0, 0}, 0, d0, 1);
    Body* b = makeBody(w, Vec2{50, 0}, 0, d1, 3);
    w.makeConstraint<DistanceConstraint>(Bodies{a, b}, std::array<Vec2, 2>{Vec2{0, 0}, Vec2{50, 0}});
    float va = sx::real("v", -4, 4), vb = sx::real("v", -4, 4);
    a->setVelocity(Vec2{va, 0});
    b->setVelocity(Vec2{vb, 0});
    World::Settings s  = w.settings();
    s.nPositionIterations = 0;
    s.enableWarmstarting = sx::choose("warm", 2);
    w.updateSettings(s);
    s.nVelocityIterations = 1 << sx::choose("iterations", 4);
    w.updateSettings(s);
    {
        w.step(0.125f);
        near("bodies at a fixed distance move together", a->velocity()[0], b->velocity()[0], Tol);
        if (d0 == 0) near("a structural body keeps its velocity", a->velocity()[0], va, 0);
        else if (d1 == 0) near("a structural body keeps its velocity", b->velocity()[0], vb, 0);
        else near("dominance weighs the momentum", 4 / d0 * a->velocity()[0] + 12 / d1 * b->velocity()[0], 4 / d0 * va + 12 / d1 * vb, 0.1f);
        near("there is no motion across", a->velocity()[1], 0, Tol);
        near("there is no spin", b->angularVelocity(), 0, Tol);
    }
}
// bodies that gain or lose matter while they are held
SX_HARNESS(changed, "rounding")
{
    World w;
    Body* a = makeBody(w, Vec2{0, 0}, 0, 1, 1);
    Body* b = makeBody(w, Vec2{50, 0}, 0, 1, 3);
    int kind = sx::choose("change", 4);
    Collider* extra = kind == 2 ? a->addCollider(ColliderDescriptor{rect(-1, -1, 1, 1)}) : nullptr;
    Body* c = kind == 3 ? w.makeBody(BodyDescriptor{Vec2{0, 0}}) : a; // made without matter
    w.makeConstraint<DistanceConstraint>(Bodies{c, b}, std::array<Vec2, 2>{Vec2{0, 0}, Vec2{50, 0}});
    float va = sx::real("v", -4, 4), vb = sx::real("v", -4, 4);
    World::Settings s       = w.settings();
    s.nPositionIterations   = 0;
    w.updateSettings(s);
    if (sx::choose("step first", 2) && kind != 3) w.step(0.125f);
    switch (kind)
    {
    case 0: a->addCollider(ColliderDescriptor{rect(-1, -1, 1, 1)}); break;
    case 1: b->addCollider(ColliderDescriptor{rect(-1, -1, 1, 1)}); break;
    case 2: a->removeCollider(extra); break;
    default: a->setVelocity(Vec2{0, 0}), a->removeCollider(const_cast<Collider*>(&*a->colliders().begin())), c->addCollider(ColliderDescriptor{rect(-1, -1, 1, 1)}); break;
    }
    c->setVelocity(Vec2{va, 0});
    b->setVelocity(Vec2{vb, 0});
    w.step(0.125f);
    near("bodies at a fixed distance move together", c->velocity()[0], b->velocity()[0], Tol);
    near("the momentum of the present masses is kept", c->mass() * c->velocity()[0] + b->mass() * b->velocity()[0], c->mass() * va + b->mass() * vb, 0.1f);
}
