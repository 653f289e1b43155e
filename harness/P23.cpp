//! bound: motors on a body of any mass with any velocity, maximal velocity, force, throttle and mass target (real, |x| <= 20), twelve directions, up to three successive solves with changing settings; mouse and damped constraints with any target, velocity, stiffness and damping
//! assume: exact real arithmetic (rounding excluded beyond a tolerance of 0.02)
#include "rigs.hpp"
#include "Simu/physics/Motors.hpp"
#include "Simu/app/MouseConstraint.hpp"

namespace
{
constexpr float Tol = 2e-2f;
constexpr float Dt  = 0.125f;
// one body, seen twice by the constraint
struct Single
{
    World w;
    Body* b;
    Position p;
    Velocity v;
    Proxies x;
    explicit Single(float density = 1, float angle = 0) : b{makeBody(w, Vec2{1, 2}, angle, 1, density)}, p{Vec2{1, 2}, angle, b->localCentroid()}
    {
        SolverProxy s{&p, &v};
        x = Proxies{s, s, InvMasses{b->invMass(), b->invInertia(), b->invMass(), b->invInertia()}};
    }
    Bodies bodies() { return Bodies::singleBody(b); }
};
// velocity after a drive toward target with an impulse of at most bound, signed
float driven(float v, float target, float bound, float mass)
{
    float need = (target - v) * mass;
    float j    = bound < 0 ? std::min(0.f, std::max(need, bound)) : std::max(0.f, std::min(need, bound));
    return v + j / mass;
}
Vec2 directionOf(int k)
{
    switch (k)
    {
    case 0: return Vec2{1, 0};
    case 1: return Vec2{-1, 0};
    case 2: return Vec2{0, 1};
    case 3: return Vec2{0, -2};
    case 4: return Vec2{3, 4};
    case 5: return Vec2{-0.75f, 1};
    case 6: return Vec2{-8, -6};
    default: return Vec2{0, 0};
    }
}
Vec2 unitOf(int k)
{
    switch (k)
    {
    case 0: return Vec2{1, 0};
    case 1: return Vec2{-1, 0};
    case 2: return Vec2{0, 1};
    case 3: return Vec2{0, -1};
    case 4: return Vec2{0.6f, 0.8f};
    case 5: return Vec2{-0.6f, 0.8f};
    case 6: return Vec2{-0.8f, -0.6f};
    default: return Vec2{0, 0};
    }
}
float clamped(float t) { return std::max(0.f, std::min(t, 1.f)); }
} // namespace

SX_HARNESS(rotation, "rounding")
{
    Single s{sx::choose("density", 2) ? 3.f : 1.f};
    float maxV = sx::real("maxVelocity", -20, 20), maxT = sx::real("maxTorque", -20, 20);
    RotationMotor m{s.bodies(), RotationMotor::Specs::fromTorque(maxV, maxT)};
    s.v = Velocity{realVec("v", -20, 20), sx::real("w", -20, 20)};
    Vec2 v = s.v.linear();
    float w = s.v.angular();
    static const float dirs[] = {1, -1, 2.5f, -0.5f, 0};
    int k    = sx::choose("direction", 5);
    float sg = dirs[k] > 0 ? 1.f : dirs[k] < 0 ? -1.f : 0.f;
    m.direction(RotationMotor::Value{dirs[k]});
    float throttle = 1;
    if (sx::choose("throttled", 2))
    {
        throttle = sx::choose("half", 2) ? 0.5f : sx::choose("beyond", 2) ? 3.f : -1.f;
        m.throttle(throttle);
        throttle = clamped(throttle);
        near("the throttle is clamped", m.throttle(), throttle, 0);
    }
    m.initSolve(s.x);
    int n = 1 + sx::choose("iterations", 3);
    for (int i = 0; i < n; ++i) m.solveVelocities(s.x, Dt);
    float expected = driven(w, sg * std::abs(maxV), sg * throttle * std::abs(maxT) * Dt, s.b->inertia());
    near("a rotation motor drives up to its velocity with at most its torque", s.v.angular(), expected, Tol);
    nearVec("a rotation motor does not act on the velocity", s.v.linear(), v, 0);
    m.solvePositions(s.x);
    nearVec("a motor does not move the body", s.p.position(), Vec2{1, 2}, 0);
    near("a motor does not move the body", s.p.orientation(), 0, 0);
}
SX_HARNESS(translation, "rounding")
{
    Single s{sx::choose("density", 2) ? 3.f : 1.f};
    float maxV = sx::real("maxVelocity", -20, 20), maxF = sx::real("maxForce", -20, 20);
    TranslationMotor m{s.bodies(), TranslationMotor::Specs::fromForce(maxV, maxF)};
    s.v    = Velocity{realVec("v", -20, 20), sx::real("w", -20, 20)};
    Vec2 v = s.v.linear();
    float w = s.v.angular();
    int k   = sx::choose("direction", 8);
    m.direction(directionOf(k));
    nearVec("the direction is normalized", m.direction(), unitOf(k), 1e-5f);
    m.initSolve(s.x);
    int n = 1 + sx::choose("iterations", 2);
    for (int i = 0; i < n; ++i) m.solveVelocities(s.x, Dt);
    for (int i = 0; i < 2; ++i)
    {
        float u = unitOf(k)[i];
        near("a translation motor drives up to its velocity with at most its force", s.v.linear()[i], driven(v[i], u * std::abs(maxV), u * std::abs(maxF) * Dt, s.b->mass()), Tol);
    }
    near("a translation motor does not spin the body", s.v.angular(), w, 0);
    m.solvePositions(s.x);
    nearVec("a motor does not move the body", s.p.position(), Vec2{1, 2}, 0);
}
SX_HARNESS(throttle, "rounding")
{
    Single s;
    TranslationMotor m{s.bodies(), TranslationMotor::Specs::fromForce(4, 16)};
    RotationMotor r{s.bodies(), RotationMotor::Specs::fromTorque(4, 16)};
    float t = sx::real("throttle", -2, 3);
    m.throttle(t);
    r.throttle(t);
    near("the throttle is clamped", m.throttle(), clamped(t), 0);
    near("the throttle is clamped", r.throttle(), clamped(t), 0);
    float v = sx::real("v", -10, 10);
    s.v     = Velocity{Vec2{v, 0}, v};
    m.direction(Vec2{1, 0});
    r.direction(RotationMotor::Value{-1.f});
    m.initSolve(s.x);
    r.initSolve(s.x);
    for (int i = 0; i < 2; ++i)
    {
        m.solveVelocities(s.x, Dt);
        r.solveVelocities(s.x, Dt);
    }
    near("the throttle scales the force", s.v.linear()[0], driven(v, 4, clamped(t) * 2, s.b->mass()), Tol);
    near("the throttle scales the torque", s.v.angular(), driven(v, -4, -clamped(t) * 2, s.b->inertia()), Tol);
}
// several steps with changing settings: every impulse is within the current bounds
namespace
{
void changing(int rounds)
{
    Single s;
    RotationMotor m{s.bodies(), RotationMotor::Specs::fromTorque(6, 16)};
    s.v = Velocity{Vec2{}, sx::real("w", -20, 20)};
    for (int i = 0; i < rounds; ++i)
    {
        int k   = sx::choose("direction", 3);
        float g = k == 0 ? 1.f : k == 1 ? -1.f : 0.f;
        float t = sx::choose("half throttle", 2) ? 0.5f : 1.f;
        m.direction(RotationMotor::Value{g});
        m.throttle(t);
        if (i == 1) s.v.increment(Vec2{}, sx::real("dw", -5, 5));
        float v = s.v.angular();
        m.initSolve(s.x);
        if (sx::choose("warm", 2)) m.warmstart(s.x, Dt);
        m.solveVelocities(s.x, Dt);
        near("a motor reaches the same velocity with or without warm start", s.v.angular(), driven(v, 6 * g, g * t * 2, s.b->inertia()), Tol);
    }
}
} // namespace
SX_HARNESS(changing, "rounding,quickonly") { changing(2); }
SX_HARNESS(changingMore, "rounding,thorough") { changing(3); }
SX_HARNESS(specs, "rounding")
{
    float d = sx::real("density", 0.125f, 8), a = sx::real("accel", 0, 20), t = sx::real("target", 0, 20), v = sx::real("maxVelocity", 0, 20);
    World w;
    Body* b   = makeBody(w, Vec2{0, 0}, 0, 1, d);
    Bodies bs = Bodies::singleBody(b);
    auto near1 = [](const char* l, float x, float y) { near(l, x, y, 0.05f); };
    auto r1 = RotationMotor::Specs::fromTorque(v, a);
    near1("torque is taken as given", r1.maxTorque(bs), a);
    near1("velocity is taken as given", r1.maxAngularVelocity(), v);
    near1("angular acceleration applies to the inertia of the body", RotationMotor::Specs::fromAccel(v, a).maxTorque(bs), a * b->inertia());
    near1("angular acceleration applies to the inertia given", RotationMotor::Specs::fromAccel(v, a, t).maxTorque(bs), a * t);
    near1("the torque of a force on a radius", RotationMotor::Specs::fromTargetForce(v, a, t).maxTorque(bs), a * t);
    near1("velocity is taken as given", RotationMotor::Specs::fromTargetForce(v, a, t).maxAngularVelocity(), v);
    near1("velocity is taken as given", RotationMotor::Specs::fromAccel(v, a).maxAngularVelocity(), v);
    near1("force is taken as given", TranslationMotor::Specs::fromForce(v, a).maxForce(bs), a);
    near1("acceleration applies to the mass of the body", TranslationMotor::Specs::fromAccel(v, a).maxForce(bs), a * b->mass());
    near1("acceleration applies to the mass given", TranslationMotor::Specs::fromAccel(v, a, t).maxForce(bs), a * t);
    near1("velocity is taken as given", TranslationMotor::Specs::fromAccel(v, a, t).maxVelocity(), v);
}
// in a world
SX_HARNESS(stepped, "rounding")
{
    World w;
    float dominance = sx::choose("dominance", 2) ? 1.f : 0.25f;
    Body* b = makeBody(w, Vec2{0, 0}, 0, dominance, 1);
    float maxV = sx::real("maxVelocity", 0, 20), accel = sx::real("accel", 0, 20);
    int k = sx::choose("direction", 6);
    auto* m = w.makeConstraint<TranslationMotor>(Bodies::singleBody(b), TranslationMotor::Specs::fromAccel(maxV, accel));
    m->direction(directionOf(k));
    World::Settings s    = w.settings();
    s.enableWarmstarting = sx::choose("warm", 2);
    w.updateSettings(s);
    b->setVelocity(realVec("v", -20, 20));
    for (int i = 0; i < 2; ++i)
    {
        Vec2 v = b->velocity(), p = b->position();
        w.step(Dt);
        for (int a = 0; a < 2; ++a)
            near("a motor accelerates the body by its acceleration up to its velocity", b->velocity()[a], driven(v[a], unitOf(k)[a] * maxV, unitOf(k)[a] * accel * Dt, 1), Tol);
        nearVec("the body moves with its new velocity", b->position(), p + b->velocity() * Dt, Tol);
    }
}

// constraints that give way
namespace
{
struct Soft : ConstraintImplementation<RotationConstraintFunction>
{
    Soft(const Bodies& b, float stiffness, float damping) : ConstraintImplementation<RotationConstraintFunction>{b, RotationConstraintFunction{b}, true}
    {
        solver.restitution() = Value{stiffness};
        solver.damping()     = Value{damping};
    }
};
} // namespace
SX_HARNESS(soft, "rounding")
{
    Rig& r      = *rig(sx::choose("rig", Rigs));
    float beta  = sx::real("stiffness", 0, 1), gamma = sx::choose("damped", 2) ? 0.5f : 0.f;
    Soft c{r.bodies(), beta, gamma};
    float e = sx::real("e", -3, 3);
    r.p[1]  = Position{r.b[1]->position(), r.b[1]->orientation() + e, r.b[1]->localCentroid()};
    r.velocities();
    Before before{r};
    Proxies x = r.proxies();
    c.initSolve(x);
    int n = 1 + sx::choose("iterations", 3);
    for (int i = 0; i < n; ++i) c.solveVelocities(x, Dt);
    int f        = r.structural(1) ? 0 : 1;
    float lambda = (f ? 1 : -1) * r.inertia[f] * (r.v[f].angular() - before.o[f]);
    near("damping and stiffness balance the motion", r.v[1].angular() - r.v[0].angular() + beta * e / Dt + gamma * lambda, 0, 0.1f);
    before.kept(r);
}
SX_HARNESS(mouse, "rounding")
{
    Single s{1, sx::choose("turned", 2) ? 0.75f : 0.f};
    Vec2 grab = sx::choose("grab", 2) ? Vec2{1, 2} : Vec2{1.5f, 2.75f};
    MouseConstraint m{s.b, grab};
    nearVec("the mouse grabs the body where it is", m.bodyPos(), grab, 1e-4f);
    Vec2 target = realVec("mouse", -20, 20);
    m.updateMousePos(target);
    nearVec("the mouse position is updated", m.mousePos(), target, 0);
    s.v    = Velocity{realVec("v", -20, 20), sx::real("w", -20, 20)};
    Vec2 v = s.v.linear();
    float w = s.v.angular();
    m.initSolve(s.x);
    for (int i = 0; i < 2; ++i) m.solveVelocities(s.x, Dt);
    Vec2 lambda = (s.v.linear() - v) * s.b->mass(), r = grab - Vec2{1, 2};
    Vec2 at = s.v.linear() + Vec2{-s.v.angular() * r[1], s.v.angular() * r[0]};
    nearVec("the mouse pulls the grabbed point toward it", at + (grab - target) * (0.1f / Dt) + lambda, Vec2{0, 0}, 0.1f);
    near("the mouse acts at the grabbed point", (s.v.angular() - w) * s.b->inertia(), r[0] * lambda[1] - r[1] * lambda[0], 0.1f);
    m.solvePositions(s.x);
    nearVec("the mouse does not move the body directly", s.p.position(), Vec2{1, 2}, 0);
}
