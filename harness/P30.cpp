//! bound: worlds of one to three bodies, up to five steps; all velocities, thresholds, delays (real) with spins out of seven values; every event that wakes, over all velocities, force fields and regions (real); sleeping enabled and disabled in between
//! assume: exact real arithmetic (rounding excluded beyond a tolerance of 0.001); step 1/16 s; |v| <= 8, thresholds up to 4
#include "worlds.hpp"

namespace
{
constexpr float Dt = 0.0625f;
const float Spins[7] = {0, 0.25f, -0.25f, 1, -1, 2, -2};
struct Night
{
    World w;
    float tv = 1, tw = 1, delay = Dt;
    void enable(bool on = true)
    {
        World::Settings s               = w.settings();
        s.enableSleeping                = on;
        s.velocitySleepThreshold        = tv;
        s.angularVelocitySleepThreshold = tw;
        s.inactivitySleepDelay          = delay;
        w.updateSettings(s);
    }
    Body* body(float x, float y = 0, float dominance = 1) { return makeBody(w, Vec2{x, y}, 0, dominance); }
    void step() { w.step(Dt); }
};
// what a body should do
struct Sleeper
{
    Body* b;
    Night& n;
    bool enabled = true;
    int immobile = 0, counted = 0; // steps, while enabled
    bool may = false, must = false; // sleep
    bool still() const
    {
        float s = normSquared(b->velocity()), r = b->angularVelocity();
        return (s < n.tv * n.tv) & (r < n.tw) & (-r < n.tw);
    }
    void awake()
    {
        may = must = false;
        sx::check("a body given a velocity is awake", !b->isAsleep());
    }
    void step()
    {
        n.step();
        bool s   = known(still());
        immobile = s ? immobile + 1 : 0;
        counted  = s && enabled ? counted + 1 : 0;
        if (!enabled)
        {
            sx::check("nothing sleeps when sleeping is disabled", !b->isAsleep());
            return;
        }
        may  = s && (may || known(immobile * Dt >= n.delay));
        must = s && (must || known(counted * Dt >= n.delay));
        sx::check("moving or spinning bodies are awake", s || !b->isAsleep());
        sx::check("a body sleeps only after it was immobile for the delay", may || !b->isAsleep());
        sx::check("a body sleeps once it was immobile for the delay", !must || b->isAsleep());
    }
    void velocity(const char* name)
    {
        float v = sx::real(name, -8, 8);
        b->setVelocity(Vec2{v, -v / 2});
        awake();
    }
    void spin()
    {
        b->setAngularVelocity(Spins[sx::choose("spin", 7)]);
        awake();
    }
};
} // namespace

// who falls asleep and when
SX_HARNESS(delay, "rounding")
{
    Night n;
    n.tv    = sx::real("threshold", 0.0625f, 4);
    n.tw    = sx::real("spin threshold", 0.0625f, 4);
    n.delay = sx::real("delay", 0.03125f, 0.5f);
    Sleeper s{makeBody(n.w, Vec2{0, 0}), n};
    s.velocity("v");
    s.spin();
    n.enable();
    for (int i = 0; i < 3; ++i) s.step();
    switch (sx::choose("then", 3))
    {
    case 0: break;
    case 1: s.velocity("v2"); break;
    default: s.spin();
    }
    s.step();
    s.step();
}
// sleeping enabled and disabled
void toggles(int steps)
{
    Night n;
    n.delay = sx::real("delay", 0.03125f, 0.5f);
    Sleeper s{makeBody(n.w, Vec2{0, 0}), n};
    s.enabled = false;
    for (int i = 0; i < steps; ++i)
    {
        if (sx::choose("toggle", 2))
        {
            n.enable(!s.enabled);
            s.enabled = !s.enabled;
            if (!s.enabled) s.awake();
        }
        if (sx::choose("move", 2))
        {
            s.b->setVelocity(Vec2{sx::real("v", -8, 8), 0});
            s.awake();
        }
        s.step();
    }
}
SX_HARNESS(toggled, "rounding,quickonly") { toggles(3); }
SX_HARNESS(toggledMore, "rounding,thorough") { toggles(5); }
// forces act on the awake only
SX_HARNESS(forces, "rounding")
{
    Night n;
    float gx = sx::real("g", -8, 8);
    Vec2 g{gx, gx / 2};
    Body* a = n.body(0);
    Body* b = n.body(20);
    Vec2 va{sx::real("va", -8, 8), 0}, vb{0, sx::real("vb", -8, 8)};
    a->setVelocity(va);
    b->setVelocity(vb);
    n.enable();
    n.step();
    bool sa = a->isAsleep(), sb = b->isAsleep();
    sx::check("bodies sleep on their own account", sa == (normSquared(va) < 1) && sb == (normSquared(vb) < 1));
    sx::choose("field", 2) ? (void)n.w.makeForceField<Gravity>(g) : (void)n.w.makeForceField<LinearField>(g * 4);
    sx::check("a force field on everything wakes everything", !a->isAsleep() && !b->isAsleep());
    for (int i = 0; i < 2; ++i)
    {
        bool ia = a->isAsleep(), ib = b->isAsleep();
        State oa{a}, ob{b};
        n.step();
        nearVec("forces act on bodies that are awake only", a->velocity(), ia ? oa.v : oa.v + g * Dt, 1e-3f);
        nearVec("forces act on bodies that are awake only", b->velocity(), ib ? ob.v : ob.v + g * Dt, 1e-3f);
    }
}
// what wakes sleeping bodies
SX_HARNESS(woken, "rounding")
{
    Night n;
    n.delay  = 2 * Dt;
    Body* a  = n.body(0);
    Body* b  = n.body(20);
    Body* c  = n.body(40);
    Body* d  = n.body(41.5f); // touches c
    int kind = sx::choose("event", 10);
    Constraint* old = nullptr;
    if (kind == 7) old = n.w.makeConstraint<RotationConstraint>(Bodies{a, b}, false);
    if (kind == 9) d->removeCollider(const_cast<Collider*>(&*d->colliders().begin())), d->addCollider(ColliderDescriptor{rect(-1, -1, 0.5f, 1)});
    n.enable();
    n.step();
    n.step();
    sx::check("immobile bodies sleep after the delay", a->isAsleep() && b->isAsleep() && !c->isAsleep() == !d->isAsleep());
    n.step();
    n.step();
    bool slept = c->isAsleep();
    bool ea = true, eb = true, ec = slept, ed = slept; // expected to be asleep
    switch (kind)
    {
    case 0: a->setVelocity(realVec("v", -8, 8)), ea = false; break;
    case 1: a->setAngularVelocity(sx::real("spin", -8, 8)), ea = false; break;
    case 2: a->applyImpulse(realVec("i", -8, 8)), ea = false; break;
    case 3: a->applyForce(realVec("f", -8, 8), 1), ea = false; break;
    case 4: n.w.makeConstraint<RotationConstraint>(Bodies{a, b}, false), ea = eb = false; break;
    case 5: n.w.makeForceField<Gravity>(realVec("g", -8, 8)), ea = eb = ec = ed = false; break;
    case 6:
    {
        Vec2 lo = realVec("lo", -10, 30), hi = realVec("hi", -10, 30);
        sx::assume((lo[0] < hi[0] - 0.01f) & (lo[1] < hi[1] - 0.01f));
        auto in = [&](float x) { return (lo[0] < x + 1) & (hi[0] > x - 1) & (lo[1] < 1) & (hi[1] > -1); };
        auto edge = [&](float x, float y) { return (x - y <= 0.01f) & (y - x <= 0.01f); };
        for (float x : {-1, 1, 19, 21}) sx::assume(!edge(lo[0], x) & !edge(hi[0], x));
        for (float x : {-1, 1}) sx::assume(!edge(lo[1], x) & !edge(hi[1], x));
        n.w.makeForceField<LinearField>(Vec2{1, 0}, ForceField::region(lo, hi));
        ea = !in(0), eb = !in(20);
        break;
    }
    case 7:
        old->kill();
        // removed by the step, which may put them to sleep again
        n.step();
        break;
    case 8: n.enable(false), ea = eb = ec = ed = false; break;
    default: break;
    }
    sx::check("what concerns a body wakes it, nothing else does", a->isAsleep() == ea && b->isAsleep() == eb);
    sx::check("what concerns a body wakes it, nothing else does", c->isAsleep() == ec && d->isAsleep() == ed);
}
// bodies pushed by others
SX_HARNESS(pushed, "rounding")
{
    Night n;
    Body* a = n.body(0);
    Body* b = n.body(4);
    n.w.makeConstraint<DistanceConstraint>(Bodies{a, b}, std::array<Vec2, 2>{Vec2{0, 0}, Vec2{4, 0}});
    n.enable();
    n.step();
    sx::check("immobile bodies sleep after the delay", a->isAsleep() && b->isAsleep());
    float v = sx::real("v", -8, 8);
    sx::assume((v >= 0.5f) | (v <= -0.5f));
    (sx::choose("first", 2) ? a : b)->setVelocity(Vec2{v, 0});
    for (int i = 0; i < 2; ++i)
    {
        n.step();
        for (Body* x : {a, b}) sx::check("moving or spinning bodies are awake", (normSquared(x->velocity()) < 1) | !x->isAsleep());
        nearVec("sleeping bodies are moved by their constraints", a->velocity(), Vec2{v / 2, 0}, 1e-3f);
        nearVec("sleeping bodies are moved by their constraints", b->velocity(), Vec2{v / 2, 0}, 1e-3f);
    }
}
// bodies that others run into
SX_HARNESS(hit, "rounding")
{
    Night n;
    Body* a = n.body(0);
    Body* b = n.body(4);
    n.enable();
    n.step();
    sx::check("immobile bodies sleep after the delay", a->isAsleep() && b->isAsleep());
    float v = sx::real("v", 1.125f, 60);
    sx::assume(v * Dt <= 1.875f || v * Dt >= 2.125f);
    b->setVelocity(Vec2{-v, 0});
    n.step();
    if (v * Dt > 2)
    {
        sx::check("a body that is run into wakes", !a->isAsleep() && !b->isAsleep());
        n.step();
        sx::check("a body that is run into is moved", a->velocity()[0] < -0.25f);
        sx::check("moving or spinning bodies are awake", (normSquared(a->velocity()) < 1) | !a->isAsleep());
    }
    else
        sx::check("bodies sleep on their own account", a->isAsleep() && !b->isAsleep());
}
// motors
SX_HARNESS(motors, "rounding")
{
    Night n;
    Body* a = n.body(0);
    Body* b = n.body(20);
    float force = sx::real("force", 1, 64);
    auto* m = n.w.makeConstraint<TranslationMotor>(Bodies{b, a}, TranslationMotor::Specs::fromForce(16, force));
    m->throttle(0);
    m->direction(Vec2{1, 0});
    n.enable();
    n.step();
    sx::check("immobile bodies sleep after the delay", a->isAsleep() && b->isAsleep());
    m->throttle(1);
    sx::check("commands to a motor wake its bodies", !a->isAsleep() && !b->isAsleep());
    for (int i = 0; i < 3; ++i)
    {
        n.step();
        for (Body* x : {a, b})
        {
            float s = normSquared(x->velocity());
            sx::check("moving or spinning bodies are awake", (s < 1) | !x->isAsleep());
            sx::check("a body sleeps once it was immobile for the delay", (s >= 1) | x->isAsleep());
        }
    }
}
