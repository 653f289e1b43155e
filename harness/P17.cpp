//! bound: worlds of up to four bodies (dynamic, structural, of one or two colliders) and up to two force fields; any acceleration, force, velocity, position of a body and region (real, |x| <= 20), time steps in [1/128, 1]
//! assume: exact real arithmetic (rounding excluded)
#include "worlds.hpp"

namespace
{
constexpr float Tol = 2e-2f;
// counts what it is applied to
struct Recorder : ForceField
{
    std::vector<const Collider*>* seen;
    float* total;
    Recorder(const Domain& d, std::vector<const Collider*>* s, float* t) : ForceField{d}, seen{s}, total{t} {}
    void apply(Collider& c, float dt) const override
    {
        seen->push_back(&c);
        *total += dt;
    }
};
int count(const std::vector<const Collider*>& s, const Collider* c)
{
    int n = 0;
    for (auto x : s) n += x == c;
    return n;
}
} // namespace

SX_HARNESS(gravity, "rounding")
{
    World w;
    Body* light = makeBody(w, Vec2{0, 0}, 0, 1, 1);
    Body* heavy = makeBody(w, Vec2{50, 0}, 0, 0.5f, 8);
    Body* wall  = makeBody(w, Vec2{100, 0}, 0, 0);
    light->setVelocity(realVec("v", -20, 20));
    heavy->setVelocity(realVec("v", -20, 20));
    State l{light}, h{heavy}, s{wall};
    Vec2 g   = realVec("g", -20, 20);
    float dt = sx::real("dt", 0.0078125f, 1);
    w.makeForceField<Gravity>(g);
    w.step(dt);
    eqVec("gravity accelerates every mass alike", light->velocity(), l.v + g * dt, Tol);
    eqVec("gravity accelerates every mass alike", heavy->velocity(), h.v + g * dt, Tol);
    sx::eq("gravity does not spin", light->angularVelocity(), 0, Tol);
    sx::eq("gravity does not spin", heavy->angularVelocity(), 0, Tol);
    eqState("a structural body is not affected by force fields", wall, s);
}
// several colliders: same acceleration, no spin, whatever the orientation
SX_HARNESS(compound, "rounding")
{
    World w;
    BodyDescriptor d{};
    d.position    = Vec2{1, 2};
    d.orientation = sx::choose("turned", 2) ? 0.75f : 0.f;
    Body* b       = w.makeBody(d);
    b->addCollider(ColliderDescriptor{rect(0, 0, 2, 1), dense(1)});
    b->addCollider(ColliderDescriptor{rect(3, 1, 4, 4), dense(4)});
    Vec2 g   = realVec("g", -20, 20);
    float dt = sx::real("dt", 0.0078125f, 1);
    if (sx::choose("field", 2))
    {
        Gravity f{g};
        for (const Collider& c : b->colliders()) f.apply(const_cast<Collider&>(c), dt);
        nearVec("gravity accelerates a compound body", b->velocity(), g * dt, 0.01f);
    }
    else
    {
        LinearField f{g};
        for (const Collider& c : b->colliders()) f.apply(const_cast<Collider&>(c), dt);
        nearVec("a linear field gives its impulse to a compound body", b->velocity() * b->mass(), g * dt, 0.05f);
    }
    float o = b->angularVelocity();
    sx::check("a homogeneous field does not spin", (o < 0.01f) & (o > -0.01f));
}
// a field that reaches a part of a body pushes there
SX_HARNESS(part, "rounding")
{
    World w;
    const float angles[4] = {0, 0.75f, 1.5f, 4};
    BodyDescriptor d{};
    d.position    = Vec2{1, 2};
    d.orientation = angles[sx::choose("turned", 4)];
    d.dominance   = sx::choose("dominance", 2) ? 1.f : 0.25f;
    Body* b       = w.makeBody(d);
    b->addCollider(ColliderDescriptor{rect(0, 0, 2, 1), dense(2)});
    b->addCollider(ColliderDescriptor{rect(30, 1, 31, 3), dense(4)});
    const Collider* c = nullptr;
    int which         = sx::choose("part", 2);
    for (const Collider& k : b->colliders())
        if (k.properties().m > 6 ? which : !which) c = &k;
    float part = which ? 8 : 4, whole = 12;
    Vec2 at{};
    int n = 0;
    for (Vec2 v : *c)
    {
        at = at + v;
        ++n;
    }
    at = at / (float)n - b->centroid();
    Vec2 f   = realVec("f", -20, 20);
    float dt = sx::real("dt", 0.0078125f, 1);
    bool gravity = sx::choose("gravity", 2);
    if (gravity) Gravity{f}.apply(const_cast<Collider&>(*c), dt);
    else LinearField{f}.apply(const_cast<Collider&>(*c), dt);
    Vec2 impulse = gravity ? f * (part * dt) : f * (part / whole * dt);
    near("a field pushes a body by what it reaches", b->velocity()[0] * whole, impulse[0], 0.05f);
    near("a field pushes a body by what it reaches", b->velocity()[1] * whole, impulse[1], 0.05f);
    near("a field pushes a body where it reaches it", b->angularVelocity() * b->inertia(), cross(at, impulse), 2.f);
}
SX_HARNESS(linear, "rounding")
{
    World w;
    Body* a = makeBody(w, Vec2{0, 0}, 0, 1, 2);
    Body* b = makeBody(w, Vec2{50, 0}, 0, 2, 8);
    Body* s = makeBody(w, Vec2{100, 0}, 0, 0);
    a->setVelocity(realVec("v", -20, 20));
    State x{a}, y{b}, z{s};
    Vec2 f   = realVec("f", -20, 20), g = realVec("g", -20, 20);
    float dt = sx::real("dt", 0.0078125f, 1);
    w.makeForceField<LinearField>(f);
    w.makeForceField<Gravity>(g);
    w.step(dt);
    eqVec("fields add up", (a->velocity() - x.v) * a->mass(), (f + g * a->mass()) * dt, Tol);
    eqVec("a linear field gives the same impulse to every body", (b->velocity() - y.v) * b->mass(), (f + g * b->mass()) * dt, Tol);
    eqState("a structural body is not affected by force fields", s, z);
}
// exactly the colliders whose box overlaps the region
SX_HARNESS(region, "rounding")
{
    World w;
    std::vector<Body*> bodies;
    int axis = sx::choose("axis", 2);
    for (int i = 0; i < 3; ++i)
    {
        float x = i == 2 ? sx::real("x", -20, 20) : 6.f * i;
        bodies.push_back(makeBody(w, axis ? Vec2{0.5f, x} : Vec2{x, 0.5f}));
    }
    Body* wall = makeBody(w, Vec2{3, 3}, 0, 0);
    float lo = sx::real("lo", -20, 20), hi = sx::real("hi", -20, 20);
    sx::assume(lo <= hi);
    std::vector<const Collider*> seen;
    float total = 0;
    Vec2 min = axis ? Vec2{-1, lo} : Vec2{lo, -1}, max = axis ? Vec2{9, hi} : Vec2{hi, 9};
    w.makeForceField<Recorder>(ForceField::region(min, max), &seen, &total);
    std::vector<BoundingBox> box;
    for (Body* b : bodies) box.push_back(b->colliders().begin()->boundingBox());
    w.step(0.25f);
    for (int i = 0; i < 3; ++i)
    {
        float bl = box[i].min()[axis], bh = box[i].max()[axis];
        bool in  = (bl <= hi) & (bh >= lo);
        int n    = count(seen, &*bodies[i]->colliders().begin());
        sx::check("a collider in the region is affected once", implies(in, n == 1));
        sx::check("a collider outside of the region is not affected", implies(!in, n == 0));
    }
    sx::check("a structural body is not affected", count(seen, &*wall->colliders().begin()) == 0);
    sx::eq("the time step is passed", total, 0.25f * seen.size());
}
SX_HARNESS(global, "")
{
    World w;
    std::vector<Body*> bodies;
    int n = sx::choose("bodies", 5);
    for (int i = 0; i < n; ++i) bodies.push_back(makeBody(w, Vec2{7.f * i, (i % 2) * 5.f}, 0, sx::choose("structural", 2) ? 0.f : 1.f));
    if (n > 1 && sx::choose("second collider", 2)) bodies[1]->addCollider(ColliderDescriptor{rect(0, 4, 1, 5)});
    std::vector<const Collider*> seen;
    float total = 0;
    auto* f     = w.makeForceField<Recorder>(ForceField::global(), &seen, &total);
    if (n > 2 && sx::choose("asleep", 2))
    {
        // nothing sleeps unless it is enabled
        World::Settings s = w.settings();
        s.inactivitySleepDelay = 0;
        w.updateSettings(s);
    }
    w.step(0.5f);
    std::size_t expected = 0;
    for (Body* b : bodies)
        for (const Collider& c : b->colliders())
        {
            int k = b->isStructural() ? 0 : 1;
            expected += k;
            sx::check("a global field is applied once to each collider that is not structural", count(seen, &c) == k);
        }
    sx::check("a field is applied to nothing else", seen.size() == expected);
    w.step(0.5f);
    sx::check("a field is applied in every step", seen.size() == 2 * expected);
    f->kill();
    w.step(0.5f);
    sx::check("a killed field is not applied any more", seen.size() == 2 * expected);
    int left = 0;
    for (ForceField& x : w.forceFields()) { (void)x; ++left; }
    sx::check("a killed field leaves the world", left == 0);
}
// no force in a step without duration
SX_HARNESS(noTime, "rounding")
{
    World w;
    Body* b = makeBody(w, Vec2{0, 0});
    b->setVelocity(realVec("v", -20, 20));
    State s{b};
    w.makeForceField<Gravity>(realVec("g", -20, 20));
    w.step(0);
    eqState("no force acts in no time", b, s);
}
