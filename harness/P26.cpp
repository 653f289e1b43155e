//! bound: four bodies (none, one or two of them structural, at rest or moving) and five constraints between them, each active or not in each of two steps, with any impulses and velocities (real, |x| <= 8), position corrections and two numbers of iterations; two groups of bodies with any velocities
//! assume: exact real arithmetic (rounding excluded beyond a tolerance of 0.02)
#include "worlds.hpp"

namespace
{
constexpr float Tol = 0.02f, Dt = 0.015625f;
constexpr int Velocities[2] = {3, 1}, Positions[2] = {2, 0};
// gives one impulse per iteration and records how it is called
struct Spy : Constraint
{
    float j = 0, c = 0;
    bool active = true, self, ordered = true;
    int inits = 0, warms = 0, vels = 0, poss = 0, pre = 0, post = 0;
    Spy(Body* a, Body* b, float j, float c) : Constraint{Bodies{a, b}, true}, j{j}, c{c}, self{a == b} {}
    void reset() { inits = warms = vels = poss = pre = post = 0; }
    bool isActive(const Proxies&) override { return active; }
    void initSolve(const Proxies&) override
    {
        ordered = ordered && warms == 0 && vels == 0 && poss == 0;
        ++inits;
    }
    void warmstart(Proxies&, float dt) override
    {
        ordered = ordered && inits == 1 && vels == 0 && poss == 0 && dt == Dt;
        ++warms;
    }
    void solveVelocities(Proxies& p, float dt) override
    {
        ordered = ordered && inits == 1 && poss == 0 && dt == Dt;
        ++vels;
        Proxies::Impulse i{};
        i[0] = self ? 0 : -j;
        i[3] = j;
        p.applyImpulse(i);
    }
    void solvePositions(Proxies& p) override
    {
        ordered = ordered && inits == 1;
        ++poss;
        Proxies::State s{};
        s[1] = self ? 0 : -c;
        s[4] = c;
        p.applyPositionCorrection(s);
    }
    void preStep() override { ++pre; }
    void postStep() override { ++post; }
};
void solved(bool second)
{
    World w;
    World::Settings s     = w.settings();
    int it                = sx::choose("iterations", 2);
    s.nVelocityIterations = Velocities[it];
    s.nPositionIterations = Positions[it];
    s.enableWarmstarting  = sx::choose("warm", 2);
    w.updateSettings(s);
    int mask = sx::choose("structural", 3);
    float dom[4] = {mask ? 0.f : 1.f, 1, 0.5f, mask == 2 ? 0.f : 1.f};
    Body* b[4];
    bool moving = mask && sx::choose("moving", 2);
    for (int i = 0; i < 4; ++i)
    {
        b[i] = makeBody(w, Vec2{10.f * i, -5.f * i}, 0, dom[i], 1 + 0.5f * i);
        if (dom[i] != 0) b[i]->setVelocity(realVec("v", 0.5f, 8)); // never at rest: fewer paths
        else if (moving) b[i]->setVelocity(realVec("v", -8, 8));
    }
    static const int ends[5][2] = {{0, 1}, {1, 2}, {2, 0}, {2, 3}, {3, 3}};
    Spy* c[5]{};
    for (int i = 0; i < 5; ++i)
        if (i != 4 || mask != 2) c[i] = w.makeConstraint<Spy>(b[ends[i][0]], b[ends[i][1]], sx::real("impulse", -8, 8), sx::real("correction", -0.25f, 0.25f));
    for (int round = 0; round < (second ? 2 : 1); ++round)
    {
        Vec2 v[4], p[4];
        for (int i = 0; i < 4; ++i) v[i] = b[i]->velocity(), p[i] = b[i]->position();
        for (int i = 0; i < 5; ++i)
            if (c[i])
            {
                c[i]->active = round ? !c[i]->active : sx::boolean("active");
                c[i]->reset();
            }
        w.step(Dt);
        for (int i = 0; i < 5; ++i)
            if (c[i])
            {
                bool on = c[i]->active;
                sx::check("the steps of a constraint are in order", c[i]->ordered);
                sx::check("every constraint is told of the step once", c[i]->pre == 1 && c[i]->post == 1);
                sx::check("active constraints are prepared once, others never", c[i]->inits == (on ? 1 : 0));
                sx::check("active constraints are warm started once if enabled", c[i]->warms == (on && s.enableWarmstarting ? 1 : 0));
                sx::check("active constraints are solved as often as the settings tell", c[i]->vels == (on ? Velocities[it] : 0) && c[i]->poss == (on ? Positions[it] : 0));
                for (int e = 0; e < 2; ++e)
                {
                    float sign = e ? 1.f : c[i]->self ? 0.f : -1.f;
                    int k      = ends[i][e];
                    if (on && dom[k] != 0)
                    {
                        v[k][0] += sign * Velocities[it] * c[i]->j * dom[k] / b[k]->mass();
                        p[k][1] += sign * Positions[it] * c[i]->c * dom[k] / b[k]->mass();
                    }
                }
            }
        for (int i = 0; i < 4; ++i)
        {
            nearVec("velocities change by the impulses of active constraints", b[i]->velocity(), v[i], dom[i] == 0 ? 0 : Tol);
            nearVec("every body moves once, by its velocity and corrections", b[i]->position(), p[i] + v[i] * Dt, Tol);
            near("bodies that nothing turns keep their orientation", b[i]->orientation(), 0, 0);
        }
    }
}
// one group of bodies, with or without another one
struct Groups
{
    World w;
    std::vector<Body*> b;
    Groups(bool first, bool second, bool structural, const float* v)
    {
        World::Settings s     = w.settings();
        s.nPositionIterations = 0;
        w.updateSettings(s);
        Body* shared = structural ? makeBody(w, Vec2{0, 0}, 0, 0) : nullptr;
        for (int g = 0; g < 2; ++g)
        {
            if (!(g ? second : first)) continue;
            float o = g ? -30.f : 30.f;
            Body* x = makeBody(w, Vec2{o, 0});
            Body* y = makeBody(w, Vec2{2 * o, 0}, 0, 1, 2);
            x->setVelocity(Vec2{v[2 * g], 0});
            y->setVelocity(Vec2{v[2 * g + 1], 0});
            w.makeConstraint<DistanceConstraint>(Bodies{x, y}, std::array<Vec2, 2>{x->centroid(), y->centroid()});
            if (shared) w.makeConstraint<DistanceConstraint>(Bodies{shared, x}, std::array<Vec2, 2>{shared->centroid(), x->centroid()}, std::nullopt, std::abs(o) * 1.01f);
            b.push_back(x);
            b.push_back(y);
        }
        w.step(Dt);
    }
};
} // namespace

SX_HARNESS(solved, "rounding,quickonly") { solved(false); }
SX_HARNESS(twice, "rounding,thorough") { solved(true); }
SX_HARNESS(independent, "rounding")
{
    float v[4];
    for (float& x : v) x = sx::real("v", -8, 8);
    bool st = sx::choose("structural", 2);
    Groups both{true, true, st, v}, one{true, false, st, v}, two{false, true, st, v};
    for (int i = 0; i < 2; ++i)
    {
        nearVec("bodies that are not connected do not affect each other", both.b[i]->velocity(), one.b[i]->velocity(), 1e-4f);
        nearVec("bodies that are not connected do not affect each other", both.b[i]->position(), one.b[i]->position(), 1e-4f);
        nearVec("bodies that are not connected do not affect each other", both.b[2 + i]->velocity(), two.b[i]->velocity(), 1e-4f);
        nearVec("bodies that are not connected do not affect each other", both.b[2 + i]->position(), two.b[i]->position(), 1e-4f);
    }
}
