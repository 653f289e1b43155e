//! bound: pairs of bodies in five placements (turned, of different mass, dominance and structural) with any velocities and offsets (real, |x| <= 10), any limits with min <= max, absent limits included; up to three solver iterations and two successive solves
//! assume: exact real arithmetic (rounding excluded beyond a tolerance of 0.02)
#include "rigs.hpp"
#include <optional>

namespace
{
constexpr float Tol = 2e-2f;
// limits on the angle between two bodies
struct AngleLimits : ConstraintImplementation<RotationConstraintFunction, LimitsSolver<RotationConstraintFunction>>
{
    typedef ConstraintImplementation<RotationConstraintFunction, LimitsSolver<RotationConstraintFunction>> Base;
    AngleLimits(const Bodies& b, std::optional<float> lo, std::optional<float> hi) : Base{b, RotationConstraintFunction{b}, true}
    {
        if (lo) solver.setLowerLimit(Value{*lo});
        if (hi) solver.setUpperLimit(Value{*hi});
    }
};
void place(Rig& r, int i, float turn) { r.p[i] = Position{r.b[i]->position(), r.b[i]->orientation() + turn, r.b[i]->localCentroid()}; }
// rig with the second body turned by C, which the constraint measures
struct Limited
{
    Rig& r;
    bool lower, upper;
    float lo = 0, hi = 0, c = 0;
    std::optional<AngleLimits> k;
    explicit Limited(bool apart = true) : r{*rig(sx::choose("rig", Rigs))}
    {
        int which = sx::choose("limits", 4);
        lower     = which & 1;
        upper     = which & 2;
        if (lower) lo = sx::real("min", -3, 3);
        if (upper) hi = sx::real("max", -3, 3);
        if (lower & upper)
        {
            if (sx::choose("equal", 2)) hi = lo;
            else sx::assume(lo <= hi);
        }
        k.emplace(r.bodies(), lower ? std::optional<float>{lo} : std::nullopt, upper ? std::optional<float>{hi} : std::nullopt);
        c = sx::real("c", -5, 5);
        place(r, 1, c);
        // rounding of the concrete placement must not decide
        if (lower) sx::assume((c - lo > 0.01f) | (lo - c > 0.01f));
        if (upper) sx::assume((c - hi > 0.01f) | (hi - c > 0.01f));
    }
    bool equality() const { return (!lower & !upper) || (lower & upper && lo == hi); }
    float target() const { return lower ? lo : upper ? hi : 0.f; }
    bool under() const { return lower && c < lo; }
    bool over() const { return upper && c > hi; }
};
} // namespace

SX_HARNESS(active, "rounding")
{
    Limited l;
    Proxies x = l.r.proxies();
    bool on = l.k->isActive(x);
    sx::check("limits are active exactly when they are reached", on == (l.equality() || l.under() || l.over()));
}
SX_HARNESS(velocities, "rounding")
{
    Limited l;
    Rig& r    = l.r;
    Proxies x = r.proxies();
    sx::assume(l.k->isActive(x));
    int rounds = 1 + sx::choose("solves", 2);
    for (int round = 0; round < rounds; ++round)
    {
        r.velocities();
        Before before{r};
        float rel = r.v[1].angular() - r.v[0].angular();
        l.k->initSolve(x);
        l.k->warmstart(x, 0.125f);
        int n = 1 + sx::choose("iterations", 2);
        for (int i = 0; i < n; ++i) l.k->solveVelocities(x, 0.125f);
        float now = r.v[1].angular() - r.v[0].angular();
        if (l.equality()) near("an equality stops the motion", now, 0, Tol);
        else if (l.under()) near("a lower limit only stops motion further below it", now, std::max(rel, 0.f), Tol);
        else near("an upper limit only stops motion further above it", now, std::min(rel, 0.f), Tol);
        before.kept(r);
    }
}
SX_HARNESS(positions, "rounding")
{
    Limited l;
    Rig& r    = l.r;
    Proxies x = r.proxies();
    if (l.k->isActive(x)) l.k->initSolve(x);
    float a0 = r.p[0].orientation(), base = r.b[1]->orientation() - r.b[0]->orientation();
    l.k->solvePositions(x);
    float now = r.p[1].orientation() - r.p[0].orientation() - base;
    if (l.equality()) near("an equality is restored", now, l.target(), Tol);
    else if (l.under()) near("position correction restores a lower limit", now, l.lo, Tol);
    else if (l.over()) near("position correction restores an upper limit", now, l.hi, Tol);
    else near("nothing is corrected within the limits", now, l.c, Tol);
    if (r.structural(0)) near("a structural body is not moved", r.p[0].orientation(), a0, 0);
    if (r.structural(1)) near("a structural body is not moved", r.p[1].orientation(), r.b[1]->orientation() + l.c, 0);
}
SX_HARNESS(invalid, "")
{
    Rig& r   = *rig(0);
    float lo = sx::real("min", -3, 3), hi = sx::real("max", -3, 3);
    bool refused = false;
    try
    {
        AngleLimits k{r.bodies(), lo, hi};
    }
    catch (const Exception&)
    {
        refused = true;
    }
    sx::check("limits in the wrong order are refused", refused == (lo > hi));
}

// distances
namespace
{
typedef std::array<Vec2, 2> Points;
// two bodies on the x axis, the fixed points at their centers
struct Line
{
    Rig r;
    explicit Line(float d0, float d1) : r{{0, 0, 0, 1, d0}, {4, 0, 0, 3, d1}} {}
    static Points points() { return Points{Vec2{0, 0}, Vec2{4, 0}}; }
    void apart(float d) { r.p[1] = Position{Vec2{d, 0}, 0, r.b[1]->localCentroid()}; }
    float distance() const { return r.p[1].centroid()[0] - r.p[0].centroid()[0]; }
};
Line* line()
{
    int k = sx::choose("dominance", 3);
    return new Line(k == 1 ? 0.f : 1.f, k == 2 ? 0.f : 0.5f);
}
} // namespace
// which distances are accepted
SX_HARNESS(distances, "")
{
    Line& l = *line();
    std::optional<float> lo, hi;
    if (sx::choose("min", 2)) lo = sx::real("lo", -4, 8);
    if (sx::choose("max", 2)) hi = sx::real("hi", -4, 8);
    bool valid = (lo || hi) && (!lo || *lo > 0) && (!hi || *hi > 0) && (!lo || !hi || *lo <= *hi);
    bool made  = true;
    try
    {
        DistanceConstraint c{l.r.bodies(), Line::points(), lo, hi};
    }
    catch (const Exception&)
    {
        made = false;
    }
    sx::check("a distance constraint is made exactly for positive limits in order, either of which may be absent", made == valid);
}
SX_HARNESS(distanceVelocity, "rounding")
{
    Line& l = *line();
    int k   = sx::choose("kind", 4);
    std::optional<float> lo, hi;
    float d = 4;
    switch (k)
    {
    case 0: lo = hi = 4.f; break;
    case 1: lo = 5.f; break;
    case 2: hi = 3.f; break;
    default: lo = 4.5f; hi = 6.f; break;
    }
    DistanceConstraint c = k ? DistanceConstraint{l.r.bodies(), Line::points(), lo, hi} : DistanceConstraint{l.r.bodies(), Line::points()};
    l.r.velocities();
    Before before{l.r};
    Proxies x = l.r.proxies();
    sx::check("a distance constraint is active outside its limits", c.isActive(x));
    c.initSolve(x);
    int n = 1 + sx::choose("iterations", 3);
    for (int i = 0; i < n; ++i) c.solveVelocities(x, 0.125f);
    float rel = before.u[1][0] - before.u[0][0], now = l.r.v[1].linear()[0] - l.r.v[0].linear()[0];
    if (k == 0) near("a fixed distance stops the relative motion", now, 0, Tol);
    else if (k == 2) near("a maximal distance only stops separation", now, std::min(rel, 0.f), Tol);
    else near("a minimal distance only stops approach", now, std::max(rel, 0.f), Tol);
    for (int i = 0; i < 2; ++i)
    {
        near("no impulse across the distance", l.r.v[i].linear()[1], before.u[i][1], Tol);
        near("no spin from a distance between centers", l.r.v[i].angular(), before.o[i], Tol);
    }
    before.kept(l.r);
    (void)d;
}
SX_HARNESS(distancePosition, "rounding")
{
    Line& l = *line();
    int k   = sx::choose("kind", 3);
    std::optional<float> lo, hi;
    if (k != 1) lo = 4.f;
    if (k == 1) hi = 4.f;
    if (k == 2) hi = sx::choose("wide", 2) ? 6.f : 4.f;
    DistanceConstraint c{l.r.bodies(), Line::points(), lo, hi};
    float d = sx::real("d", 1, 10);
    l.apart(d);
    Proxies x = l.r.proxies();
    bool under = lo && d < *lo, over = hi && d > *hi;
    bool on    = c.isActive(x);
    sx::check("a distance constraint is active exactly at or outside its limits", on == ((lo && d <= *lo) || (hi && d >= *hi)));
    if (on) c.initSolve(x);
    c.solvePositions(x);
    float now = l.distance(), limit = under ? *lo : over ? *hi : d;
    // a Newton step on the squared distance: quadratic convergence from above
    if (under || over)
    {
        sx::check("position correction moves to the limit", (now >= limit - Tol) & (2 * d * (now - limit) <= (d - limit) * (d - limit) + Tol));
    }
    else near("nothing is corrected within the limits", now, d, Tol);
    near("nothing is corrected across", l.r.p[0].position()[1], 0, Tol);
    near("nothing is corrected across", l.r.p[1].position()[1], 0, Tol);
    if (l.r.structural(0)) near("a structural body is not moved", l.r.p[0].position()[0], 0, 0);
    if (l.r.structural(1)) near("a structural body is not moved", l.r.p[1].position()[0], d, 0);
}
// any direction and any points: the jacobian is the derivative of the squared distance
SX_HARNESS(distanceJacobian, "rounding")
{
    Rig& r = *rig(sx::choose("rig", Rigs));
    Points p{realVec("p", -10, 10), realVec("p", -10, 10)};
    DistanceConstraintFunction f{r.bodies(), p};
    Proxies x = r.proxies();
    Vec2 d = p[1] - p[0];
    near("the value is the squared distance of the points", f.eval(x)[0], d[0] * d[0] + d[1] * d[1], 0.05f);
    r.velocities();
    Vec2 u = r.velocityAt(1, p[1]) - r.velocityAt(0, p[0]);
    near("the jacobian is the derivative", (f.jacobian(x) * x.velocity())[0], 2 * (d[0] * u[0] + d[1] * u[1]), 0.5f);
}
// eccentric points: still no relative velocity along the line
SX_HARNESS(eccentric, "rounding")
{
    Rig& r = *rig(sx::choose("rig", Rigs));
    Points p{Vec2{0.5f, 1}, sx::choose("second", 2) ? Vec2{3, 3} : Vec2{-2, -1}};
    DistanceConstraint c{r.bodies(), p};
    r.velocities();
    Before before{r};
    Proxies x = r.proxies();
    c.initSolve(x);
    int n = 1 + sx::choose("iterations", 3);
    for (int i = 0; i < n; ++i) c.solveVelocities(x, 0.125f);
    Vec2 u = r.velocityAt(1, p[1]) - r.velocityAt(0, p[0]), d = p[1] - p[0];
    near("a fixed distance stops the relative motion of its points", d[0] * u[0] + d[1] * u[1], 0, 0.1f);
    before.kept(r);
}

// one-sided constraints of the user
namespace
{
struct OneSided : InequalityConstraintFunctionBase<2, 1>
{
    RotationConstraintFunction g;
    explicit OneSided(const Bodies& b) : g{b} {}
    Value eval(const Proxies& x) const { return g.eval(x); }
    Value bias(const Proxies& x) const { return g.bias(x); }
    Jacobian jacobian(const Proxies& x) const { return g.jacobian(x); }
};
struct OneSidedConstraint : ConstraintImplementation<OneSided, InequalitySolver<OneSided>>
{
    explicit OneSidedConstraint(const Bodies& b) : ConstraintImplementation<OneSided, InequalitySolver<OneSided>>{b, OneSided{b}, false} {}
};
} // namespace
SX_HARNESS(oneSided, "rounding")
{
    Rig& r = *rig(sx::choose("rig", Rigs));
    OneSidedConstraint c{r.bodies()};
    Proxies x = r.proxies();
    int rounds = 1 + sx::choose("solves", 2);
    for (int k = 0; k < rounds; ++k)
    {
        r.velocities();
        Before before{r};
        float rel = r.v[1].angular() - r.v[0].angular();
        c.initSolve(x);
        if (k) c.warmstart(x, 0.125f);
        for (int i = 0; i < 2; ++i) c.solveVelocities(x, 0.125f);
        near("an inequality only stops motion against it", r.v[1].angular() - r.v[0].angular(), std::max(rel, 0.f), Tol);
        before.kept(r);
    }
    float e = sx::real("e", -3, 3), base = r.p[1].orientation() - r.p[0].orientation();
    place(r, 1, e);
    c.solvePositions(x);
    near("position correction of an inequality acts on violations only", r.p[1].orientation() - r.p[0].orientation() - base, std::max(e, 0.f), Tol);
}
