//! bound: intervals and boxes with arbitrary finite IEEE single bounds (all 2^32 bit patterns except NaN/inf), one pair (or triple) at a time
//! assume: interval bounds are ordered unless the check is about degenerate intervals
#include "common.hpp"
using namespace h;

SX_HARNESS(interval, "fp")
{
    float a = fpFinite("a"), b = fpFinite("b"), c = fpFinite("c"), d = fpFinite("d"), v = fpFinite("v");
    Interval<float> x{a, b}, y{c, d};
    // containment is inclusive, and a degenerate interval contains nothing
    sx::check("contains exactly the values between the bounds", x.contains(v) == ((a <= v) & (v <= b)));
    sx::check("degenerate interval contains nothing", implies(b < a, !x.contains(v)));
    sx::assume((a <= b) & (c <= d));
    bool o = x.overlaps(y);
    sx::check("a common value implies overlap", implies(x.contains(v) & y.contains(v), o));
    // two ordered intervals with a common point always share one of their lower bounds
    sx::check("overlap implies a common value", implies(o, x.contains(c) | y.contains(a)));
    sx::check("overlap is symmetric", o == y.overlaps(x));
    sx::check("interval overlaps itself", x.overlaps(x));
}

SX_HARNESS(touching, "fp")
{
    float a = fpFinite("a"), b = fpFinite("b"), d = fpFinite("d");
    sx::assume((a <= b) & (b <= d));
    sx::check("intervals that share exactly one bound overlap", Interval<float>{a, b}.overlaps(Interval<float>{b, d}));
    sx::check("intervals that share exactly one bound overlap (reversed)",
              Interval<float>{b, d}.overlaps(Interval<float>{a, b}));
}

SX_HARNESS(box, "fp")
{
    float v[8];
    for (auto& x : v) x = fpFinite("v");
    BoundingBox a{Vec2{v[0], v[1]}, Vec2{v[2], v[3]}}, b{Vec2{v[4], v[5]}, Vec2{v[6], v[7]}};
    bool va = (v[0] <= v[2]) & (v[1] <= v[3]), vb = (v[4] <= v[6]) & (v[5] <= v[7]);
    sx::check("valid iff min <= max on both axes", a.isValid() == va);
    bool common = (v[0] <= v[6]) & (v[4] <= v[2]) & (v[1] <= v[7]) & (v[5] <= v[3]);
    sx::check("boxes overlap iff both are valid and share a point", a.overlaps(b) == (va & vb & common));
    sx::check("box overlap is symmetric", a.overlaps(b) == b.overlaps(a));
    sx::check("an invalid box overlaps nothing", implies(!va | !vb, !a.overlaps(b)));
}

SX_HARNESS(matrixInterval, "fp")
{
    float v[10];
    for (auto& x : v) x = fpFinite("v");
    Interval<Vec2> x{Vec2{v[0], v[1]}, Vec2{v[2], v[3]}};
    auto c = x.contains(Vec2{v[8], v[9]});
    sx::check("component-wise containment x", c[0] == ((v[0] <= v[8]) & (v[8] <= v[2])));
    sx::check("component-wise containment y", c[1] == ((v[1] <= v[9]) & (v[9] <= v[3])));
    sx::assume((v[0] <= v[2]) & (v[1] <= v[3]) & (v[4] <= v[6]) & (v[5] <= v[7]));
    auto o = x.overlaps(Interval<Vec2>{Vec2{v[4], v[5]}, Vec2{v[6], v[7]}});
    sx::check("component-wise overlap x", o[0] == ((v[0] <= v[6]) & (v[4] <= v[2])));
    sx::check("component-wise overlap y", o[1] == ((v[1] <= v[7]) & (v[5] <= v[3])));
}

SX_HARNESS(approximation, "int,exact")
{
    float x = sx::lat("x", -4096, 4096, 4), e = sx::lat("e", -1024, 1024, 4), v = sx::lat("v", -8192, 8192, 4);
    bool in    = approx(x, e).contains(v);
    float ae   = e < 0 ? -e : e;
    sx::check("approx accepts exactly the values within the (absolute) tolerance",
              in == ((x - v <= ae) & (v - x <= ae)));
}
