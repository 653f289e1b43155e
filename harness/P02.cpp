//! bound: boxes and points with arbitrary finite IEEE single coordinates; up to 3 boxes, point sets of 0..3 points; scaling: coordinates k/4, |k| <= 256, ratio k/4 in [0, 8]
//! assume: scaling uses exactly representable coordinates
#include "common.hpp"
using namespace h;

namespace
{
struct B
{
    float x0, y0, x1, y1;
    BoundingBox box() const { return BoundingBox{Vec2{x0, y0}, Vec2{x1, y1}}; }
    bool valid() const { return (x0 <= x1) & (y0 <= y1); }
    bool has(float x, float y) const { return (x0 <= x) & (x <= x1) & (y0 <= y) & (y <= y1); }
};
B fpBox(const char* n)
{
    return B{fpFinite(n), fpFinite(n), fpFinite(n), fpFinite(n)};
}
bool has(const BoundingBox& b, float x, float y)
{
    return (b.min()[0] <= x) & (x <= b.max()[0]) & (b.min()[1] <= y) & (y <= b.max()[1]);
}
} // namespace

SX_HARNESS(combine, "fp")
{
    B a = fpBox("a"), b = fpBox("b"), c = fpBox("c");
    float px = fpFinite("p"), py = fpFinite("p");
    BoundingBox u = a.box().combined(b.box());
    sx::check("union contains every point of both boxes",
              implies((a.valid() & a.has(px, py)) | (b.valid() & b.has(px, py)), has(u, px, py)));
    // least: any valid box that holds both valid boxes holds the union
    bool cHoldsA = (c.x0 <= a.x0) & (c.y0 <= a.y0) & (c.x1 >= a.x1) & (c.y1 >= a.y1);
    bool cHoldsB = (c.x0 <= b.x0) & (c.y0 <= b.y0) & (c.x1 >= b.x1) & (c.y1 >= b.y1);
    sx::check("union is the smallest such box",
              implies(a.valid() & b.valid() & cHoldsA & cHoldsB & has(u, px, py), c.has(px, py)));
    sx::check("combining is commutative", u == b.box().combined(a.box()));
    sx::check("an invalid box is ignored when combining",
              implies(!b.valid(), u == a.box()) & implies(!a.valid(), u == b.box()));
    sx::check("union is valid iff one operand is", u.isValid() == (a.valid() | b.valid()));
}

SX_HARNESS(containment, "fp")
{
    B a = fpBox("a"), b = fpBox("b");
    bool holds = (a.x0 <= b.x0) & (a.y0 <= b.y0) & (a.x1 >= b.x1) & (a.y1 >= b.y1);
    sx::check("contains iff both valid and every bound is inside",
              a.box().contains(b.box()) == (a.valid() & b.valid() & holds));
    bool same = (a.x0 == b.x0) & (a.y0 == b.y0) & (a.x1 == b.x1) & (a.y1 == b.y1);
    bool bothInvalid = !a.valid() & !b.valid();
    sx::check("boxes are equal iff both invalid or same bounds", (a.box() == b.box()) == (bothInvalid | same));
    sx::check("inequality is the negation", (a.box() != b.box()) == !(a.box() == b.box()));
    sx::check("a containing box overlaps", implies(a.box().contains(b.box()), a.box().overlaps(b.box())));
}

SX_HARNESS(associative, "fp")
{
    B a = fpBox("a"), b = fpBox("b"), c = fpBox("c");
    sx::check("combining is associative",
              a.box().combined(b.box()).combined(c.box()) == a.box().combined(b.box().combined(c.box())));
}

SX_HARNESS(fromPoints, "fp")
{
    int n = sx::choose("n", 4);
    Vec2 p[3];
    for (int i = 0; i < n; ++i) p[i] = Vec2{fpFinite("p"), fpFinite("p")};
    alignas(BoundingBox) char mem[sizeof(BoundingBox)];
    __sx_symbolize(mem, sizeof mem, "garbage");
    BoundingBox* b = new (mem) BoundingBox(p, p + n);
    sx::check("box of a point set is valid iff the set is not empty", b->isValid() == (n > 0));
    if (n == 0)
    {
        sx::check("empty point set equals the invalid box", *b == BoundingBox{});
        return;
    }
    bool in = true, l = false, r = false, d = false, u = false;
    for (int i = 0; i < n; ++i)
    {
        in = in & has(*b, p[i][0], p[i][1]);
        l  = l | (b->min()[0] == p[i][0]);
        d  = d | (b->min()[1] == p[i][1]);
        r  = r | (b->max()[0] == p[i][0]);
        u  = u | (b->max()[1] == p[i][1]);
    }
    sx::check("every point is inside", in);
    sx::check("each side touches a point", l & r & d & u);
}

SX_HARNESS(scaling, "int,exact")
{
    float x0 = sx::lat("x0", -256, 256, 2), y0 = sx::lat("y0", -256, 256, 2);
    float w = sx::lat("w", 0, 256, 2), q = sx::lat("h", 0, 256, 2);
    int k = sx::choose("ratio", 9);
    float ratio = k * 0.5f;
    BoundingBox a{Vec2{x0, y0}, Vec2{x0 + w, y0 + q}};
    BoundingBox s = BoundingBox::scaled(a, ratio);
    sx::check("scaling keeps the center", (s.center()[0] == a.center()[0]) & (s.center()[1] == a.center()[1]));
    sx::check("scaling multiplies the extent",
              (s.max()[0] - s.min()[0] == ratio * w) & (s.max()[1] - s.min()[1] == ratio * q));
    if (k >= 2) sx::check("a scaled-up box contains the original", s.contains(a));
    else sx::check("a scaled-down box is contained in the original", a.contains(s));
}
