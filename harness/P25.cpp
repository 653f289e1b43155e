//! bound: pairs of convex colliders out of six shapes, turned in two ways, the second one at every position on one of six lines (quick; two boxes: on three) or on eight lines (thorough), real parameter |t| <= 8; contacts updated after one body moved to every position on a line
//! assume: exact real arithmetic (rounding excluded beyond a tolerance of 0.01)
#include "worlds.hpp"

namespace
{
constexpr float Tol = 0.01f;
Polygon form(int i)
{
    switch (i)
    {
    case 0: return square();
    case 1: return rect(-3, -0.5f, 3, 0.5f);
    case 2: return Polygon{Vertex{-1, -1}, Vertex{2, -1}, Vertex{-1, 2}};
    case 3: return Polygon{Vertex{0, -2}, Vertex{2, 0}, Vertex{0, 2}, Vertex{-2, 0}};
    case 4: return Polygon{Vertex{-2, -1}, Vertex{1, -2}, Vertex{3, 1}, Vertex{0, 2}, Vertex{-2, 1}};
    default: return Polygon{Vertex{-4, 0}, Vertex{4, -0.5f}, Vertex{4, 0.5f}};
    }
}
const Collider& colliderOf(Body* b) { return *b->colliders().begin(); }
// how far v is inside of the polygon, at least: negative when outside
float inside(const Collider& c, Vec2 v)
{
    float d   = 1e9f;
    Vec2 prev = *(c.end() - 1);
    for (Vec2 x : c)
    {
        Vec2 e = x - prev;
        float l = std::sqrt(e[0] * e[0] + e[1] * e[1]);
        d       = std::min(d, (e[0] * (v[1] - prev[1]) - e[1] * (v[0] - prev[0])) / l);
        prev    = x;
    }
    return d;
}
// depth of b in a along the outward unit direction m of a
float depthAlong(const Collider& a, const Collider& b, Vec2 m)
{
    float hi = -1e9f, lo = 1e9f;
    for (Vec2 v : a) hi = std::max(hi, m[0] * v[0] + m[1] * v[1]);
    for (Vec2 v : b) lo = std::min(lo, m[0] * v[0] + m[1] * v[1]);
    return hi - lo;
}
float minimalDepth(const Collider& a, const Collider& b)
{
    float d = 1e9f;
    auto go = [&](const Collider& x, const Collider& y) {
        Vec2 prev = *(x.end() - 1);
        for (Vec2 v : x)
        {
            Vec2 e  = v - prev;
            float l = std::sqrt(e[0] * e[0] + e[1] * e[1]);
            d       = std::min(d, depthAlong(x, y, Vec2{e[1] / l, -e[0] / l}));
            prev    = v;
        }
    };
    go(a, b);
    go(b, a);
    return d;
}
void manifold(const Collider& a, const Collider& b, const ContactInfo& i, bool boxes = false)
{
    float d = minimalDepth(a, b), pen = 0.005f;
    sx::check("there is no contact between colliders that do not overlap by the tolerance", implies(d < pen - 0.001f, i.nContacts == 0));
    sx::check("there is a contact between overlapping colliders", implies(d > pen + 0.001f, i.nContacts > 0));
    if (i.nContacts == 0) return;
    Vec2 n = i.normal;
    sx::check("the normal is a unit vector", (normSquared(n) <= 1 + Tol) & (normSquared(n) >= 1 - Tol));
    // the normal points out of the second collider
    float along = depthAlong(b, a, n);
    sx::check("the contact normal is the direction of least overlap", (along <= d + Tol) & (along >= d - Tol));
    bool deepest = false;
    for (unsigned k = 0; k < i.nContacts; ++k)
    {
        Vec2 x = i.incContacts[k], y = i.refContacts[k];
        float gap = (y[0] - x[0]) * n[0] + (y[1] - x[1]) * n[1], side = (y[1] - x[1]) * n[0] - (y[0] - x[0]) * n[1];
        sx::check("contact points belong to their colliders", (inside(a, x) >= -Tol) & (inside(b, y) >= -Tol));
        sx::check("contact points are on the boundary", (inside(a, x) <= Tol) & (inside(b, y) <= Tol));
        if (boxes) sx::check("contact points are apart along the normal", (side <= Tol) & (side >= -Tol));
        sx::check("contact points overlap, by the depth at most", (gap >= -Tol) & (gap <= d + Tol));
        deepest = deepest | (gap >= d - Tol);
    }
    if (boxes) sx::check("one of the contact points is the deepest", deepest);
    if (i.nContacts == 2)
    {
        Vec2 e = i.incContacts[1] - i.incContacts[0];
        sx::check("two contact points are distinct", normSquared(e) > 0);
    }
}
void placed(int s, int k, int line)
{
    static const float dir[14][4] = {{0, 0.25f, 1, 0}, {0.3f, 0, 0, 1}, {0, -0.5f, 1, 0.5f}, {1, 0, -1, 1}, {0.1f, 1, 1, 0}, {-1, 0.2f, 0.25f, 1},
                                     {0, 1.3f, 1, 0}, {-0.6f, 0, 0, 1}, {0, 0.1f, 1, 1}, {0.4f, 0, 1, -2}, {0, -1.2f, 1, 0.25f}, {2, 0.1f, 0.1f, 1}, {0, 0.7f, 2, 1}, {-2, 0, 1, -1}};
    const float* l = dir[line];
    float t        = sx::real("t", -8, 8);
    World w;
    Body* a = w.makeBody(BodyDescriptor{});
    a->addCollider(ColliderDescriptor{form(s)});
    BodyDescriptor d{};
    d.orientation = sx::choose("turned", 2) ? 0.4f : 0.f;
    d.position    = Vec2{l[0] + t * l[2], l[1] + t * l[3]};
    Body* b       = w.makeBody(d);
    b->addCollider(ColliderDescriptor{form(k)});
    ContactConstraint c{const_cast<Collider&>(colliderOf(a)), const_cast<Collider&>(colliderOf(b))};
    manifold(colliderOf(a), colliderOf(b), c.contactInfo(), s <= 1 && k <= 1);
}
} // namespace

// a manifold updated after its bodies moved is the one of the new places
SX_HARNESS(moved, "rounding,split")
{
    int k = sx::choose("shapes", 4);
    static const int S[4][2] = {{0, 0}, {1, 2}, {3, 0}, {4, 5}};
    float t = sx::real("t", -6, 6);
    World w;
    ColliderDescriptor c0{form(S[k][0])}, c1{form(S[k][1])};
    c0.material.penetration.value = c1.material.penetration.value = 100; // the world's own contacts stay inactive
    Body* a = w.makeBody(BodyDescriptor{});
    a->addCollider(c0);
    BodyDescriptor d{};
    int from        = sx::choose("from", 2);
    Vec2 p          = from ? Vec2{0.25f, 1} : Vec2{-1.25f, 0.125f};
    d.position      = p;
    Body* b         = w.makeBody(d);
    b->addCollider(c1);
    const Collider &x = colliderOf(a), &y = colliderOf(b);
    ContactManifold m{x, y};
    m.setMinimumPenetration(0.005f);
    m.update();
    sx::check("there is a contact between overlapping colliders", m.nContacts() > 0);
    Vec2 v = Vec2{t, 0.3f * t + 0.2f};
    b->setVelocity(v);
    w.step(1);
    nearVec("bodies with an inactive contact move freely", b->position(), p + v, 1e-3f);
    m.update();
    auto fr = m.frameManifold(Bodies{a, b});
    ContactInfo i{};
    i.nContacts = fr.nContacts;
    i.normal    = fr.normal;
    for (int j = 0; j < 2; ++j) i.incContacts[j] = fr.contacts[0][j], i.refContacts[j] = fr.contacts[1][j];
    manifold(x, y, i, k == 0);
}
SX_HARNESS(boxes, "rounding,split") { placed(0, 0, sx::choose("line", 3)); }
SX_HARNESS(shapes, "rounding,split")
{
    int s = sx::choose("first", 6), k = sx::choose("second", 6);
    placed(s, k, (s * 6 + k) % 6);
}
SX_HARNESS(more, "rounding,split,thorough")
{
    int s = sx::choose("first", 6), k = sx::choose("second", 6);
    placed(s, k, 7 + sx::choose("line", 7));
}
