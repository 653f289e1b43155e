//! bound: bodies of up to three colliders out of four shapes with densities in [1/8, 8], added and removed in any order of up to four steps; any position, orientation, velocity and query region (real, |x| <= 20)
//! assume: exact real arithmetic with exact sine and cosine (rounding excluded)
//# include: strict
#include "worlds.hpp"

namespace
{
constexpr float Tol = 2e-2f;
Polygon piece(int i)
{
    switch (i)
    {
    case 0: return rect(-1, -1, 1, 1);
    case 1: return rect(2, 0, 4, 3);
    case 2: return Polygon{Vertex{0, 2}, Vertex{4, 4}, Vertex{1, 6}};
    default: return rect(-6, -2, -3, -1);
    }
}
struct Part
{
    int shape;
    float density;
    Collider* c;
};
// independent mass properties of the parts about their common center
void massesOf(const Body* b, const std::vector<Part>& parts)
{
    float m = 0, in = 0;
    Vec2 first{};
    for (auto& p : parts)
    {
        MassProperties q{piece(p.shape), p.density};
        m += q.m;
        first += q.centroid * q.m;
    }
    near("the mass is that of the colliders", b->mass(), m, 1e-4f * m);
    nearVec("the center of mass is that of the colliders", b->localCentroid() * m, first, 1e-3f * m);
    for (auto& p : parts)
    {
        MassProperties q{piece(p.shape), p.density};
        in += q.I + q.m * normSquared(q.centroid - b->localCentroid());
    }
    near("the inertia is that of the colliders about the center of mass", b->inertia(), in, 1e-3f * in);
}
void listed(const Body* b, const std::vector<Part>& parts)
{
    std::size_t n = 0;
    bool all = true;
    for (const Collider& c : b->colliders())
    {
        bool found = false;
        for (auto& p : parts) found = found || p.c == &c;
        all = all && found && c.body() == b;
        ++n;
    }
    sx::check("a body has exactly its colliders", all && n == parts.size());
}
// points are placed by the transform, the box contains them tightly
void placed(const Body* b, const std::vector<Part>& parts)
{
    for (auto& p : parts)
    {
        Polygon local = piece(p.shape);
        auto it = local.begin();
        BoundingBox box = p.c->boundingBox();
        bool in = true, l = false, r = false, d = false, u = false;
        for (Vec2 v : p.c->vertexView())
        {
            eqVec("a collider's vertices are transformed to world space", v, b->toWorldSpace() * *it++, Tol);
            in = in & (v[0] >= box.min()[0]) & (v[0] <= box.max()[0]) & (v[1] >= box.min()[1]) & (v[1] <= box.max()[1]);
            l = l | (v[0] == box.min()[0]);
            r = r | (v[0] == box.max()[0]);
            d = d | (v[1] == box.min()[1]);
            u = u | (v[1] == box.max()[1]);
        }
        sx::check("the bounding box contains the vertices", in);
        sx::check("the bounding box is tight", l & r & d & u);
    }
}
} // namespace

SX_HARNESS(masses, "rounding")
{
    World w;
    Body* b = makeBody(w, Vec2{1, -2});
    std::vector<Part> parts{{0, 1, &const_cast<Collider&>(*b->colliders().begin())}};
    int n = sx::choose("parts", 3);
    for (int i = 0; i < n; ++i)
    {
        int s   = 1 + sx::choose("shape", 3);
        float d = sx::real("density", 0.125f, 8);
        parts.push_back({s, d, b->addCollider(ColliderDescriptor{piece(s), dense(d)})});
    }
    massesOf(b, parts);
    listed(b, parts);
    if (sx::choose("remove", 2))
    {
        int k = sx::choose("which", parts.size());
        b->removeCollider(parts[k].c);
        parts.erase(parts.begin() + k);
        if (!parts.empty()) massesOf(b, parts);
        listed(b, parts);
    }
}
// the world's geometry for any placement
SX_HARNESS(placement, "rounding")
{
    World w;
    BodyDescriptor d{};
    d.position    = realVec("p", -20, 20);
    Body* b       = w.makeBody(d);
    std::vector<Part> parts;
    int a = sx::choose("first", 4), c = sx::choose("second", 4);
    parts.push_back({a, 1, b->addCollider(ColliderDescriptor{piece(a)})});
    placed(b, parts);
    parts.push_back({c, 1, b->addCollider(ColliderDescriptor{piece(c)})});
    placed(b, parts);
    b->setVelocity(realVec("v", -4, 4));
    w.step(0.5f);
    placed(b, parts);
}
SX_HARNESS(turned, "rounding")
{
    World w;
    BodyDescriptor d{};
    d.position    = Vec2{3, -1};
    d.orientation = sx::real("a", -3, 3);
    Body* b       = w.makeBody(d);
    std::vector<Part> parts;
    int s = sx::choose("shape", 4);
    parts.push_back({s, 1, b->addCollider(ColliderDescriptor{piece(s)})});
    Collider* c = parts[0].c;
    int i = sx::choose("vertex", 3);
    Vec2 local = *(piece(s).begin() + i), v = *(c->begin() + i);
    eqVec("a vertex is transformed to world space", v, b->toWorldSpace() * local, Tol);
    float co = std::cos(d.orientation), si = std::sin(d.orientation);
    eqVec("a body is turned around its local origin", v, d.position + Vec2{co * local[0] - si * local[1], si * local[0] + co * local[1]}, Tol);
    BoundingBox box = c->boundingBox();
    sx::check("the bounding box contains the vertex", (v[0] >= box.min()[0]) & (v[0] <= box.max()[0]) & (v[1] >= box.min()[1]) & (v[1] <= box.max()[1]));
}
// adding and removing moves neither the other colliders nor the matter's velocity
SX_HARNESS(undisturbed, "rounding")
{
    World w;
    BodyDescriptor d{};
    d.position    = realVec("p", -20, 20);
    d.orientation = sx::choose("turned", 2) ? 0.75f : 0.f;
    Body* b       = w.makeBody(d);
    Collider* c   = b->addCollider(ColliderDescriptor{piece(0)});
    int s         = 1 + sx::choose("shape", 3);
    bool remove   = sx::choose("remove", 2);
    Collider* e   = nullptr;
    if (remove) e = b->addCollider(ColliderDescriptor{piece(s)});
    Vec2 v        = realVec("v", -10, 10);
    float o       = sx::real("w", -10, 10);
    b->setVelocity(v);
    b->setAngularVelocity(o);
    Vec2 at[4], center = b->centroid();
    for (int i = 0; i < 4; ++i) at[i] = *(c->begin() + i);
    if (remove) b->removeCollider(e);
    else b->addCollider(ColliderDescriptor{piece(s)});
    for (int i = 0; i < 4; ++i) nearVec("the other colliders stay where they are", *(c->begin() + i), at[i], 0.01f);
    sx::eq("the angular velocity is kept", b->angularVelocity(), o);
    Vec2 r = b->centroid() - center;
    nearVec("the matter at the center of mass keeps its velocity", b->velocity(), v + Vec2{-o * r[1], o * r[0]}, 0.02f);
}
// the world finds exactly the colliders it has
SX_HARNESS(found, "rounding")
{
    World w;
    Body* a = makeBody(w, Vec2{0, 0});
    Body* b = makeBody(w, Vec2{10, 2});
    std::vector<Collider*> cs{&const_cast<Collider&>(*a->colliders().begin()), &const_cast<Collider&>(*b->colliders().begin())};
    int n = 2 + sx::choose("operations", 2);
    for (int i = 0; i < n; ++i)
    {
        int op = sx::choose("operation", 3);
        if (op == 2)
        {
            if (cs.size() < 2) return;
            int k = sx::choose("which", cs.size());
            cs[k]->body()->removeCollider(cs[k]);
            cs.erase(cs.begin() + k);
        }
        else cs.push_back((op ? b : a)->addCollider(ColliderDescriptor{piece(1 + (i + op) % 3)}));
    }
    float lo = sx::real("lo", -20, 20), hi = sx::real("hi", -20, 20);
    sx::assume(lo <= hi);
    for (Collider* c : cs) // bounds may be rounded
        for (float x : {c->boundingBox().min()[0], c->boundingBox().max()[0]})
            sx::assume((std::abs(lo - x) > 0.01f) & (std::abs(hi - x) > 0.01f));
    BoundingBox q{Vec2{lo, -0.9f}, Vec2{hi, 1.9f}};
    float na = 0, nb = 0, ea = 0, eb = 0;
    w.forEachIn(q, [&](Body* x) { (x == a ? na : nb) += 1; });
    for (Collider* c : cs)
    {
        BoundingBox x = c->boundingBox();
        bool in = (x.min()[0] <= hi) & (x.max()[0] >= lo) & (x.min()[1] <= 1.9f) & (x.max()[1] >= -0.9f);
        (c->body() == a ? ea : eb) += in ? 1 : 0;
    }
    sx::check("a region finds a body once for each of its colliders there", (na == ea) & (nb == eb));
    Vec2 p{lo, 1.1f};
    na = nb = ea = eb = 0;
    w.forEachAt(p, [&](Body* x) { (x == a ? na : nb) += 1; });
    for (Collider* c : cs)
    {
        BoundingBox x = c->boundingBox();
        bool in = (x.min()[0] <= p[0]) & (x.max()[0] >= p[0]) & (x.min()[1] <= p[1]) & (x.max()[1] >= p[1]);
        (c->body() == a ? ea : eb) += in ? 1 : 0;
    }
    sx::check("a point finds a body once for each of its colliders there", (na == ea) & (nb == eb));
}
