//! bound: up to three bodies (one with two colliders, some structural) one of which is at any place along a line (real, |t| <= 8) and moves by any distance in a second step; constraints that disable contacts made and killed between steps; contact forces switched off by their penetration tolerance
//! assume: exact real arithmetic (rounding excluded: boxes do not touch within 0.01)
//# include: strict
#include "worlds.hpp"

namespace
{
struct Site
{
    World w;
    std::vector<Body*> b;
    std::vector<const Collider*> c;
    Body* add(Vec2 p, float dominance, int colliders = 1)
    {
        BodyDescriptor d{};
        d.position  = p;
        d.dominance = dominance;
        Body* x     = w.makeBody(d);
        for (int i = 0; i < colliders; ++i)
        {
            ColliderDescriptor cd{rect(-1 + 3.f * i, -1, 1 + 3.f * i, 1)};
            cd.material.penetration.value = 100; // contacts without forces
            c.push_back(x->addCollider(cd));
        }
        b.push_back(x);
        return x;
    }
};
// how far two boxes overlap, negative when they do not
float overlap(const Collider* a, const Collider* b)
{
    BoundingBox x = a->boundingBox(), y = b->boundingBox();
    float o = 1e9f;
    for (int i = 0; i < 2; ++i) o = std::min(o, std::min(x.max()[i] - y.min()[i], y.max()[i] - x.min()[i]));
    return o;
}
bool disabled(Body* x, Body* y)
{
    for (Constraint* k : x->constraints())
        if (k->disablesContacts() && (k->bodies()[0] == y || k->bodies()[1] == y)) return true;
    return false;
}
void contacts(Site& s)
{
    int n = 0;
    for (size_t i = 0; i < s.c.size(); ++i)
        for (size_t j = 0; j < i; ++j)
        {
            const Collider *x = s.c[i], *y = s.c[j];
            Body *p = nullptr, *q = nullptr;
            for (Body* z : s.b)
            {
                if (x->body() == z) p = z;
                if (y->body() == z) q = z;
            }
            float o  = overlap(x, y);
            sx::assume((o > 0.01f) | (o < -0.01f));
            bool want = o > 0 && p != q && !disabled(p, q) && !(p->isStructural() && q->isStructural());
            int live = 0;
            for (ContactConstraint& k : s.w.contacts())
                if (((k.colliders()[0] == x && k.colliders()[1] == y) || (k.colliders()[0] == y && k.colliders()[1] == x)) && !k.isDead()) ++live;
            sx::check("colliders have one contact exactly if their boxes overlap, on bodies that may collide", live == (want ? 1 : 0));
            n += live;
        }
    int all = 0, linked = 0;
    for (ContactConstraint& k : s.w.contacts())
    {
        if (k.isDead()) continue;
        ++all;
        int found = 0;
        for (Body* z : s.b)
            for (ContactConstraint* l : z->contacts())
                if (l == &k)
                {
                    ++found;
                    sx::check("contacts of a body involve it", k.bodies()[0] == z || k.bodies()[1] == z);
                }
        sx::check("both bodies know their contact", found == 2);
    }
    for (Body* z : s.b)
        for (ContactConstraint* l : z->contacts())
            if (!l->isDead()) ++linked;
    sx::check("there are no other contacts", all == n);
    sx::check("bodies know no other contacts", linked == 2 * n);
}
} // namespace

namespace
{
void overlaps(bool crowd, bool moves)
{
    Site s;
    int k = sx::choose("structural", 4);
    s.add(Vec2{0, 0}, k & 1 ? 0.f : 1.f, 2);
    s.add(Vec2{sx::real("t", -8, 8), 0.5f}, k & 2 ? 0.f : 1.f);
    if (crowd) s.add(Vec2{4, 1.5f}, 1);
    s.w.step(1);
    contacts(s);
    s.b[1]->setVelocity(Vec2{moves ? sx::real("v", -8, 8) : 2.5f, 0});
    s.w.step(1);
    contacts(s);
    s.w.step(0);
    contacts(s);
}
} // namespace
SX_HARNESS(overlaps, "rounding,quickonly") { overlaps(false, true); }
SX_HARNESS(crowd, "rounding,quickonly") { overlaps(true, false); }
SX_HARNESS(crowdMoves, "rounding,thorough") { overlaps(true, true); }
// bodies linked by constraints that disable contacts
SX_HARNESS(linked, "rounding")
{
    Site s;
    Body* a = s.add(Vec2{0, 0}, 1);
    Body* b = s.add(Vec2{sx::real("t", -4, 4), 0.5f}, 1, 2);
    Body* c = s.add(Vec2{1.25f, 1.5f}, 1);
    auto link = [&](Body* x, Body* y, bool disables) { return s.w.makeConstraint<RotationConstraint>(Bodies{x, y}, disables); };
    int k = sx::choose("links", 4);
    Constraint* l = k == 0 ? link(a, b, true) : k == 1 ? link(b, a, true) : k == 2 ? link(a, b, false) : link(c, b, true);
    s.w.step(1);
    contacts(s);
    int then = sx::choose("then", 3);
    if (then == 0) l->kill();
    else if (then == 1) link(b, c, true);
    s.w.step(1);
    contacts(s);
    s.w.step(1);
    contacts(s);
}
// contacts made by a factory
SX_HARNESS(factory, "rounding")
{
    Site s;
    static int made;
    made      = 0;
    auto make = [](Collider& x, Collider& y, const World::ContactAlloc& alloc) {
        ++made;
        return World::defaultContactFactory(x, y, alloc);
    };
    bool early = sx::choose("early", 2);
    if (early) s.w.setContactFactory(make);
    s.add(Vec2{0, 0}, 1);
    s.add(Vec2{sx::real("t", -4, 4), 0.5f}, 1, 2);
    s.w.step(1);
    contacts(s);
    int n = 0;
    for (ContactConstraint& k : s.w.contacts()) n += !k.isDead();
    sx::check("contacts are made by the factory, each once", made == (early ? n : 0));
    if (!early)
    {
        s.w.setContactFactory(make);
        int left = 0;
        for (ContactConstraint& k : s.w.contacts()) left += !k.isDead();
        sx::check("a new factory starts with no contacts", left == 0);
        for (Body* b : s.b)
            for (ContactConstraint* k : b->contacts()) sx::check("bodies forget contacts that are removed", k == nullptr);
    }
    s.w.step(1);
    contacts(s);
    s.w.step(1);
    contacts(s);
    sx::check("contacts are made by the factory, each once", made == n);
}
