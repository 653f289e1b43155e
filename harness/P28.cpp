//! bound: worlds of three bodies (touching and linked), three constraints, a force field and contacts; every history of three (quick) or five (thorough) of nine operations (kills, removed and added colliders, breaking by a threshold (real), steps, clear) followed by steps and the destruction of the world; allocations are followed one by one to find any use after release
//! assume: exact real arithmetic; threshold and strain any reals, |x| <= 10
//# include: strict
#include "worlds.hpp"

namespace
{
struct Log
{
    bool removed = false; // dead at the end of a step
    int made = 0, kill = 0, destroyed = 0, gone = 0, pre = 0, post = 0;
    bool ordered = true;
    const char* what;
};
int removals; // destructors since the step began
struct Logged
{
    Log* l;
    explicit Logged(Log* l) : l{l} {}
    ~Logged()
    {
        ++l->gone;
        ++removals;
    }
    void destroyed()
    {
        if (removals) l->ordered = false;
        ++l->destroyed;
    }
};
template <class T>
struct Of : T, Logged
{
    float strain = 0, limit = 10;
    PhysicsObject* with = nullptr; // killed along
    template <class... A>
    Of(Log* l, A&&... a) : T(std::forward<A>(a)...), Logged{l} {}
    void onConstruction(World& w) override
    {
        T::onConstruction(w);
        ++l->made;
    }
    void onDestruction(World& w) override
    {
        T::onDestruction(w);
        destroyed();
    }
    void onKill() override
    {
        T::onKill();
        ++l->kill;
        if (with) with->kill();
    }
    bool shouldDie() const override { return T::shouldDie() || strain > limit; }
    void preStep() override
    {
        T::preStep();
        ++l->pre;
    }
    void postStep() override
    {
        T::postStep();
        ++l->post;
    }
};
using LBody = Of<Body>;
using LLink = Of<RotationConstraint>;
using LField = Of<Gravity>;
using LContact = Of<ContactConstraint>;
struct Life
{
    Log body[4], link[3], field[2], contact;
    LBody* b[4]{};
    LLink* c[3]{};
    LField* f[2]{};
    bool bodyDead[4]{}, linkDead[3]{}, fieldDead[2]{};
    int bodies = 0, links = 0, fields = 0;
    World* w;
    Life()
    {
        w = new World{[this](Collider& x, Collider& y, const World::ContactAlloc& a) -> UniquePtr<ContactConstraint> {
            return makeUnique<LContact>(a, &contact, x, y);
        }};
        for (int i = 0; i < 3; ++i)
        {
            BodyDescriptor d{};
            d.position = Vec2{1.5f * i, 0};
            b[i]       = w->makeBody<LBody>(&body[i], d);
            collider(i);
        }
        bodies = 3;
        for (int i = 0; i < 2; ++i) c[i] = w->makeConstraint<LLink>(&link[i], Bodies{b[i], b[i + 1]}, false);
        links  = 2;
        f[0]   = w->makeForceField<LField>(&field[0], Vec2{0, 0});
        fields = 1;
    }
    void collider(int i)
    {
        ColliderDescriptor d{square()};
        d.material.penetration.value = 100;
        b[i]->addCollider(d);
    }
    static void state(Log& l, bool dead, bool swept)
    {
        if (dead && swept) l.removed = true;
        sx::check("every object is told once that it is made", l.made == 1);
        sx::check("dead objects are removed by the step, others never", l.gone == (l.removed ? 1 : 0));
        sx::check("objects are told once that they are removed", l.destroyed == (l.removed ? 1 : 0));
        sx::check("objects are told once that they are killed", l.kill <= 1);
        sx::check("objects are told that they are removed before any is released", l.ordered);
    }
    void check(bool swept)
    {
        int nb = 0, nc = 0, nf = 0;
        for (int i = 0; i < bodies; ++i)
        {
            state(body[i], bodyDead[i], swept), nb += !bodyDead[i];
            sx::check("objects are told once that they are killed", body[i].kill == (bodyDead[i] ? 1 : 0));
        }
        for (int i = 0; i < links; ++i) state(link[i], linkDead[i], swept), nc += !linkDead[i];
        for (int i = 0; i < fields; ++i) state(field[i], fieldDead[i], swept), nf += !fieldDead[i];
        if (!swept) return;
        int vb = 0, vc = 0, vf = 0;
        for (Body& x : w->bodies())
        {
            ++vb;
            for (Constraint* k : x.constraints())
            {
                int known = 0;
                for (int i = 0; i < links; ++i)
                    if (!linkDead[i] && k == c[i]) ++known;
                sx::check("bodies list living constraints only", known == 1 && !k->isDead());
            }
            for (ContactConstraint* k : x.contacts())
                sx::check("contacts of a body involve it", k->bodies()[0] == &x || k->bodies()[1] == &x);
        }
        for (Constraint& k : w->constraints()) ++vc, sx::check("removed objects are not in the world", !k.isDead());
        for (ForceField& k : w->forceFields()) ++vf, sx::check("removed objects are not in the world", !k.isDead());
        sx::check("the world has all living objects", vb == nb && vc == nc && vf == nf);
    }
    void step()
    {
        check(false);
        removals = 0;
        Log was[3][4];
        for (int i = 0; i < bodies; ++i) was[0][i] = body[i];
        for (int i = 0; i < links; ++i) was[1][i] = link[i];
        for (int i = 0; i < fields; ++i) was[2][i] = field[i];
        w->step(0.0625f);
        auto told = [](const Log& now, const Log& before, bool dead) {
            sx::check("living objects are told of the start and the end of a step", now.pre - before.pre == (dead ? 0 : 1) && now.post - before.post == (dead ? 0 : 1));
        };
        for (int i = 0; i < bodies; ++i) told(body[i], was[0][i], bodyDead[i]);
        for (int i = 0; i < links; ++i) told(link[i], was[1][i], linkDead[i]);
        for (int i = 0; i < fields; ++i) told(field[i], was[2][i], fieldDead[i]);
        check(true);
    }
    void killBody(int i)
    {
        if (bodyDead[i]) return;
        b[i]->kill();
        bodyDead[i] = true;
        for (int k = 0; k < links; ++k)
            if (!linkDead[k] && (c[k]->bodies()[0] == b[i] || c[k]->bodies()[1] == b[i])) linkDead[k] = true;
    }
    bool operate(int op)
    {
        switch (op)
        {
        case 0: killBody(1); return false;
        case 1: killBody(sx::choose("body", 2) * 2); return false;
        case 2:
            if (linkDead[0]) return true;
            c[0]->kill();
            linkDead[0] = true;
            return false;
        case 3: // breaks by itself
            if (linkDead[1]) return true;
            c[1]->strain = sx::real("strain", -10, 10);
            c[1]->limit  = sx::real("limit", -10, 10);
            if (c[1]->strain > c[1]->limit) linkDead[1] = true;
            return false;
        case 4:
            if (fieldDead[0] || bodyDead[2]) return true;
            // the field takes a body along
            f[0]->with = b[2];
            b[2]->with = f[0];
            f[0]->kill();
            fieldDead[0] = true;
            f[0]->with   = nullptr;
            killBody(2);
            return false;
        case 5:
            if (bodyDead[0]) return true;
            b[0]->removeCollider(const_cast<Collider*>(&*b[0]->colliders().begin()));
            collider(0);
            return false;
        case 6:
            if (bodyDead[1]) return true;
            collider(1);
            return false;
        case 7: step(); return true;
        case 8:
            if (bodies == 4) return true;
            {
                BodyDescriptor d{};
                d.position = Vec2{0.5f, 0.25f};
                b[3]       = w->makeBody<LBody>(&body[3], d);
                bodies     = 4;
                collider(3);
                if (!bodyDead[0])
                {
                    c[2]  = w->makeConstraint<LLink>(&link[2], Bodies{b[0], b[3]}, true);
                    links = 3;
                }
            }
            return false;
        default: return true;
        }
    }
    // everything is released exactly once
    void end()
    {
        delete w;
        for (int i = 0; i < bodies; ++i) sx::check("objects are released exactly once", body[i].gone == 1);
        for (int i = 0; i < links; ++i) sx::check("objects are released exactly once", link[i].gone == 1);
        for (int i = 0; i < fields; ++i) sx::check("objects are released exactly once", field[i].gone == 1);
        sx::check("contacts are released exactly once", contact.gone == contact.made);
    }
};
void history(int n)
{
    Life l;
    l.step();
    for (int i = 0; i < n; ++i) l.operate(sx::choose("operation", 9));
    l.step();
    sx::check("contacts are told once that they are removed", l.contact.destroyed == l.contact.gone);
    sx::check("contacts are told that they are removed before any object is released", l.contact.ordered);
    l.step();
    sx::check("contacts are told once that they are removed", l.contact.destroyed == l.contact.gone);
    l.end();
}
} // namespace

SX_HARNESS(histories, "rounding,quickonly") { history(3); }
SX_HARNESS(long_, "rounding,thorough") { history(5); }
SX_HARNESS(cleared, "rounding")
{
    Life l;
    l.step();
    l.operate(sx::choose("operation", 9));
    if (sx::choose("step", 2)) l.step();
    l.w->clear();
    int n = 0;
    for (Body& b : l.w->bodies()) (void)b, ++n;
    for (Constraint& b : l.w->constraints()) (void)b, ++n;
    for (ForceField& b : l.w->forceFields()) (void)b, ++n;
    for (ContactConstraint& b : l.w->contacts()) (void)b, ++n;
    l.w->forEachIn(BoundingBox{Vec2{-50, -50}, Vec2{50, 50}}, [&](Body*) { ++n; });
    sx::check("a cleared world is empty", n == 0);
    l.w->step(0.0625f);
    Body* b = makeBody(*l.w, Vec2{0, 0});
    Body* c = makeBody(*l.w, Vec2{1.5f, 0});
    float v = sx::real("v", -8, 8);
    b->setVelocity(Vec2{v, 0});
    l.w->step(0.0625f);
    nearVec("a cleared world is usable", b->position(), Vec2{v * 0.0625f, 0}, 1e-3f);
    (void)c;
    l.end();
}
