//! bound: one application; all mouse positions, cameras (real) and window sizes; every history of up to three (quick) or five (thorough) mouse, tool, reset, kill and step events with the grabber on two bodies; boxes of all positions and sizes (real)
//! assume: exact real arithmetic (rounding excluded beyond a tolerance of 0.002); GLFW, OpenGL and Dear ImGui replaced by stand-ins that only hold state and call back; memory is followed one allocation at a time to find any use after release
//# include: strict
//# include: gui
#include "apps.hpp"

namespace
{
struct Seen
{
    int presses = 0, moves = 0, scrolls = 0, keys = 0;
    Vec2 at{};
};
struct Probe : Tool
{
    static constexpr char name[] = "Probe";
    Seen seen;
    bool use = false;
    void doGui() override {}
    const char* getName() const override { return name; }
    bool onKeypress(Keyboard::Input) override { return ++seen.keys, use; }
    bool onMousePress(Mouse::Input i) override { return ++seen.presses, seen.at = i.pos, use; }
    bool onMouseMove(Vec2 p) override { return ++seen.moves, seen.at = p, use; }
    bool onMouseScroll(Vec2) override { return ++seen.scrolls, use; }
};
struct Desk : Scene
{
    Body* b[3]{};
    Seen seen;
    int bodies = 0;
    Desk()
    {
        registerAllTools();
        registerTool<Probe>();
    }
    using Scene::currentTool;
    using Scene::useTool;
    void init(Renderer&) override
    {
        for (int i = 0; i < bodies; ++i) b[i] = makeBody(world(), Vec2{4.f * i, 0}, 0, i == 2 ? 0 : 1);
    }
    bool onKeypress(Keyboard::Input) override { return ++seen.keys, true; }
    bool onMousePress(Mouse::Input i) override { return ++seen.presses, seen.at = i.pos, true; }
    bool onMouseMove(Vec2 p) override { return ++seen.moves, seen.at = p, true; }
    bool onMouseScroll(Vec2) override { return ++seen.scrolls, true; }
};
struct Run
{
    Application app;
    Desk* s;
    Run(int bodies = 0)
    {
        app.registerScene<Desk>("desk");
        s         = static_cast<Desk*>(app.scene());
        s->bodies = bodies;
        s->reset();
    }
    GLFWwindow* w = &glfwTheWindow;
    // the mouse at a point of the scene, for the default camera and window (64 x 48)
    void put(Vec2 p) { w->x = (p[0] + 32) * 10, w->y = (24 - p[1]) * 10; }
    void press(int action = GLFW_PRESS, int button = 0) { w->button(w, button, action, 0); }
    void move() { w->cursor(w, w->x, w->y); }
};
VisibleMouseConstraint* held(World& w)
{
    VisibleMouseConstraint* m = nullptr;
    for (Constraint& c : w.constraints())
        if (!c.isDead())
        {
            sx::check("at most one body is held", m == nullptr);
            m = dynamic_cast<VisibleMouseConstraint*>(&c);
            sx::check("the grabber makes mouse constraints", m != nullptr);
        }
    return m;
}
} // namespace

// where the mouse is in the scene
SX_HARNESS(pointer, "rounding")
{
    Run r;
    const int sizes[4] = {1, 480, 640, 4096};
    r.w->w = sizes[sx::choose("w", 4)], r.w->h = sizes[sx::choose("h", 4)];
    r.w->resize(r.w, r.w->w, r.w->h);
    float z = sx::real("zoom", 0.125f, 8);
    Vec2 c  = realVec("center", -50, 50);
    Camera& cam = r.s->camera();
    cam.setZoom(z);
    cam.panTo(c);
    // a point given in the units of the view
    Vec2 p = realVec("p", -1, 1);
    r.w->x = (p[0] + 1) / 2 * r.w->w;
    r.w->y = (1 - p[1]) / 2 * r.w->h;
    if (sx::choose("event", 2)) r.move();
    else r.press();
    sx::check("the mouse reaches the scene", r.s->seen.moves + r.s->seen.presses == 1);
    Vec2 d = cam.viewDimensions();
    near("the mouse is where it is seen", (r.s->seen.at[0] - c[0]) * z, p[0] * d[0] / 2, 0.02f);
    near("the mouse is where it is seen", (r.s->seen.at[1] - c[1]) * z, p[1] * d[1] / 2, 0.02f);
}
// events go to the tool, then to the scene
SX_HARNESS(order, "rounding")
{
    Run r;
    auto* t = static_cast<Probe*>(r.s->useTool("Probe"));
    sx::check("a tool is used by its name", r.s->currentTool() == t && std::string{t->getName()} == "Probe");
    t->use = sx::choose("use", 2);
    int n  = t->use ? 0 : 1;
    switch (sx::choose("event", 4))
    {
    case 0: r.press(); sx::check("input goes to the tool, then unless it is used to the scene", t->seen.presses == 1 && r.s->seen.presses == n); break;
    case 1: r.move(); sx::check("input goes to the tool, then unless it is used to the scene", t->seen.moves == 1 && r.s->seen.moves == n); break;
    case 2: r.w->scroll(r.w, 0, 1); sx::check("input goes to the tool, then unless it is used to the scene", t->seen.scrolls == 1 && r.s->seen.scrolls == n); break;
    default: r.w->key(r.w, 'A', 0, GLFW_PRESS, 0); sx::check("input goes to the tool, then unless it is used to the scene", t->seen.keys == 1 && r.s->seen.keys == n); break;
    }
    bool threw = false;
    try
    {
        r.s->useTool("no such tool");
    }
    catch (simu::Exception&)
    {
        threw = true;
    }
    sx::check("unknown tools are refused", threw && r.s->currentTool() == t);
}
// what the grabber takes hold of
SX_HARNESS(grab, "rounding")
{
    Run r{3};
    r.s->useTool("Grabber");
    World& w = r.s->world();
    w.step(0.0625f);
    Vec2 p = realVec("p", -4, 12);
    for (float x : {-1, 1, 3, 5, 7, 9}) sx::assume((p[0] - x > 0.01f) | (x - p[0] > 0.01f));
    for (float x : {-1, 1}) sx::assume((p[1] - x > 0.01f) | (x - p[1] > 0.01f));
    r.put(p);
    int button = sx::choose("button", 2);
    r.press(GLFW_PRESS, button);
    bool y = (p[1] < 1) & (p[1] > -1);
    Body* at = nullptr;
    if (y && p[0] > -1 && p[0] < 1) at = r.s->b[0];
    else if (y && p[0] > 3 && p[0] < 5) at = r.s->b[1];
    if (button == 1) at = nullptr;
    auto* m = held(w);
    sx::check("the left button holds the body under the mouse", (m != nullptr) == (at != nullptr));
    if (m)
    {
        sx::check("the left button holds the body under the mouse", m->bodies()[0] == at);
        nearVec("the body is held where the mouse is", m->mousePos(), p, 2e-3f);
        nearVec("the body is held where the mouse is", m->bodyPos(), p, 2e-3f);
        Vec2 q = realVec("q", -10, 10);
        r.put(q);
        r.move();
        sx::check("a move of the mouse that holds is used", r.s->seen.moves == 0);
        nearVec("the hold follows the mouse", m->mousePos(), q, 2e-3f);
        r.press(GLFW_RELEASE, 1);
        sx::check("other buttons do not let go", held(w) == m);
        r.press(GLFW_RELEASE, 0);
        sx::check("the body is let go with the button", held(w) == nullptr);
        r.move();
        sx::check("a move of the mouse that holds nothing is not used", r.s->seen.moves == 1);
    }
}
namespace
{
void history(int n)
{
    Run r{2};
    r.s->useTool("Grabber");
    World& w = r.s->world();
    bool alive[2]{true, true};
    int hold = -1; // body held
    w.step(0.015625f);
    auto moved = [&](Vec2 p) {
        r.put(p);
        r.move();
        auto* m = held(w);
        sx::check("a body is held from the button down to the button up", (m != nullptr) == (hold >= 0));
        if (m && hold >= 0)
        {
            sx::check("the held body stays held", m->bodies()[0] == r.s->b[hold]);
            nearVec("the hold follows the mouse", m->mousePos(), p, 2e-3f);
        }
    };
    for (int i = 0; i < n; ++i)
    {
        switch (sx::choose("event", 7))
        {
        case 0:
        case 1:
        {
            int k = sx::choose("body", 2);
            r.put(alive[k] ? r.s->b[k]->position() : Vec2{0, 10});
            r.press();
            if (alive[k]) hold = k;
            break;
        }
        case 2:
            r.press(GLFW_RELEASE);
            hold = -1;
            break;
        case 3:
            r.w->key(r.w, 0, 0, GLFW_RELEASE, 0);
            r.s->reset();
            alive[0] = alive[1] = true;
            hold     = -1;
            w.step(0.015625f);
            break;
        case 4:
        {
            int k = hold >= 0 ? hold : 0;
            if (!alive[k]) break;
            r.s->b[k]->kill();
            alive[k] = false;
            if (hold == k) hold = -1;
            w.step(0.015625f);
            break;
        }
        case 5: w.step(0.015625f); break;
        default:
        {
            // something else is made where the hold was
            if (!alive[0]) break;
            auto* c = w.makeConstraint<VisibleMouseConstraint>(r.s->b[0], Vec2{0, 0}, r.app.renderer());
            c->kill();
            w.step(0.015625f);
            break;
        }
        }
        moved(Vec2{i + 1 < n ? 3.f - 5 * i : sx::real("x", -20, 20), 5});
    }
}
} // namespace
SX_HARNESS(holding, "rounding,quickonly") { history(3); }
SX_HARNESS(holdingMore, "rounding,thorough") { history(5); }
// boxes
SX_HARNESS(boxes, "rounding")
{
    Run r;
    auto* t = static_cast<BoxSpawner*>(r.s->useTool("Box Spawner"));
    Vec2 p  = realVec("p", -20, 20);
    t->dims      = realVec("dims", 0.125f, 16);
    t->density   = sx::real("density", 0.125f, 16);
    t->dominance = sx::real("dominance", 0.125f, 16);
    t->friction  = sx::real("friction", 0, 1);
    t->bounciness = sx::real("bounciness", 0, 1);
    r.put(p);
    int button = sx::choose("button", 2), action = sx::choose("action", 2);
    r.press(action, button);
    int n = 0;
    for (Body& b : r.s->world().bodies())
    {
        ++n;
        nearVec("a box is made where the mouse is", b.position(), p, 2e-3f);
        near("a box has the dominance asked for", b.dominance(), t->dominance, 0);
        int k = 0;
        for (const Collider& c : b.colliders())
        {
            ++k;
            near("a box has the density asked for", c.material().density, t->density, 0);
            near("a box has the friction asked for", c.material().friction.value, t->friction, 0);
            near("a box has the bounciness asked for", c.material().bounciness.value, t->bounciness, 0);
            Vec2 d = c.boundingBox().max() - c.boundingBox().min();
            nearVec("a box has the size asked for", d, t->dims, 4e-3f);
        }
        sx::check("a box is one collider", k == 1);
    }
    sx::check("the left button makes one box", n == (button == 0 && action == GLFW_PRESS ? 1 : 0));
}
