//! bound: one application with two scenes; up to four keys (all actions), over all times of a frame, velocities, play speeds, window sizes, scrolls and cameras (real)
//! assume: exact real arithmetic (rounding excluded beyond a tolerance of 0.001); GLFW, OpenGL and Dear ImGui replaced by stand-ins that only hold state and call back
//# include: gui
#include "apps.hpp"

namespace
{
constexpr float Frame = 1.f / 60.f;
struct Play : Scene
{
    Body* b    = nullptr;
    int inits  = 0;
    int pre = 0, post = 0;
    float dt   = 0;
    Vec2 v{};
    bool taken = false; // input used
    int keys = 0;
    void init(Renderer&) override
    {
        ++inits;
        b = makeBody(world(), Vec2{0, 0});
        b->setVelocity(v);
    }
    void preStep(float t) override
    {
        ++pre;
        dt = t;
        sx::check("the scene is told before the world moves", b->position()[0] == at[0]);
    }
    void postStep(float t) override
    {
        ++post;
        sx::check("the scene is told the same time before and after", t == dt);
        at = b->position();
    }
    Vec2 at{};
};
struct Run
{
    Application app;
    Play* s;
    Run()
    {
        app.registerScene<Play>("play");
        s = static_cast<Play*>(app.scene());
    }
    void key(int k, int action = GLFW_PRESS) { glfwTheWindow.key(&glfwTheWindow, k, 0, action, 0); }
    void press(char k, int action = GLFW_PRESS) { key(static_cast<int>(k), action); }
    // dt of a frame
    void moved(const char* label, float time, float before)
    {
        near(label, s->b->position()[0] - before, s->v[0] * time, 1e-3f);
        near(label, s->dt, time, 1e-4f);
    }
};
} // namespace

// frames move the world by their duration, 1/60 s at most, times the play speed
SX_HARNESS(frames, "rounding")
{
    Run r;
    r.s->v = Vec2{sx::real("v", -8, 8), 0};
    r.s->reset();
    float speed = 1;
    if (sx::choose("speed", 2))
    {
        float x = sx::real("speed", -4, 4);
        r.s->setPlaySpeed(x);
        if (x > 0) speed = x;
    }
    sx::eq("play speeds above 0 are set, others ignored", r.s->playSpeed(), speed);
    for (int i = 0; i < 2; ++i)
    {
        if (sx::choose("pause", 2)) r.press('P');
        bool paused = r.s->isPaused();
        float dt    = sx::real("dt", 0, 0.5f);
        float x     = r.s->b->position()[0];
        int pre = r.s->pre, post = r.s->post;
        r.s->step(dt);
        r.moved("a frame moves the world by its time", paused ? 0 : (dt > Frame ? Frame : dt) * speed, x);
        sx::check("a scene is told once of every frame", r.s->pre == pre + 1 && r.s->post == post + 1);
    }
}
// the keys of a scene
SX_HARNESS(keys, "rounding")
{
    Run r;
    r.s->v = Vec2{sx::real("v", -8, 8), 0};
    r.s->reset();
    float speed = 1;
    bool paused = false, closed = false;
    const int keys[6] = {'P', '-', '=', 'S', 'R', GLFW_PRESS + 255};
    for (int i = 0; i < (sx::tier() ? 4 : 3); ++i)
    {
        int k = sx::choose("key", 6), action = sx::choose("action", 3);
        float x   = r.s->b->position()[0];
        int inits = r.s->inits, pre = r.s->pre;
        int key   = k == 5 ? static_cast<int>(Keyboard::Key::escape) : keys[k];
        r.key(key, action);
        bool press = action == GLFW_PRESS;
        if (press && k == 0) paused = !paused;
        if (press && k == 1) speed /= 2;
        if (press && k == 2) speed *= 2;
        if (press && k == 5) closed = true;
        if (action != GLFW_RELEASE && k == 3)
        {
            r.moved("the step key moves the world by a frame", Frame * speed, x);
            sx::check("a scene is told once of every frame", r.s->pre == pre + 1);
        }
        else
            sx::check("other keys do not move the world", r.s->pre == pre);
        if (press && k == 4)
        {
            sx::check("the reset key makes the scene anew", r.s->inits == inits + 1);
            int n = 0;
            for (Body& b : r.s->world().bodies()) (void)b, ++n;
            sx::check("a scene made anew has nothing old", n == 1);
            nearVec("a scene made anew starts over", r.s->b->position(), Vec2{0, 0}, 1e-6f);
            r.s->at = Vec2{0, 0};
        }
        else
            sx::check("only the reset key makes the scene anew", r.s->inits == inits);
        sx::check("the pause key pauses and resumes", r.s->isPaused() == paused);
        sx::check("the speed keys double and halve the play speed", r.s->playSpeed() == speed);
        sx::check("the escape key closes the application", (glfwTheWindow.close != 0) == closed);
    }
}
// what the menus capture does not reach the scene
SX_HARNESS(captured, "rounding")
{
    Run r;
    bool k = sx::choose("keyboard", 2), m = sx::choose("mouse", 2);
    ImGui::io.WantCaptureKeyboard = k;
    ImGui::io.WantCaptureMouse    = m;
    r.press('P');
    sx::check("captured keys do not reach the scene", r.s->isPaused() == !k);
    glfwTheWindow.scroll(&glfwTheWindow, 0, 1);
    sx::check("captured scrolls do not reach the scene", (r.s->camera().zoom() != 1) == !m);
    ImGui::io = ImGuiIO{};
}
// zoom by the wheel
SX_HARNESS(wheel, "rounding")
{
    Run r;
    float z = sx::real("zoom", 0.125f, 8);
    r.s->camera().setZoom(z);
    const float scrolls[7] = {0, 0.5f, 1, 2, -0.5f, -1, -2};
    float y = scrolls[sx::choose("scroll", 7)];
    glfwTheWindow.scroll(&glfwTheWindow, sx::real("x", -4, 4), y);
    float now = r.s->camera().zoom();
    sx::check("scrolling up zooms in", (y <= 0) | (now > z));
    sx::check("scrolling down zooms out", (y >= 0) | (now < z));
    sx::check("no scrolling keeps the zoom", (y != 0) | (now == z));
    if (y == 1) near("a notch zooms by a quarter", now, z * 1.25f, 1e-3f);
    glfwTheWindow.scroll(&glfwTheWindow, 0, -y);
    near("scrolling back restores the zoom", r.s->camera().zoom(), z, 1e-3f);
}
// the camera follows the arrows at 500 pixels a second
SX_HARNESS(arrows, "rounding")
{
    Run r;
    float z = sx::real("zoom", 0.125f, 8), px = sx::real("pixel", 0.03125f, 1), dt = sx::real("dt", 0, 0.5f);
    r.s->camera().setZoom(z);
    r.s->camera().setPixelSize(px);
    bool k[4];
    const Keyboard::Key keys[4] = {Keyboard::Key::left, Keyboard::Key::right, Keyboard::Key::up, Keyboard::Key::down};
    for (int i = 0; i < 4; ++i)
    {
        k[i] = sx::choose("key", 2);
        glfwTheWindow.keys[static_cast<int>(keys[i])] = k[i] ? GLFW_PRESS : GLFW_RELEASE;
    }
    Vec2 d{static_cast<float>(k[1]) - k[0], static_cast<float>(k[2]) - k[3]};
    r.s->step(dt);
    float t   = dt > Frame ? Frame : dt;
    float len = std::sqrt(d[0] * d[0] + d[1] * d[1]);
    if (len > 0) d = d / len;
    Vec2 c = r.s->camera().center();
    near("arrows move the camera by 500 pixels a second", c[0] * z, d[0] * 500 * px * t, 2e-3f);
    near("arrows move the camera by 500 pixels a second", c[1] * z, d[1] * 500 * px * t, 2e-3f);
}
namespace
{
struct Other : Play
{
};
// one turn of the application
void turn(Application& a, float dt)
{
    static bool more;
    glfwTheWindow.time  = dt;
    glfwTheWindow.close = 0;
    more                = true;
    glfwTheWindow.poll  = [] { glfwTheWindow.close = 1; }; // after this turn
    a.run();
    glfwTheWindow.close = 0;
    ImGui::item = ImGui::line = ImGui::button = nullptr;
}
} // namespace
// the application runs the scene that was chosen
SX_HARNESS(scenes, "rounding")
{
    Application app;
    app.registerScene<Play>("play");
    app.registerScene<Other>("other");
    Play* first = static_cast<Play*>(app.scene());
    sx::check("the scene registered first runs first", first->inits == 1 && first->app() == &app);
    Play* now   = first;
    Play* other = nullptr;
    float px = sx::real("pixel", 0.03125f, 1);
    for (int i = 0; i < 4; ++i)
    {
        int to = sx::choose("scene", 3);
        if (to) ImGui::line = to == 1 ? "play" : "other";
        int f = first->pre, o = other ? other->pre : 0, inits = now->inits;
        if (sx::choose("size", 2)) glfwTheWindow.w = glfwTheWindow.w == 640 ? 800 : 640, glfwTheWindow.resize(&glfwTheWindow, glfwTheWindow.w, 480);
        now->camera().setPixelSize(px);
        Play* before = now;
        turn(app, Frame);
        now = static_cast<Play*>(app.scene());
        if (now != first) other = now;
        sx::check("the chosen scene runs", to == 0 ? now == before : to == 1 ? now == first : now != first);
        sx::check("a scene that is not changed goes on", now != before || now->inits == inits);
        sx::check("only the scene that runs is stepped", first->pre == f + (now == first) && (!other || other->pre == o + (now == other)));
        sx::check("the running scene knows its application, others none", now->app() == &app && (now == before || before->app() == nullptr));
        if (now != before) near("the view has the size of the window", now->camera().viewDimensions()[0], glfwTheWindow.w * now->camera().pixelSize(), 1e-2f);
    }
    sx::check("every turn is shown", glfwTheWindow.shown == 4);
}
// what the menus say
SX_HARNESS(menus, "rounding")
{
    Run r;
    r.s->v = Vec2{sx::real("v", -8, 8), 0};
    r.s->reset();
    ImGui::item = "Controls";
    turn(r.app, 0);
    float speed = 1;
    bool paused = false;
    for (int i = 0; i < 3; ++i)
    {
        float x = r.s->b->position()[0];
        int inits = r.s->inits;
        int k     = sx::choose("click", 6);
        if (k == 0) ImGui::button = paused ? "Play (P)" : "Pause (P)", paused = !paused;
        if (k == 1) ImGui::button = "-", speed /= 2;
        if (k == 2) ImGui::button = "+", speed *= 2;
        if (k == 3) ImGui::button = "Restart (R)", x = 0, r.s->at = Vec2{0, 0};
        if (k == 4) r.press('P'), paused = !paused;
        turn(r.app, Frame);
        sx::check("the pause button pauses and resumes as the key does", r.s->isPaused() == paused);
        sx::check("the speed buttons double and halve the play speed", r.s->playSpeed() == speed);
        sx::check("the restart button makes the scene anew", r.s->inits == inits + (k == 3));
        r.moved("a frame moves the world by its time", paused ? 0 : Frame * speed, x);
    }
    ImGui::item = "Controls"; // closes them
    turn(r.app, 0);
}
// the window
SX_HARNESS(window, "rounding")
{
    Run r;
    const int sizes[6] = {1, 480, 640, 1080, 3840, 4096};
    int w = sizes[sx::choose("w", 6)], h = sizes[sx::choose("h", 6)];
    r.s->camera().setPixelSize(sx::real("pixel", 0.03125f, 1));
    glfwTheWindow.w = w, glfwTheWindow.h = h;
    glfwTheWindow.resize(&glfwTheWindow, w, h);
    Vec2 d = r.s->camera().viewDimensions();
    near("the view has the size of the window", d[0], w * r.s->camera().pixelSize(), 1e-2f);
    near("the view has the size of the window", d[1], h * r.s->camera().pixelSize(), 1e-2f);
    glfwTheWindow.frame(&glfwTheWindow, w, h);
    sx::check("the picture fills the window", gl::state.viewport[0] == 0 && gl::state.viewport[1] == 0 && gl::state.viewport[2] == w && gl::state.viewport[3] == h);
}
