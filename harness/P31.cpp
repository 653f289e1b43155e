//! bound: all camera centers |x| <= 100, zooms in [1/8, 8] and view sizes in [1, 64] with real values; refused values over all IEEE singles
//! assume: exact real arithmetic (no rounding) for the mapping
#include "common.hpp"
#include "Simu/physics/Transform.hpp"
#include "Simu/app/Camera.hpp"
#include "Simu/app/Camera.cpp"
using namespace h;

SX_HARNESS(mapping, "")
{
    Camera c;
    Vec2 o = realVec("center", -100, 100);
    float z = sx::real("zoom", 0.125f, 8);
    Vec2 d  = realVec("view", 1, 64);
    c.panTo(o);
    c.setZoom(z);
    c.setViewDimensions(d);
    eqVec("the center is set", c.center(), o);
    sx::eq("the zoom is set", c.zoom(), z);
    eqVec("the view dimensions are set", c.viewDimensions(), d);
    Vec2 p = realVec("p", -100, 100);
    Vec2 m = c.transform() * p;
    sx::eq("horizontal mapping to [-1, 1]", m[0] * d[0], (p[0] - o[0]) * 2 * z, 1e-2f);
    sx::eq("vertical mapping to [-1, 1]", m[1] * d[1], (p[1] - o[1]) * 2 * z, 1e-2f);
    Vec2 b = c.invTransform() * m;
    eqVec("the inverse mapping undoes the mapping", b, p, 1e-2f);
    Vec2 q = realVec("q", -1, 1);
    eqVec("the mapping undoes the inverse mapping", c.transform() * (c.invTransform() * q), q, 1e-2f);
    c.pan(p);
    eqVec("panning adds the offset", c.center(), o + p);
    c.panTo(p);
    eqVec("panning to a point centers it", c.center(), p);
    float px = sx::real("pixel", 0.125f, 4);
    c.setPixelSize(px);
    sx::eq("pixel size is set", c.pixelSize(), px);
    Vec2 s = realVec("screen", 1, 2000);
    c.setDimensionsFromScreenCoordinates(s);
    eqVec("a screen is as large as its pixels", c.viewDimensions(), s * px);
}
SX_HARNESS(zooming, "")
{
    Camera c;
    float z = sx::real("zoom", 0.125f, 8);
    c.setZoom(z);
    c.zoomIn();
    sx::eq("zooming in", 4 * c.zoom(), 5 * z);
    c.setZoom(z);
    c.zoomOut();
    sx::eq("zooming out", 5 * c.zoom(), 4 * z);
}
SX_HARNESS(refused, "fp")
{
    Camera c;
    float z = sx::fp("zoom");
    c.setZoom(z);
    sx::check("the zoom stays positive", c.zoom() > 0);
    sx::check("a positive zoom is taken", !(z > 0) | (c.zoom() == z));
    sx::check("any other zoom is ignored", (z > 0) | (c.zoom() == 1));
    float x = sx::fp("x"), y = sx::fp("y");
    c.setViewDimensions(Vec2{x, y});
    Vec2 v = c.viewDimensions();
    bool ok = (x > 0) & (y > 0);
    sx::check("the view stays positive", (v[0] > 0) & (v[1] > 0));
    sx::check("positive dimensions are taken", !ok | ((v[0] == x) & (v[1] == y)));
    sx::check("any other dimensions are ignored", ok | ((v[0] == 2) & (v[1] == 2)));
}
