//! bound: triangles to pentagons with vertices k/4, |k| <= 1024 (exact float arithmetic), every orientation; vertex counts 0..5 for acceptance
//! assume: none beyond the vertex lattice
#include "common.hpp"
#include "Simu/math/Polygon.hpp"
#include "Simu/math/Edges.hpp"
#include <list>
using namespace h;

namespace
{
float area2(const Vertices& v)
{
    float a = 0;
    for (size_t i = 1; i + 1 < v.size(); ++i) a += cross(v[i] - v[0], v[i + 1] - v[0]);
    return a;
}
void build(int n, int bound)
{
    Vertices in;
    for (int i = 0; i < n; ++i) in.emplace_back(latVec("v", -bound, bound, 2));
    Polygon p(in.begin(), in.end());
    Vertices out(p.begin(), p.end());
    sx::check("the number of vertices is kept", (int)out.size() == n);
    float a = area2(in);
    // shoelace sum in the constructor is about the origin; exact here, so it has the same sign
    sx::check("a polygon is positively oriented unless degenerate", implies(a != 0, area2(out) > 0));
    sx::check("the recorded area is not negative", p.properties().area >= 0);
    sx::check("degenerate exactly when flat", p.properties().isDegenerate == (a == 0));
    bool same = true, rev = true;
    for (int i = 0; i < n; ++i)
    {
        same = same & (out[i][0] == in[i][0]) & (out[i][1] == in[i][1]);
        rev  = rev & (out[i][0] == in[n - 1 - i][0]) & (out[i][1] == in[n - 1 - i][1]);
    }
    sx::check("positively oriented input is kept as is", implies(a >= 0, same));
    sx::check("negatively oriented input is reversed", implies(a < 0, rev));
    auto view = p.vertexView();
    int i     = 0;
    for (const Vertex& v : view)
    {
        sx::check("the vertex view shows the vertices", (v[0] == out[i][0]) & (v[1] == out[i][1]));
        ++i;
    }
    sx::check("the vertex view is complete", i == n);
}
} // namespace

SX_HARNESS(triangle, "int") { build(3, 512); }
SX_HARNESS(quadrilateral, "int") { build(4, 512); }
SX_HARNESS(pentagon, "int") { build(5, 256); }

SX_HARNESS(count, "int")
{
    int n = sx::choose("n", 6), kind = sx::choose("kind", 2);
    bool threw = false;
    std::list<Vec2> l;
    for (int i = 0; i < n; ++i) l.emplace_back(latVec("v", -64, 64));
    Vertices v(l.begin(), l.end());
    try
    {
        if (kind == 0) Polygon p(v.begin(), v.end());
        else Polygon p(l.begin(), l.end());
    }
    catch (const simu::Exception&)
    {
        threw = true;
    }
    sx::check("fewer than three vertices are refused, three or more accepted", threw == (n < 3));
}

SX_HARNESS(box, "int")
{
    float w = sx::lat("w", 1, 1024, 2), d = sx::lat("h", 1, 1024, 2);
    Vec2 c  = latVec("c", -256, 256, 2);
    Polygon p = Polygon::box(Vec2{w, d}, c);
    BoundingBox b{p};
    sx::check("a box has four vertices", p.end() - p.begin() == 4);
    sx::check("a box spans its dimensions", (b.max()[0] - b.min()[0] == w) & (b.max()[1] - b.min()[1] == d));
    sx::check("a box is centered", (b.max()[0] + b.min()[0] == 2 * c[0]) & (b.max()[1] + b.min()[1] == 2 * c[1]));
    int onCorner = 0;
    for (const Vertex& v : p)
        onCorner += ((v[0] == b.min()[0]) | (v[0] == b.max()[0])) & ((v[1] == b.min()[1]) | (v[1] == b.max()[1]));
    sx::check("every vertex of a box is a corner", onCorner == 4);
    Vertices v(p.begin(), p.end());
    sx::check("a box is positively oriented and simple",
              (cross(v[1] - v[0], v[2] - v[1]) > 0) & (cross(v[2] - v[1], v[3] - v[2]) > 0)
                  & (cross(v[3] - v[2], v[0] - v[3]) > 0) & (cross(v[0] - v[3], v[1] - v[0]) > 0));
}
