//! bound: geometries of 1..6 vertices (support), 3..5 vertices (edges) with arbitrary real coordinates |x| <= 100; one symbolic pair of edges for clipping
//! assume: exact real arithmetic (no rounding)
#include "common.hpp"
#include "Simu/math/Polygon.hpp"
#include "Simu/math/Edges.hpp"
#include "Simu/math/Gjk.hpp"
#include <list>
using namespace h;

SX_HARNESS(support, "")
{
    int n = 1 + sx::choose("n", sx::tier() ? 5 : 4);
    Vertices v;
    for (int i = 0; i < n; ++i) v.emplace_back(realVec("v", -100, 100));
    Vec2 d = realVec("d", -10, 10);
    sx::assume((d[0] != 0) | (d[1] != 0));
    Vec2 f       = furthestVertexInDirection(v, d);
    bool isOne   = false, furthest = true;
    float tol    = sx::symbolic() ? 0.f : 0.01f;
    for (auto& x : v)
    {
        isOne    = isOne | ((x[0] == f[0]) & (x[1] == f[1]));
        furthest = furthest & (dot(x, d) <= dot(f, d) + tol);
    }
    sx::check("the support point is a vertex", isOne);
    sx::check("no vertex is further in the direction", furthest);
}
SX_HARNESS(supportNull, "fp")
{
    Vertices v{Vec2{fpFinite("v"), fpFinite("v")}, Vec2{1, 2}};
    float dx = fpFinite("dx"), dy = fpFinite("dy");
    bool threw = false;
    sx::assume((dx < 1e15f) & (dx > -1e15f) & (dy < 1e15f) & (dy > -1e15f));
    sx::assume((v[0][0] < 1e15f) & (v[0][0] > -1e15f) & (v[0][1] < 1e15f) & (v[0][1] > -1e15f));
    try { furthestVertexInDirection(v, Vec2{dx, dy}); } catch (const simu::Exception&) { threw = true; }
    sx::check("exactly the null direction is refused", threw == ((dx == 0) & (dy == 0)));
}

namespace
{
template <class G>
void edges(const G& g, const Vertices& v)
{
    int n     = v.size();
    auto es   = edgesOf(g);
    int count = 0;
    int first = -1;
    bool ok = true, inv = true;
    for (auto it = es.begin(); it != es.end(); ++it)
    {
        int to   = std::distance(g.begin(), it->toIt());
        int from = std::distance(g.begin(), it->fromIt());
        if (count == 0) first = from;
        ok = ok && to == (from + 1) % n && from == (first + count) % n;
        eqVec("an edge starts at its first vertex", it->from(), v[from]);
        eqVec("an edge ends at its second vertex", it->to(), v[to]);
        eqVec("direction", it->direction(), v[to] - v[from]);
        auto nx = es.next(it), pv = es.previous(it);
        ok  = ok && nx->fromIt() == it->toIt();
        inv = inv && pv->toIt() == it->fromIt() && es.next(pv) == it && es.previous(nx) == it;
        ++count;
        if (count > n) break;
    }
    sx::check("edges are the consecutive vertex pairs, each once", ok && count == n);
    sx::check("next and previous are inverse", inv);
}
} // namespace
SX_HARNESS(iteration, "")
{
    int n = 3 + sx::choose("n", 3), kind = sx::choose("kind", 2);
    Vertices v;
    for (int i = 0; i < n; ++i) v.emplace_back(realVec("v", -100, 100));
    if (kind)
        edges(v, v);
    else
    {
        Polygon p(v.begin(), v.end());
        edges(p, Vertices(p.begin(), p.end()));
    }
}

SX_HARNESS(edge, "")
{
    Vertices v{realVec("v", -100, 100), realVec("v", -100, 100)};
    Vec2 p = realVec("p", -100, 100), d = v[1] - v[0];
    Edges<Vertices>::Edge e{v.begin(), v.begin() + 1};
    eqVec("the normal is the direction turned clockwise", e.normal(), Vec2{d[1], -d[0]});
    float side = cross(d, p - v[0]); // positive on the left, that is inside
    float m    = sx::symbolic() ? 0.f : 0.01f;
    sx::check("outside is strictly on the right of the edge", implies(side < -m, e.isOutside(p)) & implies(side > m, !e.isOutside(p)));
    sx::check("inside is strictly on the left of the edge", implies(side > m, e.isInside(p)) & implies(side < -m, !e.isInside(p)));
    if (sx::symbolic()) sx::check("points of the line are neither", implies(side == 0, !e.isInside(p) & !e.isOutside(p)));
    float D  = e.distanceSquaredToPoint(p);
    float t  = sx::symbolic() ? 0.f : 1.f;
    sx::check("no end point is closer than the edge", (D <= normSquared(p - v[0]) + t) & (D <= normSquared(p - v[1]) + t));
    sx::check("the line is not further than the edge", D * normSquared(d) >= side * side - t * (1 + normSquared(d)));
    sx::assume(normSquared(d) >= 0.25f);
    bool between = (dot(p - v[0], d) >= 0) & (dot(p - v[1], d) <= 0);
    float e2     = D * normSquared(d) - side * side;
    float t2     = sx::symbolic() ? 0.f : 0.01f * (1 + side * side);
    sx::check("beside the edge, the distance is that to the line", !between | ((e2 <= t2) & (e2 >= -t2)));
    sx::eq("a normalized normal has norm 1", normSquared(e.normalizedNormal()), 1, 1e-2f);
}

SX_HARNESS(clip, "rounding")
{
    Vertices v{realVec("a", -50, 50), realVec("b", -50, 50)};
    int k = sx::choose("k", 4);
    static const float O[][4] = {{0, 0, 1, 0}, {1, 2, -2, 5}, {3, -1, 3, 9}, {-8, 2, 4, -6}};
    Vertices o{Vec2{O[k][0], O[k][1]}, Vec2{O[k][2], O[k][3]}};
    Edges<Vertices>::Edge e{v.begin(), v.begin() + 1}, c{o.begin(), o.begin() + 1};
    int end = sx::choose("end", 2);
    Vec2 r  = e.clipInside(c, v[end]);
    Vec2 d = v[1] - v[0], q = o[1] - o[0];
    float sa = cross(q, v[0] - o[0]), sb = cross(q, v[1] - o[0]), se = end ? sb : sa;
    float tol = sx::symbolic() ? 0.f : 0.5f;
    sx::check("a clipped point stays on the edge", (dot(r - v[0], r - v[1]) <= tol));
    sx::eq("a clipped point is on the line of the edge", cross(r - v[0], d), 0, 20.f);
    float sr = cross(q, r - o[0]);
    if (se > 0.01f) eqVec("an end that is inside is kept", r, v[end]);
    else if (se < -0.01f)
    {
        if ((sa > 0.01f) | (sb > 0.01f)) sx::eq("a crossing edge is clipped on the line", sr, 0, 0.5f);
        // never further from the clipping line than the nearest end
        if ((sa < -0.01f) & (sb < -0.01f)) sx::check("clipping goes to the nearest end when not crossing", (sr >= sa - tol) & (sr >= sb - tol) | (sa == sb));
    }
    if (sx::symbolic() && sa == sb) eqVec("a parallel edge is not clipped", r, v[end]);
}
