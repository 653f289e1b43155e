//! bound: pairs of convex polygons with 3..6 vertices taken from a family of shapes (fat, thin, axis-aligned, oblique, regular), at every relative translation k/8, |k| <= 96, and initial directions from a family with the null vector; thorough: more pairs, and triangles with a free vertex
//! assume: coordinates are on a lattice on which float arithmetic is exact (touching is decided exactly)
#include "common.hpp"
#include "Simu/math/Gjk.hpp"
using namespace h;
#include "shapes.hpp"

namespace
{
template <class G>
void verdict(const G& a, const G& b, Vec2 dir)
{
    Gjk<G> g{a, b, dir};
    bool o = overlapping(a, b);
    sx::check("polygons that share a point are colliding", implies(o, g.areColliding()));
    sx::check("polygons that share no point are not colliding", implies(!o, !g.areColliding()));
}
void pairs(int dirs)
{
    int i  = sx::choose("first", sx::tier() ? NShapes : 5);
    int j  = sx::choose("second", sx::tier() ? NShapes : 5);
    int k  = dirs ? sx::choose("dir", dirs) : 0;
    static const float D[][2] = {{1, 0}, {0, 0}, {0, 1}, {-1, -2}, {3, -1}};
    Vec2 t = latVec("t", -96, 96, 3);
    verdict(shape(i), shifted(shape(j), t), Vec2{D[k][0], D[k][1]});
}
} // namespace

SX_HARNESS(translated, "int,exact") { pairs(0); }
SX_HARNESS(directions, "int,exact") { pairs(5); }
SX_HARNESS(freeVertex, "int,exact")
{
    int i = sx::choose("first", sx::tier() ? 3 : 1);
    Vec2 v = latVec("v", -16, 16);
    Vec2 t = latVec("t", -16, 16);
    sx::assume(v[1] >= 1);
    verdict(shape(i), shifted(Vertices{Vec2{0, 0}, Vec2{2, 0}, v}, t), Vec2{1, 0});
}
SX_HARNESS(polygons, "int")
{
    int i  = sx::choose("first", 3);
    int j  = sx::choose("second", 3);
    Vec2 t = latVec("t", -96, 96, 3);
    verdict(moved(shape(i), Vec2{0, 0}), moved(shape(j), t), Vec2{1, 0});
}
SX_HARNESS(self, "int")
{
    int i  = sx::choose("shape", NShapes);
    Vec2 t = latVec("t", -96, 96, 3);
    Polygon p = moved(shape(i), t);
    Gjk<Polygon> g{p, p};
    sx::check("a polygon collides with itself", g.areColliding());
}
