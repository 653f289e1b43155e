//! bound: polygons of three to five vertices with center (all real coordinates), up to three before a flush and hundreds across automatic flushes; lines in eight directions with real ends and widths; points of real place and radius with precisions up to 300; contours of convex polygons, widths real
//! assume: exact real arithmetic (rounding excluded beyond a tolerance of 0.002); OpenGL replaced by a stand-in that keeps the buffers given to it and reads them by the attributes given
//# include: gui
#include "apps.hpp"
#include <algorithm>
#include <vector>

namespace
{
struct Corner
{
    Vec2 p;
    unsigned char c[4];
};
std::vector<Corner> drawn; // three for each triangle
bool valid;
int draws;
std::size_t most;
void draw(gl::State& s, gl::GLenum mode, int n, gl::GLenum type)
{
    ++draws;
    valid = valid && mode == gl::GL_TRIANGLES && type == gl::GL_UNSIGNED_SHORT && n % 3 == 0 && n * sizeof(std::uint16_t) <= s.indexBytes;
    const auto& pos = s.attributes[0];
    const auto& col = s.attributes[1];
    valid = valid && pos.n == 2 && pos.type == gl::GL_FLOAT && col.n == 4 && col.type == gl::GL_UNSIGNED_BYTE && col.normalized && s.transposed;
    for (int i = 0; i < n; ++i)
    {
        std::size_t k = static_cast<const std::uint16_t*>(s.indices)[i];
        if ((k + 1) * pos.stride > s.vertexBytes)
        {
            valid = false;
            return;
        }
        Corner c;
        const char* base = static_cast<const char*>(s.vertices) + k * pos.stride;
        c.p              = *reinterpret_cast<const Vec2*>(base + pos.offset);
        for (int j = 0; j < 4; ++j) c.c[j] = static_cast<unsigned char>(base[col.offset + j]);
        drawn.push_back(c);
    }
}
struct Paper
{
    OpenGlRenderer r;
    Paper()
    {
        drawn.clear();
        draws          = 0;
        valid          = true;
        gl::state.draw = draw;
        r.setCameraTransform(Mat3{1, 2, 3, 4, 5, 6, 7, 8, 9});
    }
    void polygon(Vec2 center, const std::vector<Vec2>& v, Rgba c)
    {
        const Vec2* p = v.data();
        r.drawPolygon(center, makeView(p, p + v.size()), c);
    }
    void done()
    {
        r.flush();
        sx::check("the buffers given to OpenGL are valid", valid);
        for (int i = 0; i < 9; ++i) sx::check("the camera transform is given to OpenGL", gl::state.transform[i] == i + 1);
        int n = static_cast<int>(drawn.size());
        r.flush();
        sx::check("nothing is drawn twice", static_cast<int>(drawn.size()) == n);
    }
};
bool sameColor(const Corner& c, Rgba k)
{
    for (int j = 0; j < 4; ++j)
        if (c.c[j] != k[j]) return false;
    return true;
}
// the corners of what was drawn around a center, in order
std::vector<Vec2> outline()
{
    std::vector<Vec2> v;
    for (std::size_t i = 0; i + 2 < drawn.size(); i += 3) v.push_back(drawn[i + 2].p);
    return v;
}
bool isAt(Vec2 a, Vec2 b) { return (a[0] == b[0]) & (a[1] == b[1]); }
} // namespace

// every polygon is drawn as the triangles between its center and its edges
SX_HARNESS(polygons, "rounding")
{
    Paper p;
    int count = 1 + sx::choose("polygons", 3);
    std::vector<std::vector<Vec2>> v(count);
    std::vector<Vec2> center(count);
    std::vector<Rgba> color(count);
    for (int i = 0; i < count; ++i)
    {
        int n = 3 + (i ? 0 : sx::choose("vertices", 3));
        for (int k = 0; k < n; ++k)
        {
            // apart from each other
            v[i].push_back(Vec2{sx::real("x", -1, 1) + 4 * k, sx::real("y", -1, 1)});
        }
        center[i] = Vec2{sx::real("cx", -1, 1), sx::real("cy", 4, 6)};
        color[i]  = Rgba{static_cast<Uint8>(i + 1), static_cast<Uint8>(20 + i), static_cast<Uint8>(255 - i), static_cast<Uint8>(7 * i)};
        p.polygon(center[i], v[i], color[i]);
    }
    p.done();
    std::size_t at = 0;
    for (int i = 0; i < count; ++i)
    {
        std::size_t n = v[i].size();
        std::vector<int> edges(n, 0);
        for (std::size_t t = 0; t < n; ++t, at += 3)
        {
            if (at + 3 > drawn.size()) break;
            bool edge = false;
            for (int j = 0; j < 3; ++j) sx::check("polygons have their color, the first drawn first", sameColor(drawn[at + j], color[i]));
            for (int j = 0; j < 3; ++j)
                for (std::size_t k = 0; k < n; ++k)
                    if (isAt(drawn[at + j].p, center[i]) & isAt(drawn[at + (j + 1) % 3].p, v[i][k]) & isAt(drawn[at + (j + 2) % 3].p, v[i][(k + 1) % n]))
                        edge = true, ++edges[k];
            sx::check("triangles are between the center and an edge", edge);
        }
        for (std::size_t k = 0; k < n; ++k) sx::check("every edge is drawn once", edges[k] == 1);
    }
    sx::check("nothing else is drawn", at == drawn.size());
}
// many polygons
SX_HARNESS(many, "rounding")
{
    Paper p;
    int n = 3 + sx::choose("vertices", 4) * 97; // 3, 100, 197, 294
    int count = sx::choose("polygons", 3) * 200 + 160;
    float x   = sx::real("x", -8, 8);
    std::vector<Vec2> v(n);
    for (int i = 0; i < count; ++i)
    {
        for (int k = 0; k < n; ++k) v[k] = Vec2{static_cast<float>(i), static_cast<float>(k)};
        v[0][0] = x;
        p.polygon(Vec2{static_cast<float>(i), -1}, v, Rgba{static_cast<Uint8>(i), static_cast<Uint8>(i / 256), 3, 4});
    }
    p.done();
    sx::check("nothing is lost or drawn twice across flushes", drawn.size() == static_cast<std::size_t>(3 * n * count));
    bool good = drawn.size() == static_cast<std::size_t>(3 * n * count);
    std::vector<int> edges(n);
    for (std::size_t t = 0; good && t < drawn.size(); t += 3)
    {
        int i = static_cast<int>(t) / 3 / n;
        if (t / 3 % n == 0)
        {
            if (t)
                for (int e : edges) good = good && e == 1;
            std::fill(edges.begin(), edges.end(), 0);
        }
        int c = -1;
        for (int j = 0; j < 3; ++j)
        {
            good = good && drawn[t + j].c[0] == (i & 255) && drawn[t + j].c[1] == i / 256;
            if (drawn[t + j].p[1] == -1) c = j;
        }
        if (c < 0)
        {
            good = false;
            break;
        }
        int a = static_cast<int>(drawn[t + (c + 1) % 3].p[1]), b = static_cast<int>(drawn[t + (c + 2) % 3].p[1]);
        good = good && a >= 0 && b == (a + 1) % n && drawn[t + c].p[0] == i;
        if (good) ++edges[a];
    }
    sx::check("the triangles of every polygon are its own", good);
}
SX_HARNESS(lines, "rounding")
{
    Paper p;
    const Vec2 dirs[8] = {Vec2{1, 0}, Vec2{0, 1}, Vec2{-1, 0}, Vec2{0, -1}, Vec2{0.75f, 1} / 1.25f, Vec2{-0.75f, 1} / 1.25f, Vec2{3, -4} / 5, Vec2{-3, -4} / 5};
    Vec2 d  = dirs[sx::choose("direction", 8)];
    Vec2 a  = realVec("A", -50, 50);
    float l = sx::real("length", 0.25f, 50), w = sx::real("width", 0.125f, 4);
    Vec2 b  = a + d * l;
    p.r.setLineWidth(w);
    sx::check("the line width is set", p.r.getLineWidth() == w);
    Rgba c{1, 2, 3, 4};
    p.r.drawLine(a, b, c);
    p.done();
    auto v = outline();
    sx::check("a line is a quadrilateral", v.size() == 4);
    if (v.size() != 4) return;
    int ends[2]{}, sides[2]{};
    for (auto& q : v)
    {
        float along = dot(q - a, d), off = cross(d, q - a);
        bool first = known(along < l / 2);
        near("a line ends at its ends", along, first ? 0 : l, 5e-3f);
        bool left = known(off > 0);
        near("a line is as wide as asked", off, left ? w / 2 : -w / 2, 5e-3f);
        ++ends[first], ++sides[left];
    }
    sx::check("a line has two corners at each end and side", ends[0] == 2 && sides[0] == 2);
    for (auto& q : drawn) sx::check("a line has its color", sameColor(q, c));
    bool refused = false;
    try
    {
        p.r.drawLine(a, a, c);
    }
    catch (simu::Exception&)
    {
        refused = true;
    }
    sx::check("a line without length is refused", refused);
}
SX_HARNESS(points, "rounding,hang=60")
{
    Paper p;
    const int precisions[9] = {0, 2, 3, 4, 5, 6, 12, 255, 300};
    int want = precisions[sx::choose("precision", 9)], n = want < 3 ? 12 : want;
    float radius = sx::real("radius", 0.125f, 8);
    bool first = sx::choose("order", 2);
    if (first) p.r.setPointRadius(radius);
    p.r.setPointPrecision(static_cast<Uint32>(want));
    if (!first) p.r.setPointRadius(radius);
    sx::check("the radius of points is set", p.r.getPointRadius() == radius);
    sx::check("precisions of three or more are set, others ignored", static_cast<int>(p.r.getPointPrecision()) == n);
    Vec2 at = realVec("P", -50, 50);
    p.r.drawPoint(at, Rgba{1, 2, 3, 4});
    p.done();
    auto v = outline();
    sx::check("a point has a corner for each of its precision", static_cast<int>(v.size()) == n);
    float angle = 6.28318530718f / n, c = std::cos(angle), s = std::sin(angle);
    for (std::size_t i = 0; i < v.size(); i += 1 + v.size() / 24)
    {
        Vec2 q = v[i] - at, r = v[(i + 1) % v.size()] - at;
        near("the corners of a point are on its circle", normSquared(q), radius * radius, 0.02f);
        near("the corners of a point are evenly spaced", r[0], q[0] * c - q[1] * s, 5e-3f);
        near("the corners of a point are evenly spaced", r[1], q[0] * s + q[1] * c, 5e-3f);
    }
}
SX_HARNESS(triangles, "rounding")
{
    Paper p;
    Vec2 a = realVec("A", -8, 8), b = realVec("B", -8, 8), c = realVec("C", -8, 8);
    float area = cross(b - a, c - a);
    sx::assume((area > 0.5f) | (area < -0.5f));
    p.r.drawTriangle(a, b, c, Rgba{1, 2, 3, 4});
    p.done();
    auto v = outline();
    sx::check("a triangle has three corners", v.size() == 3);
    if (v.size() != 3) return;
    for (Vec2 q : {a, b, c}) sx::check("a triangle has its corners", isAt(v[0], q) | isAt(v[1], q) | isAt(v[2], q));
    sx::check("triangles are drawn positively oriented", cross(v[1] - v[0], v[2] - v[0]) > 0);
}
// an outline of a width around the polygon, then the polygon
SX_HARNESS(contours, "rounding")
{
    Paper p;
    std::vector<Vec2> v;
    int kind = sx::choose("polygon", 3);
    float w  = sx::real("width", 0.125f, 2);
    if (kind == 0) v = {Vec2{-1, -1}, Vec2{1, -1}, Vec2{1, 1}, Vec2{-1, 1}};
    if (kind == 1) v = {Vec2{2, 1}, Vec2{7, 1}, Vec2{7, 2}, Vec2{2, 2}};
    if (kind == 2) v = {Vec2{0, 0}, Vec2{4, 0}, Vec2{0, 3}};
    Vec2 center   = (v[0] + v[1] + v[2]) / 3;
    const Vec2* q = v.data();
    Rgba in{1, 1, 1, 255}, out{2, 2, 2, 255};
    p.r.drawContouredPolygon(center, makeView(q, q + v.size()), in, out, w);
    p.done();
    std::size_t n = v.size();
    sx::check("the outline and the polygon are drawn", drawn.size() == 6 * n);
    if (drawn.size() != 6 * n) return;
    auto all = outline();
    std::vector<Vec2> outer(all.begin(), all.begin() + n), inner(all.begin() + n, all.end());
    for (std::size_t k = 0; k + 1 < n && !isAt(inner[0], v[0]); ++k)
    {
        std::rotate(inner.begin(), inner.begin() + 1, inner.end());
        std::rotate(outer.begin(), outer.begin() + 1, outer.end());
    }
    for (std::size_t i = 0; i < n; ++i)
    {
        sx::check("the outline is drawn below the polygon, each in its color", sameColor(drawn[3 * i], out) && sameColor(drawn[3 * (n + i)], in));
        sx::check("the polygon is drawn as given", isAt(inner[i], v[i]));
        // edges of the outline are parallel, at the width
        Vec2 e = normalized(v[(i + 1) % n] - v[i]);
        near("the outline has the width asked for", -cross(e, outer[i] - v[i]), w, 5e-3f);
        near("the outline has the width asked for", -cross(e, outer[(i + 1) % n] - v[i]), w, 5e-3f);
    }
}
// the screen
SX_HARNESS(screen, "rounding")
{
    Paper p;
    p.r.fillScreen(Rgba{0, 51, 255, 102});
    near("the screen has the color asked for", gl::state.clear[0], 0, 1e-5f);
    near("the screen has the color asked for", gl::state.clear[1], 0.2f, 1e-5f);
    near("the screen has the color asked for", gl::state.clear[2], 1, 1e-5f);
    near("the screen has the color asked for", gl::state.clear[3], 0.4f, 1e-5f);
    sx::check("the screen is cleared", gl::state.clears > 0);
}
