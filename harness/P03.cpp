//! bound: float matrices and vectors of shapes up to 3x3 with arbitrary real entries |x| <= 1000 (polynomial identities); comparisons over all IEEE singles including NaN and infinities; Int32 entries over all 2^32 values
//! assume: algebraic laws are decided over exact reals (rounding excluded); comparisons, min, max and abs are decided over IEEE singles
#include "common.hpp"
using namespace h;

namespace
{
template <Uint32 m, Uint32 n>
Matrix<float, m, n> mat(const char* name)
{
    Matrix<float, m, n> r;
    for (Uint32 i = 0; i < m; ++i)
        for (Uint32 j = 0; j < n; ++j) r(i, j) = sx::real(name, -1000, 1000);
    return r;
}
template <Uint32 m, Uint32 n>
void eqMat(const char* l, const Matrix<float, m, n>& a, const Matrix<float, m, n>& b)
{
    for (Uint32 i = 0; i < m; ++i)
        for (Uint32 j = 0; j < n; ++j) sx::eq(l, a(i, j), b(i, j), 1e-2f);
}
} // namespace

SX_HARNESS(product, "")
{
    auto a = mat<2, 3>("a");
    auto b = mat<3, 2>("b");
    auto p = a * b;
    auto q = b * a;
    for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 2; ++j)
            sx::eq("(AB)ij is row i of A times column j of B (2x3 3x2)", p(i, j),
                   a(i, 0) * b(0, j) + a(i, 1) * b(1, j) + a(i, 2) * b(2, j), 1e-2f);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            sx::eq("(BA)ij is row i of B times column j of A (3x2 2x3)", q(i, j), b(i, 0) * a(0, j) + b(i, 1) * a(1, j),
                   1e-2f);
    eqMat("transpose of a product is the reversed product of transposes", transpose(p), transpose(b) * transpose(a));
    auto v = mat<3, 1>("v");
    auto w = a * v;
    for (int i = 0; i < 2; ++i)
        sx::eq("matrix times vector", w[i], a(i, 0) * v[0] + a(i, 1) * v[1] + a(i, 2) * v[2], 1e-2f);
    auto s = mat<3, 3>("s");
    eqMat("identity is neutral", Mat3::identity() * s, s);
    eqMat("identity is neutral (right)", s * Mat3::identity(), s);
    auto d = Mat3::diagonal(v) * s;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) sx::eq("diagonal matrix scales rows", d(i, j), v[i] * s(i, j), 1e-2f);
}

SX_HARNESS(linear, "")
{
    auto a  = mat<2, 3>("a");
    auto b  = mat<2, 3>("b");
    float s = sx::real("s", -1000, 1000);
    sx::assume((s >= 0.01f) | (s <= -0.01f));
    auto sum = a + b, dif = a - b, neg = -a, sc = s * a, cs = a * s, dv = a / s;
    auto acc = a, acc2 = a, acc3 = a, acc4 = a;
    acc += b;
    acc2 -= b;
    acc3 *= s;
    acc4 /= s;
    for (int i = 0; i < 6; ++i)
    {
        sx::eq("sum", sum[i], a[i] + b[i]);
        sx::eq("difference", dif[i], a[i] - b[i]);
        sx::eq("negation", neg[i], -a[i]);
        sx::eq("scalar product", sc[i], a[i] * s, 1e-2f);
        sx::eq("scalar product on the right", cs[i], a[i] * s, 1e-2f);
        sx::eq("division undoes multiplication", dv[i] * s, a[i], 1e-2f);
        sx::eq("+=", acc[i], a[i] + b[i]);
        sx::eq("-=", acc2[i], a[i] - b[i]);
        sx::eq("*=", acc3[i], a[i] * s, 1e-2f);
        sx::eq("/=", acc4[i] * s, a[i], 1e-2f);
        sx::eq("filled", (Matrix<float, 2, 3>::filled(s))[i], s);
        sx::eq("unary plus", (+a)[i], a[i]);
    }
}

SX_HARNESS(layout, "")
{
    auto a = mat<2, 3>("a");
    auto t = transpose(a);
    auto r = a.asRows();
    auto c = a.asCols();
    eqMat("fromRows(asRows) is the original", Matrix<float, 2, 3>::fromRows(r), a);
    eqMat("fromCols(asCols) is the original", Matrix<float, 2, 3>::fromCols(c), a);
    eqMat("transposing twice is the original", transpose(t), a);
    auto fr = Matrix<float, 2, 3>::fromRows({r[0], r[1]});
    auto fc = Matrix<float, 2, 3>::fromCols({c[0], c[1], c[2]});
    eqMat("fromRows list", fr, a);
    eqMat("fromCols list", fc, a);
    for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 3; ++j)
        {
            sx::eq("transpose swaps indices", t(j, i), a(i, j));
            sx::eq("row i", r[i][j], a(i, j));
            sx::eq("column j", c[j][i], a(i, j));
            sx::eq("row-major storage", a[i * 3 + j], a(i, j));
        }
    Matrix<float, 2, 3> k{a(0, 0), a(0, 1), a(0, 2), a(1, 0), a(1, 1), a(1, 2)};
    eqMat("list construction is row-major", k, a);
    for (int i = 0; i < 4; ++i)
    {
        sx::eq("unit vector i", Vec4::i()[i], i == 0);
        sx::eq("unit vector j", Vec4::j()[i], i == 1);
        sx::eq("unit vector k", Vec4::k()[i], i == 2);
        sx::eq("unit vector w", Vec4::w()[i], i == 3);
    }
}

SX_HARNESS(vectors, "")
{
    Vec3 a = mat<3, 1>("a"), b = mat<3, 1>("b");
    Vec2 u = mat<2, 1>("u"), v = mat<2, 1>("v");
    sx::eq("dot product", dot(a, b), a[0] * b[0] + a[1] * b[1] + a[2] * b[2], 1e-2f);
    sx::eq("squared norm", normSquared(a), a[0] * a[0] + a[1] * a[1] + a[2] * a[2], 1e-2f);
    auto c = cross(a, b);
    sx::eq("cross product x", c[0], a[1] * b[2] - a[2] * b[1], 1e-2f);
    sx::eq("cross product y", c[1], a[2] * b[0] - a[0] * b[2], 1e-2f);
    sx::eq("cross product z", c[2], a[0] * b[1] - a[1] * b[0], 1e-2f);
    sx::eq("cross product is orthogonal to its operands", dot(c, a) + 0.f * dot(c, b), 0, 10.f);
    sx::eq("planar cross product", cross(u, v), u[0] * v[1] - u[1] * v[0], 1e-2f);
    auto e = elementWiseMul(a, b);
    for (int i = 0; i < 3; ++i) sx::eq("element-wise product", e[i], a[i] * b[i]);
    Vec2 p = perp(u), q = perp(u, true);
    eqVec("perp is a quarter turn counterclockwise", p, Vec2{-u[1], u[0]});
    eqVec("clockwise perp is the opposite", q, Vec2{u[1], -u[0]});
    sx::eq("cross(u, v) equals dot(perp(u), v)", cross(u, v), dot(p, v), 1e-2f);
}

SX_HARNESS(norms, "")
{
    Vec2 u = mat<2, 1>("u"), v = mat<2, 1>("v");
    float n = norm(u);
    sx::check("norm is non-negative", n >= 0);
    sx::eq("norm is the root of the squared norm", n * n, normSquared(u), 1e-2f);
    sx::assume(normSquared(u) >= 0.01f);
    Vec2 w = normalized(u);
    sx::eq("a normalized vector has norm 1", normSquared(w), 1, 1e-2f);
    eqVec("a normalized vector keeps its direction", n * w, u, 1e-2f);
    Vec2 p = projection(v, u);
    sx::eq("a projection is parallel to its axis", cross(p, u), 0, 10.f);
    sx::eq("the rest of a projection is orthogonal to the axis", dot(v - p, u), 0, 10.f);
}

SX_HARNESS(compare, "fp")
{
    float a[3], b[3];
    for (auto& x : a) x = sx::fp("a");
    for (auto& x : b) x = sx::fp("b");
    Vec3 x{a[0], a[1], a[2]}, y{b[0], b[1], b[2]};
    auto lt = x < y, le = x <= y, gt = x > y, ge = x >= y, eq = x == y, ne = x != y, nt = !(x < y);
    for (int i = 0; i < 3; ++i)
    {
        sx::check("element-wise <", lt[i] == (a[i] < b[i]));
        sx::check("element-wise <=", le[i] == (a[i] <= b[i]));
        sx::check("element-wise >", gt[i] == (a[i] > b[i]));
        sx::check("element-wise >=", ge[i] == (a[i] >= b[i]));
        sx::check("element-wise ==", eq[i] == (a[i] == b[i]));
        sx::check("element-wise !=", ne[i] == (a[i] != b[i]));
        sx::check("element-wise not", nt[i] == !(a[i] < b[i]));
    }
}

SX_HARNESS(quantifiers, "")
{
    ComparisonMatrix<2, 2> a, b;
    for (auto& x : a) x = sx::boolean("a");
    for (auto& x : b) x = sx::boolean("b");
    sx::check("all is the conjunction", all(a) == (a[0] & a[1] & a[2] & a[3]));
    sx::check("any is the disjunction", any(a) == (a[0] | a[1] | a[2] | a[3]));
    auto c = a && b;
    auto d = a || b;
    for (int i = 0; i < 4; ++i)
    {
        sx::check("element-wise and", c[i] == (a[i] & b[i]));
        sx::check("element-wise or", d[i] == (a[i] | b[i]));
    }
}

SX_HARNESS(extrema, "fp")
{
    float a[3], b[3];
    for (auto& x : a) x = fpFinite("a");
    for (auto& x : b) x = fpFinite("b");
    Vec3 x{a[0], a[1], a[2]}, y{b[0], b[1], b[2]};
    auto mn = std::min(x, y), mx = std::max(x, y), ab = std::abs(x);
    for (int i = 0; i < 3; ++i)
    {
        sx::check("element-wise min", (mn[i] <= a[i]) & (mn[i] <= b[i]) & ((mn[i] == a[i]) | (mn[i] == b[i])));
        sx::check("element-wise max", (mx[i] >= a[i]) & (mx[i] >= b[i]) & ((mx[i] == a[i]) | (mx[i] == b[i])));
        sx::check("element-wise abs", (ab[i] >= 0) & ((ab[i] == a[i]) | (ab[i] == -a[i])));
    }
}

SX_HARNESS(integers, "")
{
    int a[4], b[4];
    for (auto& x : a) x = sx::integer("a", INT32_MIN, INT32_MAX);
    for (auto& x : b) x = sx::integer("b", INT32_MIN, INT32_MAX);
    Mat2i x{a[0], a[1], a[2], a[3]}, y{b[0], b[1], b[2], b[3]};
    auto s = x + y, d = x - y, t = transpose(x), p = x * y;
    for (int i = 0; i < 4; ++i)
    {
        sx::check("integer sum", (unsigned)s[i] == (unsigned)a[i] + (unsigned)b[i]);
        sx::check("integer difference", (unsigned)d[i] == (unsigned)a[i] - (unsigned)b[i]);
        sx::check("integer comparison", (x < y)[i] == (a[i] < b[i]));
    }
    sx::check("integer transpose", (t(0, 1) == a[2]) & (t(1, 0) == a[1]) & (t(0, 0) == a[0]) & (t(1, 1) == a[3]));
    sx::check("integer product", (unsigned)p(0, 1) == (unsigned)a[0] * (unsigned)b[1] + (unsigned)a[1] * (unsigned)b[3]);
    Matrix<float, 2, 2> f{Mat2i{3, -4, 5, 6}};
    sx::check("conversion converts every element", (f[0] == 3) & (f[1] == -4) & (f[2] == 5) & (f[3] == 6));
}
