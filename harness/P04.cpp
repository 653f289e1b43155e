//! bound: 2x2 systems with arbitrary real entries |a| <= 100; 3x3 systems: general upper and lower triangular matrices, matrices with one or two symbolic entries and a family of concrete matrices, right-hand side arbitrary |b| <= 100; 4x4: concrete matrices, arbitrary right-hand side
//! assume: exact real arithmetic (no rounding); for regularity in the 2x2 case |det| >= 1/64 when the residual is replayed natively
#include "common.hpp"
using namespace h;

namespace
{
template <Uint32 n>
Vector<float, n> vec(const char* name, float b)
{
    Vector<float, n> r;
    for (auto& x : r) x = sx::real(name, -b, b);
    return r;
}
// symbolic matrices: exact identities; concrete matrices are factored in single precision, so allow for its rounding
bool concreteMatrix = false;
void same(const char* l, float a, float b, float tol)
{
    if (concreteMatrix)
        sx::check(l, (a - b <= tol) & (b - a <= tol));
    else
        sx::eq(l, a, b, tol);
}
template <Uint32 n>
void solves(const Matrix<float, n, n>& A)
{
    auto b = vec<n>("b", 100);
    Solver<float, n> s{A};
    sx::check("a regular matrix is accepted", s.isValid());
    auto x = s.solve(b);
    auto y = solve(A, b);
    auto r = A * x;
    for (Uint32 i = 0; i < n; ++i)
    {
        same("A times the solution is b", r[i], b[i], 0.05f);
        same("solve() agrees with Solver", x[i], y[i], 1e-3f);
    }
    auto o = s.original();
    for (Uint32 i = 0; i < n * n; ++i) same("the factored matrix is the original", o[i], A[i], 1e-3f);
    auto inv = invert(A);
    auto l = inv * A, rr = A * inv;
    for (Uint32 i = 0; i < n; ++i)
        for (Uint32 j = 0; j < n; ++j)
        {
            same("inverse times A is the identity", l(i, j), i == j, 0.01f);
            same("A times inverse is the identity", rr(i, j), i == j, 0.01f);
        }
}
template <Uint32 n>
void rejects(const Matrix<float, n, n>& A)
{
    Solver<float, n> s{A};
    sx::check("a singular matrix is reported", !s.isValid());
    bool threw = false;
    try { s.solve(Vector<float, n>::filled(1.f)); } catch (const simu::Exception&) { threw = true; }
    sx::check("solving a singular system is refused", threw);
    threw = false;
    try { invert(A); } catch (const simu::Exception&) { threw = true; }
    sx::check("inverting a singular matrix is refused", threw);
}
} // namespace

SX_HARNESS(two, "")
{
    float a = sx::real("a", -100, 100), b = sx::real("b", -100, 100), c = sx::real("c", -100, 100),
          d = sx::real("d", -100, 100);
    float det = a * d - b * c;
    sx::assume((det > 0.5f) | (det < -0.5f));
    solves(Mat2{a, b, c, d});
}

SX_HARNESS(twoSingular, "int,exact")
{
    float a = sx::lat("a", -64, 64), b = sx::lat("b", -64, 64);
    int k = sx::choose("k", 4);
    float f = k == 0 ? 0.f : k == 1 ? 1.f : k == 2 ? -2.f : 0.5f;
    // second row is a multiple of the first
    rejects(Mat2{a, b, f * a, f * b});
    // second column is a multiple of the first
    rejects(Mat2{a, f * a, b, f * b});
}

SX_HARNESS(validity, "int,exact")
{
    float a = sx::lat("a", -128, 128, 2), b = sx::lat("b", -128, 128, 2), c = sx::lat("c", -128, 128, 2),
          d = sx::lat("d", -128, 128, 2);
    Solver<float, 2> s{Mat2{a, b, c, d}};
    sx::check("a matrix is accepted exactly when its determinant is not zero", s.isValid() == (a * d != b * c));
}

SX_HARNESS(threeUpper, "")
{
    float p = sx::real("p", 0.25f, 8), q = sx::real("q", 0.25f, 8), r = sx::real("r", 0.25f, 8);
    float u = sx::real("u", -8, 8), v = sx::real("v", -8, 8), w = sx::real("w", -8, 8);
    solves(Mat3{p, u, v, 0, q, w, 0, 0, r});
}

SX_HARNESS(threeLower, "")
{
    float p = sx::real("p", 0.5f, 4), q = sx::real("q", 0.5f, 4), r = sx::real("r", 0.5f, 4);
    float u = sx::real("u", -2, 2);
    solves(Mat3{p, 0, 0, u, q, 0, 0, 0, r});
    solves(Mat3{p, 0, 0, 0, q, 0, u, 0, r});
}

SX_HARNESS(threeFixed, "")
{
    static const float M[][9] = {
        {0, 2, 0, 0, 0, 3, 4, 0, 0},   {2, 0, 0, 1, 2, 0, 2, 1, 2}, {2, 1, 0, 1, 2, 1, 0, 1, 2},
        {1, 2, 2, 2, 1, -2, 2, -2, 1}, {3, 0, 4, 0, 5, 0, -4, 0, 3}, {4, -1, 0, -1, 4, -1, 0, -1, 4},
    };
    int k = sx::choose("k", 6);
    Mat3 A;
    for (int i = 0; i < 9; ++i) A[i] = M[k][i];
    concreteMatrix = true;
    solves(A);
}

SX_HARNESS(threeSingular, "")
{
    float a = sx::real("a", -8, 8), b = sx::real("b", -8, 8);
    int k = sx::choose("k", 3);
    if (k == 0) rejects(Mat3{0, a, b, 0, 1, 2, 0, 2, 1});
    if (k == 1) rejects(Mat3{3, 0, a, 4, 0, b, 0, 0, 1});
    if (k == 2) rejects(Mat3{1, 0, 0, 0, 1, 0, 0, 0, 0});
}

SX_HARNESS(four, "")
{
    static const float M[][16] = {
        {0, 0, 0, 2, 0, 3, 0, 0, 4, 0, 0, 0, 0, 0, 5, 0},
        {1, 1, 1, 1, 1, -1, 1, -1, 1, 1, -1, -1, 1, -1, -1, 1},
        {2, 0, 1, 0, 0, 2, 0, 1, 1, 0, 2, 0, 0, 1, 0, 2},
    };
    int k = sx::choose("k", 3);
    Mat4 A;
    for (int i = 0; i < 16; ++i) A[i] = M[k][i];
    concreteMatrix = true;
    solves(A);
}
