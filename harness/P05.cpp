//! bound: LCP: 2x2 matrices with positive diagonal and positive determinant (P-matrices), entries |a| <= 16, arbitrary right-hand side |b| <= 16; Gauss-Seidel: 2x2 and 3x3 diagonally dominant concrete matrices, arbitrary right-hand side |b| <= 4 and initial guess |x| <= 4, stopping threshold 1/4..2
//! assume: exact real arithmetic (no rounding)
#include "common.hpp"
using namespace h;

SX_HARNESS(lcp, "")
{
    float a = sx::real("a", 0.25f, 16), d = sx::real("d", 0.25f, 16), b = sx::real("b", -16, 16), c = sx::real("c", -16, 16);
    sx::assume(a * d - b * c >= 0.25f);
    float p = sx::real("p", -16, 16), q = sx::real("q", -16, 16);
    LcpSolver<float> s{Mat2{a, b, c, d}};
    sx::check("a P-matrix is accepted", s.isValid());
    Vec2 x = s.solve(Vec2{p, q});
    // residual w = Ax - b
    float w0 = a * x[0] + b * x[1] - p, w1 = c * x[0] + d * x[1] - q;
    float t = sx::symbolic() ? 0.f : 0.02f;
    sx::check("the solution is not negative", (x[0] >= 0) & (x[1] >= 0));
    sx::check("the inequalities hold", (w0 >= -t) & (w1 >= -t));
    sx::check("complementarity: every component or its residual is zero",
              ((x[0] == 0) | ((w0 <= t) & (w0 >= -t))) & ((x[1] == 0) | ((w1 <= t) & (w1 >= -t))));
    Vec2 y = solveLcp(Mat2{a, b, c, d}, Vec2{p, q});
    sx::check("solveLcp agrees with LcpSolver", (x[0] == y[0]) & (x[1] == y[1]));
}

SX_HARNESS(lcpInvalid, "")
{
    float b = sx::real("b", -16, 16), c = sx::real("c", -16, 16), d = sx::real("d", 0.25f, 16);
    sx::check("a zero on the diagonal is reported", !LcpSolver<float>(Mat2{0, b, c, d}).isValid());
    sx::check("a zero on the diagonal is reported (second)", !LcpSolver<float>(Mat2{d, b, c, 0}).isValid());
    sx::check("a singular matrix is reported", !LcpSolver<float>(Mat2{d, d, d, d}).isValid());
    bool threw = false;
    try { LcpSolver<float>(Mat2{0, b, c, d}).solve(Vec2{1, 1}); } catch (const simu::Exception&) { threw = true; }
    sx::check("solving with an invalid solver is refused", threw);
}

namespace
{
template <Uint32 n>
void inequalities(const Matrix<float, n, n>& A, float eps)
{
    Vector<float, n> b, x0;
    for (auto& v : b) v = sx::real("b", -4, 4);
    for (auto& v : x0) v = sx::real("x0", -4, 4);
    auto proj = [](const Vector<float, n>& x, Uint32 i) { return std::max(x[i], 0.f); };
    auto x    = solveInequalities(A, b, proj, x0, eps);
    auto r    = A * x;
    for (Uint32 i = 0; i < n; ++i)
    {
        // the last sweep moved every component by at most eps
        float tol = 0;
        for (Uint32 j = 0; j < n; ++j)
            if (j != i) tol += eps * (A(i, j) < 0 ? -A(i, j) : A(i, j));
        tol += sx::symbolic() ? 0.f : 1e-3f;
        float w = r[i] - b[i];
        sx::check("components are projected on their bounds", x[i] >= 0);
        sx::check("the inequalities hold up to the threshold", w >= -tol);
        sx::check("complementarity up to the threshold", (x[i] == 0) | (w <= tol));
    }
    auto projAll = [](const Vector<float, n>& x) { return std::max(x, Vector<float, n>::filled(0.f)); };
    auto y       = solveInequalities(A, b, projAll, x0, eps);
    for (Uint32 i = 0; i < n; ++i)
        sx::check("vector and component projections give the same result", x[i] == y[i]);
}
} // namespace

SX_HARNESS(gaussSeidel2, "")
{
    int k = sx::choose("k", 3);
    if (k == 0) inequalities(Mat2{4, 1, 1, 4}, 0.5f);
    if (k == 1) inequalities(Mat2{4, -1, 1, 2}, 0.5f);
    if (k == 2) inequalities(Mat2{2, 1, -1, 4}, 1.f);
}
SX_HARNESS(gaussSeidel3, "thorough")
{
    inequalities(Mat3{8, 1, -1, 1, 8, 1, -1, 1, 8}, 1.f);
}
SX_HARNESS(gaussSeidelFine, "thorough")
{
    inequalities(Mat2{8, 1, 1, 8}, 0.015625f);
}

// where the active set changes, rounding must not lose the solution (IEEE arithmetic)
namespace
{
void narrow(float a, float c, float d, float q, float p)
{
    // p moves across the boundary: 16 steps of one part in four millions, and beyond
    float t = sx::fp("t");
    sx::assume((t >= -1) & (t <= 1));
    float b0 = p + t * (p * 0x1p-19f);
    LcpSolver<float> s{Mat2{a, c, c, d}};
    Vec2 x = s.solve(Vec2{b0, q});
    sx::check("the solution is not negative", (x[0] >= 0) & (x[1] >= 0));
    sx::check("positive forces are resisted", (x[0] > 0) | (x[1] > 0));
}
} // namespace
SX_HARNESS(narrow, "fp")
{
    switch (sx::choose("system", 4))
    {
    case 0: narrow(1.71790862f, 1.53327715f, 1.88287783f, 1.59317851f, 1.29736733f); break;
    case 1: narrow(0.873627961f, 0.984768152f, 1.86922908f, 1.68801522f, 0.889299035f); break;
    case 2: narrow(5.38309193f, 1.72127581f, 3.42182446f, 1.77842772f, 0.894600093f); break;
    default: narrow(0.625f, 0.25f, 0.625f, 1.3f, 0.52f); break;
    }
}
