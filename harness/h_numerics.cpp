// C19 polynomial bases, C20 regressions, C21 interpolation, C22 linear solvers
#include "pbt.h"
#include "ref.h"
#include <algorithm>
#include <memory>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/basis_function/monomial.h"
#include "numerical_analysis/regression/lasso.h"
#include "numerical_analysis/regression/ridge.h"
#include "numerical_analysis/regression/least_squares.h"
#include "numerical_analysis/interpolation/linear_interpolation.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"

using namespace OptionPricer;
using namespace pbt;
using Mat = Eigen::MatrixXd; using Vec = Eigen::VectorXd;

// ---------------------------------------------------------------- C19
static std::unique_ptr<BasisFunction> basis(int k, unsigned n) {
    switch (k) { case 0: return std::make_unique<MonomialBasisFunction>(n); case 1: return std::make_unique<LegendreBasisFunction>(n);
        case 2: return std::make_unique<LaguerreBasisFunction>(n); default: return std::make_unique<ChebyshevBasisFunction>(n); }
}
static const char* bname(int k) { static const char* n[] = {"monomial", "Legendre", "Laguerre", "Chebyshev"}; return n[k]; }
// Explicit coefficients, in long double: independent of any recurrence on values
static long double poly(int k, int n, long double x, long double& mag) {
    std::vector<long double> c(n + 1, 0.0L);
    auto binom = [](int a, int b) { long double r = 1; for (int i = 1; i <= b; ++i) r = r * (a - b + i) / i; return r; };
    if (k == 0) c[n] = 1;
    else if (k == 1) for (int j = 0; 2 * j <= n; ++j) c[n - 2 * j] = (j % 2 ? -1 : 1) * binom(n, j) * binom(2 * n - 2 * j, n) / std::pow(2.0L, n);
    else if (k == 2) { long double f = 1; for (int j = 0; j <= n; ++j) { if (j) f *= j; c[j] = (j % 2 ? -1 : 1) * binom(n, j) / f; } }
    else if (n == 0) c[0] = 1;
    else for (int j = 0; 2 * j <= n; ++j) c[n - 2 * j] = (j % 2 ? -1 : 1) * 0.5L * n / (n - j) * binom(n - j, j) * std::pow(2.0L, n - 2 * j);
    long double v = 0; mag = 0; long double p = 1;
    for (int j = 0; j <= n; ++j) { v += c[j] * p; mag += std::fabs(c[j] * p); p *= x; }
    return v;
}
PROP(C19, values, 1000000, 12000000, 0, "at least three functions") {
    const int k = static_cast<int>(src.below(4));
    const unsigned nb = static_cast<unsigned>(src.chance(1, 6) ? src.range(10, 30) : src.range(1, 10));
    const Eigen::Index m = static_cast<Eigen::Index>(src.range(1, 6)), reps = static_cast<Eigen::Index>(src.chance(1, 50) ? src.range(2, 200) : 1);
    Vec x0(m);
    for (auto& v : x0) v = src.pick({0.0, 1.0, -1.0, 100.0, src.real(-1, 1), src.real(0, 2), src.real(50, 150), src.logreal(1e-3, 1e3), -src.logreal(1e-3, 1e3), src.logreal(1e-12, 1e6), (src.flag() ? -1 : 1) * src.logreal(1e-9, 1e9), 1 + src.pick({1e-16, -1e-16, 1e-9}) * 2});
    const Vec x = x0.replicate(reps, 1);
    src.note(bname(k), " ", nb, " functions at ", x.transpose());
    src.nontrivial(nb >= 3);
    src.label(bname(k));
    auto b = basis(k, nb);
    const Mat A = b->generate(x);
    REQUIRE(A.rows() == m * reps && A.cols() == static_cast<Eigen::Index>(nb), "shape ", A.rows(), "x", A.cols(), " for ", m * reps, " points and ", nb, " functions");
    for (Eigen::Index i = 0; i < m; ++i) for (unsigned n = 0; n < nb; ++n) {
        long double mag; const long double want = poly(k, static_cast<int>(n), x(i), mag);
        for (Eigen::Index c = 1; c < reps; ++c) REQUIRE(close(A(i + c * m, n), A(i, n), 1e-13, 1e-14 * static_cast<double>(mag)), "function ", n, " at the same point ", x(i), " is ", A(i + c * m, n), " in row ", i + c * m, " and ", A(i, n), " in row ", i);
        REQUIRE(std::fabs(static_cast<long double>(A(i, n)) - want) <= 1e-12L * mag + 1e-14L, "function ", n, " at ", x(i), " is ", A(i, n), ", expected ", static_cast<double>(want));
    }
    // each point on its own, and fewer functions: same values
    const Mat B = basis(k, static_cast<unsigned>(src.range(1, nb)))->generate(x.head(1));
    for (Eigen::Index n = 0; n < B.cols(); ++n) REQUIRE(close(B(0, n), A(0, n), 1e-12, 1e-14), "function ", n, " depends on the other points or on the number of functions");
    // the same object again, with other points in between
    Vec other(static_cast<Eigen::Index>(src.range(0, 5))); for (auto& v : other) v = src.real(-2, 2);
    const Mat O = b->generate(other), A2 = b->generate(x);
    REQUIRE(O.rows() == other.size() && O.cols() == static_cast<Eigen::Index>(nb) && A2.rows() == A.rows() && A2.cols() == A.cols(), "shapes after reuse");
    REQUIRE(!A.allFinite() || (A2.array() == A.array()).all(), "a second call of the same object gives other values");
}
PROP(C19, rejects_zero, 100, 1000, 0, "zero functions asked for") {
    const int k = static_cast<int>(src.below(4));
    src.note(bname(k)); src.nontrivial();
    REQUIRE(throwsA<std::invalid_argument>([&] { (void)basis(k, 0); }), "zero functions accepted");
    REQUIRE(basis(k, 3)->generate(Vec(0)).rows() == 0, "no points");
}

// ---------------------------------------------------------------- C20
static Mat matrix(Src& s, Eigen::Index m, Eigen::Index n, std::string& how) {
    Mat A(m, n);
    std::mt19937_64 rng(s.seed32()); std::normal_distribution<> nd;
    const int k = static_cast<int>(s.below(6));
    how = k == 0 ? "small integers" : k == 1 ? "gaussian" : k == 2 ? "monomials" : k == 3 ? "scaled columns" : k == 4 ? "repeated column" : "scaled";
    const double all = k == 5 ? s.logreal(1e-8, 1e8) : 1.0;
    for (Eigen::Index i = 0; i < m; ++i) {
        const double x = k == 2 ? 0.5 + 1.5 * (static_cast<double>(rng() % 1000) / 1000) : 0;
        for (Eigen::Index j = 0; j < n; ++j) A(i, j) = k == 0 ? static_cast<double>(static_cast<int>(rng() % 7) - 3) : k == 2 ? std::pow(x, static_cast<double>(j)) : nd(rng) * (k == 3 ? std::pow(10.0, static_cast<double>(j % 5) - 2) : all);
    }
    if (k == 4 && n > 1) A.col(n - 1) = A.col(0);
    return A;
}
PROP(C20, least_squares, 300000, 3600000, 0, "more rows than columns and a nonzero residual") {
    const Eigen::Index n = static_cast<Eigen::Index>(src.chance(1, 10) ? src.range(5, 12) : src.range(1, 5)), m = static_cast<Eigen::Index>(src.chance(1, 100) ? src.range(60, 1500) : src.pick<int64_t>({src.range(1, 8), src.range(5, 60)}));
    std::string how; const Mat A = matrix(src, m, n, how);
    Vec y(m); std::mt19937_64 rng(src.seed32()); std::normal_distribution<> nd; const double sc = src.chance(1, 20) ? 0.0 : src.pick({src.logreal(1e-6, 1e6), src.logreal(1e-20, 1e20)});
    for (auto& v : y) v = sc * nd(rng);
    const bool consistent = src.chance(1, 4);
    Vec xt(n); const double xs = src.pick({1.0, src.logreal(1e-15, 1e15)}); for (auto& v : xt) v = xs * nd(rng);
    if (consistent) y = A * xt;
    src.note(how, " ", m, "x", n, consistent ? " consistent" : "");
    src.label(how);
    const LeastSquaresRegression ls;
    if (src.flag()) { const Mat A0 = Mat::Ones(2, 1); const Vec y0 = Vec::Constant(2, 3.0); REQUIRE(close(ls.solve(A0, y0)(0), 3.0, 1e-12), "mean of two equal responses"); } // the object is reusable
    const Vec b = ls.solve(A, y);
    REQUIRE(b.size() == n && b.allFinite(), "coefficients of size ", b.size());
    const Vec r = y - A * b; const double an = A.norm(), tol = 1e-9 * an * (y.norm() + an * b.norm()) + 1e-300;
    src.nontrivial(m > n && r.norm() > 1e-6 * y.norm());
    REQUIRE((A.transpose() * r).norm() <= tol, "residual not orthogonal to the columns: ", (A.transpose() * r).norm());
    Eigen::JacobiSVD<Mat> svd(A); const Vec sv = svd.singularValues();
    const bool full = m >= n && sv(n - 1) > 1e-6 * sv(0);
    if (consistent && full) REQUIRE((b - xt).norm() <= 1e-7 * xt.norm(), "exact coefficients not recovered");
    if (full) { // every column on its own scale
        double bs = y.norm(); for (Eigen::Index j = 0; j < n; ++j) bs += A.col(j).norm() * std::fabs(b(j));
        for (Eigen::Index j = 0; j < n; ++j) REQUIRE(std::fabs(A.col(j).dot(r)) <= 1e-8 * A.col(j).norm() * bs + 1e-300, "residual not orthogonal to column ", j, ": ", A.col(j).dot(r));
    }
    // no other coefficients do better
    for (int k = 0; k < 3; ++k) { Vec d(n); for (auto& v : d) v = nd(rng) * src.pick({1.0, 1e-2, 1e-4}) * (sc > 0 ? sc : 1) / (how == "scaled" ? std::max(an, 1e-300) : 1); const Vec r2 = y - A * (b + d); REQUIRE(r2.norm() >= r.norm() * (1 - 1e-9) - 1e-12 * (y.norm() + an * b.norm()), "better coefficients exist"); }
}
PROP(C20, ridge, 300000, 3600000, 0, "a positive penalty") {
    const Eigen::Index n = static_cast<Eigen::Index>(src.range(1, 5)), m = static_cast<Eigen::Index>(src.range(1, 40));
    std::string how; const Mat A = matrix(src, m, n, how);
    Vec y(m); std::mt19937_64 rng(src.seed32()); std::normal_distribution<> nd; const double ys = src.pick({10.0, src.logreal(1e-6, 1e6), src.logreal(1e-20, 1e20)}); for (auto& v : y) v = ys * nd(rng);
    const double lam = src.pick({1.0, 0.1, 0.0, src.logreal(1e-3, 1e3), src.logreal(1e-12, 1e12)});
    src.note(how, " ", m, "x", n, " lambda=", lam);
    src.nontrivial(lam > 0);
    if (how == "repeated column" && lam > 0) src.label("collinear");
    if (lam == 0 && (m < n || how == "repeated column")) return;
    const Mat G = A.transpose() * A + lam * Mat::Identity(n, n);
    Eigen::JacobiSVD<Mat> svd(G); const double cond = svd.singularValues()(0) / std::max(1e-300, svd.singularValues()(n - 1));
    if (!(cond < 1e9)) return;
    const Vec b = RidgeRegression(lam).solve(A, y), rhs = A.transpose() * y;
    REQUIRE(b.size() == n && b.allFinite(), "coefficients");
    REQUIRE((G * b - rhs).norm() <= 1e-9 * (G.norm() * b.norm() + rhs.norm()) + 1e-300, "penalized normal equations violated by ", (G * b - rhs).norm());
    if (lam == 0) { const Vec l = LeastSquaresRegression().solve(A, y); REQUIRE((l - b).norm() <= 1e-6 * l.norm() + 1e-300, "without penalty ridge is not least squares"); }
    const Vec b2 = RidgeRegression(lam + 1).solve(A, y); REQUIRE(b2.norm() <= b.norm() * (1 + 1e-6) + 1e-300, "a larger penalty gave larger coefficients");
}
PROP(C20, lasso, 300000, 3600000, 0, "a positive threshold") {
    const Eigen::Index n = static_cast<Eigen::Index>(src.range(1, 5)), m = static_cast<Eigen::Index>(src.range(1, 40));
    std::string how; const Mat A = matrix(src, m, n, how);
    Vec y(m); std::mt19937_64 rng(src.seed32()); std::normal_distribution<> nd; const double ys = src.pick({1.0, src.logreal(1e-18, 1e18)}); for (auto& v : y) v = ys * nd(rng);
    const double lam = src.pick({0.1, 0.0, 1.0, src.logreal(1e-3, 10), src.logreal(1e-12, 1e12), ys * src.logreal(1e-3, 10)});
    src.note(how, " ", m, "x", n, " lambda=", lam);
    src.nontrivial(lam > 0);
    const Vec l = LeastSquaresRegression().solve(A, y), b = LassoRegression(lam).solve(A, y);
    REQUIRE(b.size() == n, "coefficients");
    for (Eigen::Index i = 0; i < n; ++i) {
        const double want = l(i) > lam ? l(i) - lam : l(i) < -lam ? l(i) + lam : 0.0;
        REQUIRE(close(b(i), want, 1e-9, 1e-9 * std::fabs(l(i))), "coefficient ", i, " is ", b(i), ", soft threshold of ", l(i), " is ", want);
    }
}
// For orthonormal columns the thresholded fit is the Lasso minimizer
PROP(C20, lasso_optimal, 100000, 1200000, 0, "a positive threshold and more than one column") {
    const Eigen::Index n = static_cast<Eigen::Index>(src.range(1, 5)), m = n + static_cast<Eigen::Index>(src.range(0, 20));
    std::mt19937_64 rng(src.seed32()); std::normal_distribution<> nd;
    Mat R(m, n); for (Eigen::Index i = 0; i < m; ++i) for (Eigen::Index j = 0; j < n; ++j) R(i, j) = nd(rng);
    const Mat Q = Eigen::HouseholderQR<Mat>(R).householderQ() * Mat::Identity(m, n);
    Vec y(m); for (auto& v : y) v = nd(rng) * 2;
    const double lam = src.pick({0.3, 0.0, 1.0, src.logreal(1e-3, 10)});
    src.note("orthonormal ", m, "x", n, " lambda=", lam);
    src.nontrivial(lam > 0 && n > 1);
    const Vec b = LassoRegression(lam).solve(Q, y);
    auto obj = [&](const Vec& v) { return 0.5 * (y - Q * v).squaredNorm() + lam * v.lpNorm<1>(); };
    const double o = obj(b);
    for (int k = 0; k < 5; ++k) { Vec d(n); for (auto& v : d) v = nd(rng) * std::pow(10.0, -static_cast<double>(k)); REQUIRE(obj(b + d) >= o - 1e-9 * (1 + o), "a smaller penalized residual exists"); }
}
PROP(C20, rejects, 10000, 60000, 0, "a penalty that is negative or not a number") {
    const double lam = -src.pick({1.0, 1e-300, 5e-324, src.logreal(1e-6, 1e6), std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity()});
    src.note("lambda=", lam); src.nontrivial();
    REQUIRE(throwsA<std::invalid_argument>([&] { RidgeRegression r(lam); }) && throwsA<std::invalid_argument>([&] { LassoRegression r(lam); }), "a penalty of ", lam, " accepted");
    RidgeRegression a(0.0), a2(-0.0), a3(-lam > 0 ? -lam : 1.0); LassoRegression b(0.0), b2(-0.0), b3(-lam > 0 ? -lam : 1.0);
}

// ---------------------------------------------------------------- C21
static std::vector<double> grid(Src& s) {
    size_t n = static_cast<size_t>(s.pick<int64_t>({2, 3, 4, 5, s.range(2, 30), s.chance(1, 30) ? s.range(400, 5000) : s.range(30, 400)}));
    if (s.chance(1, 3000)) n = static_cast<size_t>(s.pick<int64_t>({32768, 32769, 65536, 65537, s.range(5000, 140000)}));
    std::vector<double> x(n);
    if (s.chance(1, 5)) { // geometric steps, growing or shrinking
        const double ratio = s.pick({2.0, 0.5, s.real(0.7, 1.4)}), start = s.pick({0.0, s.real(-10, 10)}); double h = s.logreal(1e-3, 10), v = start;
        if (n > 12) x.resize(12);
        for (auto& t : x) { t = v; v += h; h *= ratio; }
        return x;
    }
    const bool uniform = s.flag(); const double x0 = s.pick({0.0, -1.0, 100.0, s.real(-100, 100)}), h = s.chance(1, 8) ? s.logreal(1e-9, 1e9) : s.logreal(1e-3, 50);
    std::mt19937_64 rng(s.seed32());
    double v = x0;
    for (size_t i = 0; i < n; ++i) { x[i] = uniform ? x0 + h * static_cast<double>(i) : v; v += h * (0.1 + 1.8 * static_cast<double>(rng() >> 11) * 0x1p-53); }
    return x;
}
static double query(Src& s, const std::vector<double>& x, size_t& cell) {
    cell = static_cast<size_t>(s.below(x.size() - 1));
    const double a = x[cell], b = x[cell + 1];
    switch (s.below(6)) { case 0: return a; case 1: return b; case 2: return 0.5 * (a + b); case 3: return std::nextafter(a, b); case 4: return std::nextafter(b, a); default: return a + (b - a) * s.unit(); }
}
PROP(C21, linear, 1500000, 18000000, 0, "strictly inside a cell") {
    const auto x = grid(src); std::vector<double> y(x.size()); std::mt19937_64 rng(src.seed32()); std::normal_distribution<> nd; const double ys = src.chance(1, 6) ? src.logreal(1e-9, 1e9) : 10.0; for (auto& v : y) v = ys * nd(rng);
    size_t c; const double q = query(src, x, c);
    src.note(x.size(), " nodes from ", x.front(), " to ", x.back(), " query ", q);
    src.nontrivial(q > x[c] && q < x[c + 1]);
    const double got = LinearInterpolation().interpolate(x, y, q), w = (q - x[c]) / (x[c + 1] - x[c]), want = (1 - w) * y[c] + w * y[c + 1];
    double sc = 0; for (double v : y) sc = std::max(sc, std::fabs(v));
    REQUIRE(close(got, want, 0, 1e-10 * sc * (1 + std::fabs(q) / (x[c + 1] - x[c]) * 1e-4)), "value ", got, " at ", q, ", expected ", want);
}
PROP(C21, quadratic, 1500000, 18000000, 0, "strictly inside an interior cell") {
    const auto x = grid(src); std::vector<double> y(x.size()); std::mt19937_64 rng(src.seed32()); std::normal_distribution<> nd; const double ys = src.chance(1, 6) ? src.logreal(1e-9, 1e9) : 10.0; for (auto& v : y) v = ys * nd(rng);
    size_t c; const double q = query(src, x, c); const size_t n = x.size();
    src.note(n, " nodes from ", x.front(), " to ", x.back(), " query ", q);
    src.nontrivial(q > x[c] && q < x[c + 1] && c > 0 && c + 2 < n);
    const double got = QuadraticInterpolation().interpolate(x, y, q);
    double sc = 0; for (double v : y) sc = std::max(sc, std::fabs(v));
    auto lin = [&](size_t k) { const double w = (q - x[k]) / (x[k + 1] - x[k]); return (1 - w) * y[k] + w * y[k + 1]; };
    auto quad = [&](size_t k) { // Newton form through k-1, k, k+1
        const double d1 = (y[k] - y[k - 1]) / (x[k] - x[k - 1]), d2 = (y[k + 1] - y[k]) / (x[k + 1] - x[k]);
        return y[k - 1] + d1 * (q - x[k - 1]) + (d2 - d1) / (x[k + 1] - x[k - 1]) * (q - x[k - 1]) * (q - x[k]);
    };
    const double tol = 1e-8 * sc * (1 + std::fabs(q) / (x[c + 1] - x[c]) * 1e-4);
    if (q == x[c] || q == x[c + 1]) { const double want = q == x[c] ? y[c] : y[c + 1]; REQUIRE(close(got, want, 0, tol), "value ", got, " at the node ", q, ", expected ", want); return; }
    const double want = c == 0 || c + 2 == n ? lin(c) : quad(c);
    if (c > 0 && c + 2 < n) src.label("interior"); else src.label("end cell");
    REQUIRE(close(got, want, 0, tol), "value ", got, " at ", q, ", expected ", want);
}
PROP(C21, exactness, 500000, 6000000, 0, "the query is inside the grid") {
    const auto x = grid(src); const size_t n = x.size();
    const double a = src.real(-5, 5), b = src.real(-5, 5), c2 = src.flag() ? src.real(-2, 2) : 0.0, mid = x[n / 2], h = (x.back() - x.front());
    std::vector<double> y(n); auto f = [&](double t) { const double u = (t - mid) / h; return a + b * u + c2 * u * u; };
    for (size_t i = 0; i < n; ++i) y[i] = f(x[i]);
    size_t c; const double q = query(src, x, c);
    src.note(n, " nodes, ", a, " + ", b, " u + ", c2, " u^2, query ", q);
    src.nontrivial();
    const double l = LinearInterpolation().interpolate(x, y, q), qd = QuadraticInterpolation().interpolate(x, y, q);
    if (c2 == 0) { REQUIRE(close(l, f(q), 0, 1e-7), "linear interpolation of an affine function: ", l, " for ", f(q)); REQUIRE(close(qd, f(q), 0, 1e-7), "quadratic interpolation of an affine function: ", qd, " for ", f(q)); }
    else if (c > 0 && c + 2 < n) REQUIRE(close(qd, f(q), 0, 1e-7), "quadratic interpolation of a quadratic: ", qd, " for ", f(q));
}
PROP(C21, outside, 300000, 3600000, 0, "outside the grid or on its ends") {
    const auto x = grid(src); std::vector<double> y(x.size()); std::mt19937_64 rng(src.seed32()); std::normal_distribution<> nd; for (auto& v : y) v = nd(rng);
    const bool hi = src.flag(); const double e = hi ? x.back() : x.front();
    double q = e; switch (src.below(4)) { case 0: break; case 1: q = std::nextafter(e, hi ? 1e300 : -1e300); break; case 2: q = hi ? 1e300 : -1e300; break; default: q = e + (hi ? 1 : -1) * src.logreal(1e-6, 1e6); }
    src.note(x.size(), " nodes from ", x.front(), " to ", x.back(), " query ", q);
    src.nontrivial();
    const double want = hi ? y.back() : y.front();
    REQUIRE(LinearInterpolation().interpolate(x, y, q) == want && QuadraticInterpolation().interpolate(x, y, q) == want, "beyond the grid the end value is expected");
}

// One object serves any sequence of grids, values and queries, including grids changed in place
PROP(C21, reuse, 200000, 2400000, 0, "at least two queries inside a grid") {
    std::vector<std::vector<double>> xs, ys; std::mt19937_64 rng(src.seed32()); std::normal_distribution<> nd;
    for (int g = 0; g < 2; ++g) { xs.push_back(grid(src)); ys.emplace_back(xs[g].size()); for (auto& v : ys[g]) v = nd(rng); }
    const LinearInterpolation lin; const QuadraticInterpolation quad; int inside = 0;
    for (int k = 0; k < 6; ++k) {
        const size_t g = src.below(2); auto &x = xs[g], &y = ys[g];
        if (src.chance(1, 3)) { const double f = src.pick({2.0, 0.5, 3.0}), d = src.pick({0.0, 1.0, -7.0}); for (auto& v : x) v = v * f + d; for (auto& v : y) v = -v; src.note("grid ", g, " changed in place"); }
        size_t c; const double q = query(src, x, c); const size_t n = x.size();
        src.note("grid ", g, " of ", n, " nodes, query ", q);
        double sc = 0; for (double v : y) sc = std::max(sc, std::fabs(v));
        bool inc = true; for (size_t i = 1; i < n; ++i) inc = inc && x[i] > x[i - 1];
        if (!inc) { src.label("collapsed, skipped"); return; }
        const double w = (q - x[c]) / (x[c + 1] - x[c]), chord = (1 - w) * y[c] + w * y[c + 1], tol = 1e-8 * sc * (1 + std::fabs(q) / (x[c + 1] - x[c]) * 1e-4);
        REQUIRE(close(lin.interpolate(x, y, q), chord, 0, tol), "linear value ", lin.interpolate(x, y, q), " at ", q, ", expected ", chord);
        double want = chord;
        if (c > 0 && c + 2 < n) { const double d1 = (y[c] - y[c - 1]) / (x[c] - x[c - 1]), d2 = (y[c + 1] - y[c]) / (x[c + 1] - x[c]); want = y[c - 1] + d1 * (q - x[c - 1]) + (d2 - d1) / (x[c + 1] - x[c - 1]) * (q - x[c - 1]) * (q - x[c]); }
        if (q == x[c]) want = y[c];
        if (q == x[c + 1]) want = y[c + 1];
        const double got = quad.interpolate(x, y, q);
        REQUIRE(close(got, want, 0, tol), "quadratic value ", got, " at ", q, ", expected ", want);
        if (q > x[c] && q < x[c + 1]) ++inside;
    }
    src.nontrivial(inside >= 2);
}

// ---------------------------------------------------------------- C22
static Eigen::SparseMatrix<double> tridiag(Src& s, int n, std::string& how) {
    std::mt19937_64 rng(s.seed32()); auto U = [&] { return static_cast<double>(rng() >> 11) * 0x1p-53; };
    const int k = static_cast<int>(s.below(5)); how = k == 0 ? "laplacian" : k == 1 ? "random dominant" : k == 2 ? "implicit diffusion" : k == 3 ? "zero couplings" : "nearly symmetric";
    const double eps = s.logreal(1e-10, 1e-2); double lastC = 1;
    const double lam = s.logreal(1e-3, 1e4), scale = s.chance(1, 3) ? s.logreal(1e-12, 1e12) : 1.0; // the unit of the equations is arbitrary
    const bool zeros = s.chance(1, 4);
    std::vector<Eigen::Triplet<double>> t;
    for (int i = 0; i < n; ++i) {
        double a = 0, c = 0, b;
        if (k == 0) { a = c = -1; b = 2.5; }
        else if (k == 1) { a = 4 * U() - 2; c = 4 * U() - 2; b = (std::fabs(a) + std::fabs(c)) * (1.05 + U()) * (U() < 0.3 ? -1 : 1) + 0.01; }
        else if (k == 2) { const double g = lam * (i + 1) * (i + 1) / (static_cast<double>(n) * n), d = lam * 0.1 * (i + 1) / n; a = -(g - d) ; c = -(g + d); b = 1 + std::fabs(a) + std::fabs(c); }
        else if (k == 4) { a = lastC * (1 + eps * (2 * U() - 1)); c = lastC = U() < 0.5 ? -1 : 2 * U() - 1; b = 1.1 * (std::fabs(a) + std::fabs(c)) + 0.01 + U(); }
        else { a = U() < 0.4 ? 0 : U() - 0.5; c = U() < 0.4 ? 0 : U() - 0.5; b = 1.2 + U(); }
        a *= scale; b *= scale; c *= scale;
        if (i > 0 && (a != 0 || zeros)) t.emplace_back(i, i - 1, a);
        t.emplace_back(i, i, b);
        if (i + 1 < n && (c != 0 || zeros)) t.emplace_back(i, i + 1, c);
    }
    Eigen::SparseMatrix<double> A(n, n); A.setFromTriplets(t.begin(), t.end()); A.makeCompressed();
    return A;
}
static double backward(const Eigen::SparseMatrix<double>& A, const Vec& x, const Vec& b) {
    const Vec r = A * x - b; double an = 0;
    for (int k = 0; k < A.outerSize(); ++k) for (Eigen::SparseMatrix<double>::InnerIterator it(A, k); it; ++it) an = std::max(an, std::fabs(it.value()));
    return r.lpNorm<Eigen::Infinity>() / (3 * an * x.lpNorm<Eigen::Infinity>() + b.lpNorm<Eigen::Infinity>() + 1e-300);
}
PROP(C22, tridiagonal, 200000, 3600000, 0, "three or more unknowns") {
    const int small = static_cast<int>(src.pick<int64_t>({2, 3, src.range(2, 12), src.chance(1, 60) ? src.range(80, 400) : src.range(10, 80)}));
    const bool huge = src.chance(1, 600);
    const int n = huge ? static_cast<int>(src.pick<int64_t>({src.range(400, 2000), src.logreal(2000, 50000)})) : small;
    std::string how; const auto A = tridiag(src, n, how);
    std::mt19937_64 rng(src.seed32()); std::normal_distribution<> nd; Vec b(n); const double sc = src.logreal(1e-6, 1e6); for (auto& v : b) v = sc * nd(rng);
    if (src.chance(1, 8)) b.setZero(), b(static_cast<Eigen::Index>(src.below(n))) = sc;
    src.note(how, " n=", n); src.nontrivial(n >= 3); src.label(how);
    const Eigen::SparseMatrix<double> keep = A; const Vec kb = b;
    const ThomasAlgorithm st; const LUDecompositionSolver sl; const PartialPivotingLUSolver sp;
    const Vec t = st.solve(A, b), l = sl.solve(A, b), p = huge ? l : sp.solve(A, b); // dense elimination of the small ones only
    if (huge) src.label("over 400 unknowns");
    if (!huge && src.chance(1, 4)) { // the same objects on another system, then on the first again
        const int n2 = static_cast<int>(src.range(2, 10)); std::string h2; const auto B = tridiag(src, n2, h2); Vec b2(n2); for (auto& v : b2) v = nd(rng);
        const Vec t2 = st.solve(B, b2), l2 = sl.solve(B, b2), p2 = sp.solve(B, b2);
        REQUIRE(t2.size() == n2 && l2.size() == n2 && p2.size() == n2, "solution sizes on reuse");
        REQUIRE(backward(B, t2, b2) < 1e-12 && backward(B, l2, b2) < 1e-12 && backward(B, p2, b2) < 1e-12, "residuals on reuse: ", backward(B, t2, b2), " ", backward(B, l2, b2), " ", backward(B, p2, b2));
        REQUIRE((st.solve(A, b) - t).norm() == 0 && (sl.solve(A, b) - l).norm() == 0 && (sp.solve(A, b) - p).norm() == 0, "the same system solved again differs");
    }
    REQUIRE(t.size() == n && l.size() == n && p.size() == n, "solution sizes");
    REQUIRE(backward(A, t, b) < 1e-12, "Thomas residual ", backward(A, t, b));
    REQUIRE(backward(A, l, b) < 1e-12, "sparse LU residual ", backward(A, l, b));
    REQUIRE(backward(A, p, b) < 1e-12, "dense LU residual ", backward(A, p, b));
    const double m = std::max({t.lpNorm<Eigen::Infinity>(), 1e-300});
    REQUIRE((t - p).lpNorm<Eigen::Infinity>() <= 1e-7 * m && (l - p).lpNorm<Eigen::Infinity>() <= 1e-7 * m, "solvers disagree");
    REQUIRE((keep - A).norm() == 0 && (kb - b).norm() == 0, "inputs modified");
}
// Every equation and every unknown may have a unit of its own: elimination without pivoting does not notice
PROP(C22, scaled, 80000, 1200000, 0, "three or more unknowns and scales at least a million apart") {
    const int n = static_cast<int>(src.pick<int64_t>({2, 3, src.range(2, 12), src.range(10, 60)}));
    std::string how; const auto A = tridiag(src, n, how);
    std::mt19937_64 rng(src.seed32()); std::normal_distribution<> nd; Vec b(n); for (auto& v : b) v = nd(rng);
    const int wide = static_cast<int>(src.pick<int64_t>({4, 20, 60, 100}));
    std::vector<int> row(n), col(n); int lo = 1000, hi = -1000;
    for (int i = 0; i < n; ++i) { row[i] = static_cast<int>(rng() % (2 * wide + 1)) - wide; col[i] = static_cast<int>(rng() % (2 * wide + 1)) - wide; lo = std::min(lo, row[i]); hi = std::max(hi, row[i]); }
    Eigen::SparseMatrix<double> B = A; Vec sb(n);
    for (int k = 0; k < B.outerSize(); ++k) for (Eigen::SparseMatrix<double>::InnerIterator it(B, k); it; ++it) it.valueRef() = std::ldexp(it.value(), row[it.row()] + col[it.col()]);
    for (int i = 0; i < n; ++i) sb(i) = std::ldexp(b(i), row[i]);
    src.note(how, " n=", n, " scales up to 2^", wide); src.nontrivial(n >= 3 && hi - lo >= 20); src.label(cat("2^", wide));
    const Vec x = ThomasAlgorithm().solve(A, b), y = ThomasAlgorithm().solve(B, sb);
    const double m = x.lpNorm<Eigen::Infinity>();
    for (int i = 0; i < n; ++i) { const double back = std::ldexp(y(i), col[i]); REQUIRE(std::fabs(back - x(i)) <= 1e-9 * m, "unknown ", i, " is ", back, " after scaling equations and unknowns by powers of two, ", x(i), " before"); }
}
PROP(C22, general, 150000, 1800000, 0, "three or more unknowns") {
    const int n = static_cast<int>(src.pick<int64_t>({1, 2, 3, src.range(1, 15), src.range(10, 40)}));
    std::mt19937_64 rng(src.seed32()); std::normal_distribution<> nd;
    std::vector<Eigen::Triplet<double>> t; const bool permute = src.flag(); const int fill = static_cast<int>(src.range(1, 4));
    std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i; if (permute) std::shuffle(perm.begin(), perm.end(), rng);
    Mat D = Mat::Zero(n, n);
    for (int i = 0; i < n; ++i) { double s = 0; for (int k = 0; k < fill; ++k) { const int j = static_cast<int>(rng() % n); const double v = nd(rng); D(perm[i], j) += v; s += std::fabs(v); } D(perm[i], i) += (s + 0.5) * (rng() % 2 ? 1 : -1) * 1.5; }
    if (permute) src.label("needs pivoting");
    if (src.chance(1, 3)) D *= src.logreal(1e-12, 1e12);
    Eigen::SparseMatrix<double> A = D.sparseView(); A.makeCompressed();
    Vec b(n); const double bs = src.pick({1.0, 0.0, src.logreal(1e-9, 1e9)}); for (auto& v : b) v = bs * nd(rng);
    src.note("n=", n, permute ? " permuted rows" : "", " fill=", fill); src.nontrivial(n >= 3);
    const Vec l = LUDecompositionSolver().solve(A, b), p = PartialPivotingLUSolver().solve(A, b);
    REQUIRE(backward(A, l, b) < 1e-10, "sparse LU residual ", backward(A, l, b));
    REQUIRE(backward(A, p, b) < 1e-10, "dense LU residual ", backward(A, p, b));
}
PROP(C22, rejects, 20000, 120000, 0, "a singular matrix, or one too small") {
    const int n = static_cast<int>(src.range(1, 12)); std::mt19937_64 rng(src.seed32()); std::normal_distribution<> nd;
    Vec b(n); const bool still = src.chance(1, 3); for (auto& v : b) v = still ? 0.0 : nd(rng);
    src.nontrivial();
    if (n == 1) { Eigen::SparseMatrix<double> A(1, 1); A.insert(0, 0) = 2; A.makeCompressed(); src.note("1x1"); REQUIRE(throwsA<std::invalid_argument>([&] { (void)ThomasAlgorithm().solve(A, b); }), "1x1 accepted"); return; }
    const int z = static_cast<int>(src.below(n)); const bool col = src.flag();
    Mat D = Mat::Identity(n, n) * 3; for (int i = 0; i + 1 < n; ++i) D(i, i + 1) = D(i + 1, i) = nd(rng);
    if (col) D.col(z).setZero(); else D.row(z).setZero();
    Eigen::SparseMatrix<double> A = D.sparseView(); A.makeCompressed();
    src.note("n=", n, " zero ", col ? "column " : "row ", z);
    bool threw = false; Vec x;
    try { x = LUDecompositionSolver().solve(A, b); } catch (const std::exception&) { threw = true; }
    REQUIRE(threw, "sparse LU returned a solution of a singular system");
}
