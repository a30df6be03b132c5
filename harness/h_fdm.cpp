// C23 finite difference schemes, C24 Black-Scholes equation, C25 solve once / query at any spot
#include <map>
#include <array>
#include <iostream>
#include "mc.h"
#include "solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"
#include "solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_implicit_fdm_solver.h"
#include "numerical_analysis/interpolation/linear_interpolation.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"

using namespace mc;
using namespace OptionPricer::PDE::OneFactor;
using namespace OptionPricer::FDM::OneFactor;
using pbt::Src; using pbt::cat; using pbt::close;

namespace {
struct Quiet { // the solvers warn about stability on std::cerr
    Quiet() { std::cerr.rdbuf(nullptr); }
} quiet;

enum { EXPLICIT, IMPLICIT, CN };
const char* schemeName(int s) { return s == EXPLICIT ? "explicit Euler" : s == IMPLICIT ? "implicit Euler" : "Crank-Nicolson"; }

using F2 = std::function<double(double, double)>; // (t, x)
struct FnPDE : ConvectionDiffusionPDE {
    F2 d, c, r, f, L, R; std::function<double(double)> u0;
    double diffusion(const double& t, const double& x) const override { return d(t, x); }
    double convection(const double& t, const double& x) const override { return c(t, x); }
    double reaction(const double& t, const double& x) const override { return r(t, x); }
    double rightHandSide(const double& t, const double& x) const override { return f(t, x); }
    double boundaryLeft(const double& t, const double& x) const override { return L(t, x); }
    double boundaryRight(const double& t, const double& x) const override { return R(t, x); }
    double initialCondition(const double& x) const override { return u0(x); }
};
std::shared_ptr<MatrixSolver> matrixSolver(int k) {
    switch (k) {
        case 1: return std::make_shared<ThomasAlgorithm>();
        case 2: return std::make_shared<LUDecompositionSolver>();
        case 3: return std::make_shared<PartialPivotingLUSolver>();
        default: return nullptr;
    }
}
std::shared_ptr<Interpolation> interpolation(int k) {
    if (k == 1) return std::make_shared<LinearInterpolation>();
    if (k == 2) return std::make_shared<QuadraticInterpolation>();
    return nullptr;
}
std::shared_ptr<EuropeanOption> vanilla(bool call, double K, double T, const std::string& ticker = "AAPL") {
    Contract c; c.call = call; c.K = K; c.T = T; c.ticker = ticker;
    EuropeanOptionFactory f;
    if (call) return f.createCallOption(c.params());
    return f.createPutOption(c.params());
}
std::unique_ptr<FDMSolver> solver(int scheme, double X, unsigned long J, double T, unsigned long N, std::unique_ptr<ConvectionDiffusionPDE> pde,
                                  std::shared_ptr<EuropeanOption> o, std::shared_ptr<IMarketData> m, int interp, int mat) {
    switch (scheme) {
        case EXPLICIT: return std::make_unique<EulerExplicitFDM>(X, J, T, N, std::move(pde), o, m, interpolation(interp));
        case IMPLICIT: return std::make_unique<EulerImplicitFDM>(X, J, T, N, std::move(pde), o, m, interpolation(interp), matrixSolver(mat));
        default: return std::make_unique<CrankNicolsonFDMSolver>(X, J, T, N, std::move(pde), o, m, interpolation(interp), matrixSolver(mat));
    }
}
double dmax(const std::vector<double>& v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }

// Coefficients of a random problem on [0,X] x [0,T]: smooth, variable in both arguments, mild enough for the step sizes
struct Problem {
    int scheme; double X, T; unsigned long J, N; double dx, dt; int mat, interp;
    std::array<double, 4> D, C, R;      // value, x slope, t slope, wave
    double q(const std::array<double, 4>& a, double t, double x) const { return a[0] * (1 + 0.5 * a[1] * x / X + 0.4 * a[2] * (T > 0 ? t / T : 0) + 0.2 * a[3] * std::sin(3 * x / X + 2 * (T > 0 ? t / T : 0))); }
    std::string str() const { return cat(schemeName(scheme), " X=", X, " J=", J, " T=", T, " N=", N, " D0=", D[0], " C0=", C[0], " R0=", R[0], " matrix solver ", mat, " interpolation ", interp); }
};
Problem problem(Src& s) {
    Problem p;
    p.scheme = static_cast<int>(s.below(3));
    p.X = s.pick({1.0, 10.0, 200.0, s.logreal(0.1, 1e4), s.logreal(1e-4, 1e7)});
    p.T = s.pick({1.0, 0.25, s.logreal(0.01, 20), s.logreal(1e-4, 100)});
    const bool large = s.chance(1, 150), huge = s.chance(1, 400);
    p.J = static_cast<unsigned long>(s.pick<int64_t>({3, 4, 5, s.range(4, 12), large ? s.range(60, 300) : s.range(10, 60)}));
    p.N = static_cast<unsigned long>(s.pick<int64_t>({2, 3, s.range(2, 10), large ? s.range(60, 600) : s.range(5, 60)}));
    p.mat = static_cast<int>(s.below(4)); if (huge) { p.J = static_cast<unsigned long>(s.range(300, 2500)); p.N = static_cast<unsigned long>(s.range(2, 6)); if (p.mat == 3) p.mat = 1; }
    if (p.J == 3 && p.mat == 1) p.mat = 0; // one unknown: the Thomas algorithm rejects it
    p.interp = static_cast<int>(s.below(3));
    p.dx = p.X / static_cast<double>(p.J - 1); p.dt = p.T / static_cast<double>(p.N - 1);
    for (auto* a : {&p.D, &p.C, &p.R}) { const int shape = static_cast<int>(s.below(3)); for (int i = 1; i < 4; ++i) (*a)[i] = shape == 0 ? 0.0 : shape == 1 ? (i == 1 ? s.real(-1, 1) : 0.0) : s.real(-1, 1); }
    // dt D / dx^2: at most 0.2 for the explicit scheme (the shape factor is at most 2.1), larger for the others
    const double lam = p.scheme == EXPLICIT ? s.real(0, 0.2) : s.pick({s.real(0, 0.3), s.logreal(0.3, 30)});
    p.D[0] = lam * p.dx * p.dx / p.dt;
    // |C| dx / 2 below D keeps every off-diagonal entry non-negative; the factor below allows somewhat more
    const double mu = s.pick({0.0, s.real(-0.4, 0.4) * lam, s.real(-0.1, 0.1)});
    p.C[0] = mu * 2 * p.dx / p.dt;
    p.R[0] = s.pick({0.0, s.real(-0.2, 0.1) / std::max(p.dt, p.T / 10), -0.05});
    p.R[0] = std::max(-0.4 / p.dt, std::min(0.1 / p.dt, p.R[0]));
    return p;
}
// How much the sup norm can grow over the whole run, from the absolute row sums of the explicit part and a crude bound on the implicit one
double growth(const Problem& p) {
    double g = 1;
    for (unsigned long n = 1; n < p.N; ++n) {
        double ex = 1, im = 1;
        for (unsigned long j = 1; j + 1 < p.J; ++j) {
            const double x = static_cast<double>(j) * p.dx, t0 = static_cast<double>(n - 1) * p.dt, t1 = static_cast<double>(n) * p.dt;
            auto terms = [&](double t, double th, double& lo, double& mid, double& up) {
                const double d = th * p.dt * p.q(p.D, t, x) / (p.dx * p.dx), c = th * 0.5 * p.dt * p.q(p.C, t, x) / p.dx, r = th * p.dt * p.q(p.R, t, x);
                lo = d - c; up = d + c; mid = -2 * d + r;
            };
            const double th = p.scheme == EXPLICIT ? 0 : p.scheme == IMPLICIT ? 1 : 0.5;
            double lo, mid, up;
            terms(t0, 1 - th, lo, mid, up); ex = std::max(ex, std::fabs(lo) + std::fabs(1 + mid) + std::fabs(up));
            terms(t1, th, lo, mid, up); const double dom = std::fabs(1 - mid) - std::fabs(lo) - std::fabs(up);
            if (dom <= 0.2) return 1e300;
            im = std::max(im, 1 / dom);
        }
        g *= ex * im;
        if (g > 1e12) return g;
    }
    return g;
}
}  // namespace

// ---------------------------------------------------------------- C23
// u = sum a_ik t^i x^k with k <= 2 and i <= 1 (2 for Crank-Nicolson): every scheme reproduces it to rounding
PROP(C23, manufactured, 60000, 1500000, 0, "the solution varies in space and time and at least two steps are taken") {
    Problem p = problem(src);
    const int degT = p.scheme == CN ? 2 : 1;
    double a[3][3] = {};
    for (int i = 0; i <= degT; ++i) for (int k = 0; k < 3; ++k) a[i][k] = static_cast<double>(src.range(-4, 4));
    const double X = p.X, T = p.T;
    auto u = [=](double t, double x) { double v = 0; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) v += a[i][k] * std::pow(t / T, i) * std::pow(x / X, k); return v; };
    auto ut = [=](double t, double x) { double v = 0; for (int i = 1; i < 3; ++i) for (int k = 0; k < 3; ++k) v += a[i][k] * i * std::pow(t / T, i - 1) / T * std::pow(x / X, k); return v; };
    auto ux = [=](double t, double x) { double v = 0; for (int i = 0; i < 3; ++i) for (int k = 1; k < 3; ++k) v += a[i][k] * std::pow(t / T, i) * k * std::pow(x / X, k - 1) / X; return v; };
    auto uxx = [=](double t, double) { double v = 0; for (int i = 0; i < 3; ++i) v += a[i][2] * std::pow(t / T, i) * 2 / X / X; return v; };
    auto pde = std::make_unique<FnPDE>();
    pde->d = [p](double t, double x) { return p.q(p.D, t, x); };
    pde->c = [p](double t, double x) { return p.q(p.C, t, x); };
    pde->r = [p](double t, double x) { return p.q(p.R, t, x); };
    pde->f = [=](double t, double x) { return p.q(p.D, t, x) * uxx(t, x) + p.q(p.C, t, x) * ux(t, x) + p.q(p.R, t, x) * u(t, x) - ut(t, x); };
    pde->L = u; pde->R = u; pde->u0 = [=](double x) { return u(0, x); };
    const double G = growth(p);
    src.note(p.str(), " growth ", G);
    for (int i = 0; i < 3; ++i) src.note("t^", i, ": ", a[i][0], " ", a[i][1], " ", a[i][2]);
    if (G > 1e4) { src.label("too stiff, skipped"); return; }
    src.label(schemeName(p.scheme));
    bool ts = false, sp = false; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) if (a[i][k] != 0) { ts = ts || i > 0; sp = sp || k > 0; }
    src.nontrivial(ts && sp && p.N > 2);
    Market m; m.S = X * src.unit(); if (m.S <= 0) m.S = X / 2;
    auto md = m.apply();
    auto s = solver(p.scheme, X, p.J, T, p.N, std::move(pde), vanilla(true, X / 2, T), md, p.interp, p.mat);
    const auto v = s->solve();
    REQUIRE(v.size() == p.J, "grid of ", v.size(), " values");
    std::vector<double> want(p.J); for (unsigned long j = 0; j < p.J; ++j) want[j] = u(T, static_cast<double>(j) * p.dx);
    const double sc = 40.0;
    for (unsigned long j = 0; j < p.J; ++j) REQUIRE(close(v[j], want[j], 0, 1e-11 * sc * G), "node ", j, " of ", p.J, ": ", v[j], ", exact solution ", want[j]);
    // and in between: linear interpolation errs by at most dx^2/8 u_xx
    const double price = s->calculatePrice(), ex = u(T, m.S), bound = 0.125 * p.dx * p.dx * std::fabs(uxx(T, 0));
    REQUIRE(close(price, ex, 0, 1.0001 * bound + 1e-10 * sc * G), "value ", price, " at ", m.S, ", exact solution ", ex);
}
// Any smooth problem: the grid is that of the theta scheme, solved here by dense Gaussian elimination
PROP(C23, theta, 30000, 800000, 0, "at least two steps") {
    Problem p = problem(src);
    std::mt19937_64 rng(src.seed32()); std::normal_distribution<> nd;
    const double fa = src.real(-2, 2) / std::max(p.dt, p.T / 5), fw = src.real(0, 9), la = nd(rng), lb = nd(rng), ra = nd(rng), rb = nd(rng);
    const int ic = static_cast<int>(src.below(3)); // smooth, kink, rough
    std::vector<double> rough(p.J); for (auto& x : rough) x = nd(rng);
    const double X = p.X, T = p.T, kx = X * src.unit();
    auto f = [=](double t, double x) { return fa * std::cos(fw * x / X + t / T); };
    auto L = [=](double t, double) { return la + lb * std::exp(-t / T); };
    auto R = [=](double t, double) { return ra + rb * t / T * t / T; };
    auto u0 = [=](double x) { return ic == 0 ? std::sin(4 * x / X) : ic == 1 ? std::max(x - kx, 0.0) / X : rough[static_cast<size_t>(std::lround(x / X * static_cast<double>(p.J - 1)))]; };
    const double G = growth(p);
    src.note(p.str(), " source ", fa, " initial ", ic, " growth ", G);
    if (G > 1e4) { src.label("too stiff, skipped"); return; }
    src.label(schemeName(p.scheme)); src.nontrivial(p.N > 2);
    auto pde = std::make_unique<FnPDE>();
    pde->d = [p](double t, double x) { return p.q(p.D, t, x); };
    pde->c = [p](double t, double x) { return p.q(p.C, t, x); };
    pde->r = [p](double t, double x) { return p.q(p.R, t, x); };
    pde->f = f; pde->L = L; pde->R = R; pde->u0 = u0;
    const double th = p.scheme == EXPLICIT ? 0 : p.scheme == IMPLICIT ? 1 : 0.5;
    std::vector<double> u(p.J); for (unsigned long j = 0; j < p.J; ++j) u[j] = u0(static_cast<double>(j) * p.dx);
    double sc = dmax(u);
    const int n = static_cast<int>(p.J) - 2;
    for (unsigned long k = 1; k < p.N; ++k) {
        const double t0 = static_cast<double>(k - 1) * p.dt, t1 = static_cast<double>(k) * p.dt;
        std::vector<double> w(p.J); w[0] = L(t1, 0); w[p.J - 1] = R(t1, X);
        // (1 - th dt A1) w = (1 + (1-th) dt A0) u - dt ((1-th) f0 + th f1): tridiagonal elimination without pivoting (dominant)
        std::vector<double> lo(n), di(n), up(n), b(n);
        for (int i = 0; i < n; ++i) {
            const double x = static_cast<double>(i + 1) * p.dx; const size_t j = i + 1;
            auto A = [&](double t, double& l, double& m, double& r) { const double d = p.q(p.D, t, x) / p.dx / p.dx, c = 0.5 * p.q(p.C, t, x) / p.dx; l = d - c; r = d + c; m = -2 * d + p.q(p.R, t, x); };
            double l, m, r; A(t0, l, m, r);
            b[i] = u[j] + (1 - th) * p.dt * (l * u[j - 1] + m * u[j] + r * u[j + 1]) - p.dt * ((1 - th) * f(t0, x) + th * f(t1, x));
            A(t1, l, m, r);
            lo[i] = -th * p.dt * l; di[i] = 1 - th * p.dt * m; up[i] = -th * p.dt * r;
            if (i == 0) b[i] -= lo[i] * w[0];
            if (i == n - 1) b[i] -= up[i] * w[p.J - 1];
        }
        for (int i = 1; i < n; ++i) { const double g = lo[i] / di[i - 1]; di[i] -= g * up[i - 1]; b[i] -= g * b[i - 1]; }
        for (int i = n - 1; i >= 0; --i) { if (i + 1 < n) b[i] -= up[i] * w[i + 2]; w[i + 1] = b[i] / di[i]; }
        u = w; sc = std::max(sc, dmax(u));
    }
    Market m; m.S = X * 0.5; auto md = m.apply();
    auto s = solver(p.scheme, X, p.J, T, p.N, std::move(pde), vanilla(true, X / 2, T), md, p.interp, p.mat);
    const auto v = s->solve();
    REQUIRE(v.size() == p.J, "grid of ", v.size(), " values");
    for (unsigned long j = 0; j < p.J; ++j) REQUIRE(close(v[j], u[j], 0, 1e-10 * (sc + 1) * G), "node ", j, " of ", p.J, ": ", v[j], ", the scheme gives ", u[j]);
}
// Boundary values and sources are asked for at times of the grid only, the last one being the horizon
PROP(C23, times, 15000, 300000, 0, "more than two time levels") {
    Problem p = problem(src);
    auto pde = std::make_unique<FnPDE>();
    std::vector<double> times;
    auto rec = [&times](double t) { times.push_back(t); };
    double lastL = -1, lastR = -1, xl = -1, xr = -1;
    pde->d = [&, p](double t, double x) { rec(t); return p.q(p.D, t, x); };
    pde->c = [&, p](double t, double x) { rec(t); return p.q(p.C, t, x); };
    pde->r = [&, p](double t, double x) { rec(t); return p.q(p.R, t, x); };
    pde->f = [&](double t, double) { rec(t); return 0.0; };
    pde->L = [&](double t, double x) { rec(t); lastL = std::max(lastL, t); xl = x; return 1 + t; };
    pde->R = [&](double t, double x) { rec(t); lastR = std::max(lastR, t); xr = x; return 2 - t; };
    pde->u0 = [](double) { return 0.5; };
    src.note(p.str()); src.nontrivial(p.N > 2); src.label(schemeName(p.scheme));
    Market m; m.S = p.X * 0.5; auto md = m.apply();
    auto s = solver(p.scheme, p.X, p.J, p.T, p.N, std::move(pde), vanilla(true, p.X / 2, p.T), md, p.interp, p.mat);
    const auto v = s->solve();
    REQUIRE(close(lastL, p.T, 1e-12) && close(lastR, p.T, 1e-12), "boundaries last evaluated at ", lastL, " and ", lastR, " for a horizon of ", p.T);
    REQUIRE(xl == 0.0 && close(xr, p.X, 1e-12), "boundaries evaluated at ", xl, " and ", xr);
    for (double t : times) REQUIRE(t >= 0 && t <= p.T * (1 + 1e-12), "coefficients evaluated at ", t, " outside [0, ", p.T, "]");
    REQUIRE(close(v.front(), 1 + p.T, 1e-11) && close(v.back(), 2 - p.T, 1e-11, 1e-11), "end values ", v.front(), ", ", v.back(), " differ from the boundary conditions at the horizon");
}

// ---------------------------------------------------------------- C24
namespace {
Market pmarket(Src& s, double minSigma) {
    Market m; m.ticker = s.pick({"AAPL", "MSFT"});
    m.S = s.pick({100.0, 1.0, s.logreal(0.1, 1e4)}); m.sigma = s.real(minSigma, 0.6);
    m.r = s.pick({0.05, 0.0, -0.02, s.real(-0.04, 0.15)});
    if (s.flag()) m.c = s.pick({0.0, 0.03, 0.08, s.real(0, 0.12)});
    return m;
}
}  // namespace
// The closed form solves the equation the object describes, with its boundary values and payoff
PROP(C24, equation, 600000, 12000000, 0, "a dividend yield or a non-zero rate, and the point not deep in a tail") {
    Market m = pmarket(src, 0.05);
    const bool wide = src.chance(1, 3);
    auto widen = [&](Market& k) { k.sigma = src.pick({k.sigma, src.logreal(0.005, 4)}); k.r = src.pick({k.r, src.real(-0.5, 1.0), 0.0, 1e-4}); if (src.flag()) k.c = src.pick({0.0, 1.0, src.real(0, 1), 0.2}); else k.c.reset(); };
    if (wide) { widen(m); src.label("wide"); }
    const bool call = src.flag();
    const double K = m.S * src.pick({1.0, 0.8, 1.25, src.real(0.4, 2.0), src.logreal(1e-3, 1e3)}), T = src.pick({1.0, src.real(0.05, 4), src.logreal(1e-3, 50)});
    const double t = src.pick({T, src.real(0.01, 1.0) * T, 0.5 * T, T * src.logreal(1e-3, 1)});
    auto md = m.apply(); auto o = vanilla(call, K, T, m.ticker);
    BlackScholesPDE pde(o, md);
    // the market may move after the equation is set up
    Market now = m;
    if (src.chance(1, 3)) { now.sigma = src.real(0.05, 0.6); now.r = src.real(-0.02, 0.1); if (src.flag()) now.c = src.real(0, 0.1); if (wide) widen(now); now.apply(); if (now.c == m.c) src.label("moved"); }
    const double sd = now.sigma * std::sqrt(t);
    const double x = K * std::exp(sd * src.real(-3, 3)), q = now.q(), r = now.r;
    src.note(now.str(), call ? " call" : " put", " K=", K, " T=", T, " t=", t, " x=", x);
    src.nontrivial(q != 0 || r != 0);
    const ref::BS b = ref::bs(x, K, t, r, q, now.sigma);
    const double e = call ? 1.0 : -1.0;
    const double u = ref::bsVanilla(call, x, K, t, r, q, now.sigma), ux = e * b.dq * ref::ncdf(e * b.d1), uxx = b.dq * ref::npdf(b.d1) / (x * sd);
    const double ut = 0.5 * now.sigma * x * b.dq * ref::npdf(b.d1) / std::sqrt(t) - e * q * x * b.dq * ref::ncdf(e * b.d1) + e * r * K * b.df * ref::ncdf(e * b.d2);
    const double D = pde.diffusion(t, x), C = pde.convection(t, x), R = pde.reaction(t, x), f = pde.rightHandSide(t, x);
    const double lhs = D * uxx + C * ux + R * u - f, sc = std::fabs(D * uxx) + std::fabs(C * ux) + std::fabs(R * u) + std::fabs(ut) + std::fabs(r) * K * b.df + std::fabs(q) * x * b.dq;
    REQUIRE(close(lhs, ut, 0, 1e-10 * sc), "the closed form leaves a residual ", lhs - ut, " at t=", t, " x=", x);
    REQUIRE(close(pde.boundaryLeft(0.0, 0.0), call ? 0.0 : K, 1e-12) && close(pde.boundaryRight(0.0, 3 * K), call ? 2 * K : 0.0, 1e-12), "boundary values at maturity ", pde.boundaryLeft(0.0, 0.0), ", ", pde.boundaryRight(0.0, 3 * K));
    REQUIRE(close(pde.boundaryLeft(t, 0.0), call ? 0.0 : K * std::exp(-r * t), 1e-12), "value at a zero price ", pde.boundaryLeft(t, 0.0));
    // far out, calls are worth the discounted forward and puts nothing, up to the value of the opposite option
    const double X = K * std::exp(std::min(60.0, src.real(2, 8) * sd + 0.2 + std::max(0.0, -(r - q) * t))), got = pde.boundaryRight(t, X), want = ref::bsVanilla(call, X, K, t, r, q, now.sigma), other = ref::bsVanilla(false, X, K, t, r, q, now.sigma);
    REQUIRE(std::fabs(got - want) <= 1.000001 * other + 1e-11 * (X * std::exp(-q * t) + K * std::exp(-r * t)), "upper boundary ", got, ", closed form ", want);
    REQUIRE(close(pde.boundaryRight(t, X), call ? X * std::exp(-q * t) - K * std::exp(-r * t) : 0.0, 1e-12, 1e-12 * (X * std::exp(-q * t) + K * std::exp(-r * t))), "upper boundary ", got);
    for (double y : {x, K, 0.0, X}) REQUIRE(close(pde.initialCondition(y), ref::payoffVanilla(call, y, K), 1e-13), "initial value ", pde.initialCondition(y), " at ", y);
}
namespace {
struct Setup { Market m; bool call; double K, T, X; unsigned long J, N; int scheme, interp, mat; };
Setup setup(Src& s, bool fine) {
    Setup p; p.m = pmarket(s, 0.1); p.call = s.flag(); p.scheme = static_cast<int>(s.below(3));
    p.K = p.m.S * s.pick({1.0, 0.9, 1.1, s.real(0.7, 1.4)}); p.T = s.pick({1.0, 0.5, s.real(0.1, 2.0)});
    const double sd = p.m.sigma * std::sqrt(p.T);
    p.X = std::max(p.K, p.m.S) * std::exp(4.5 * sd) * s.real(1.0, 1.3);
    p.interp = static_cast<int>(s.below(3)); p.mat = static_cast<int>(s.below(4));
    // a node spacing that is a fraction of the standard deviation
    const double dx = p.K * sd * (fine ? s.real(0.06, 0.15) : s.real(0.1, 0.3));
    p.J = static_cast<unsigned long>(std::ceil(p.X / dx)) + 1;
    p.J = std::max(20ul, std::min(p.J, 700ul));
    const double h = p.X / static_cast<double>(p.J - 1);
    if (p.scheme == EXPLICIT) p.N = static_cast<unsigned long>(std::ceil(p.m.sigma * p.m.sigma * p.X * p.X * p.T / h / h * s.real(1.02, 1.5))) + 10;
    else p.N = static_cast<unsigned long>(std::ceil(p.m.sigma * p.m.sigma * p.K * p.K * p.T / h / h * s.real(0.15, 1.0))) + (p.scheme == IMPLICIT ? 100 : 20);
    return p;
}
std::string str(const Setup& p) { return cat(schemeName(p.scheme), " ", p.m.str(), p.call ? " call" : " put", " K=", p.K, " T=", p.T, " X=", p.X, " J=", p.J, " N=", p.N, " interp ", p.interp, " matrix ", p.mat); }
std::unique_ptr<FDMSolver> bsSolver(const Setup& p, bool call, std::shared_ptr<MarketData> md) {
    auto o = vanilla(call, p.K, p.T, p.m.ticker);
    return solver(p.scheme, p.X, p.J, p.T, p.N, std::make_unique<BlackScholesPDE>(o, md), o, md, p.interp, p.mat);
}
}  // namespace
PROP(C24, price, 2000, 60000, 0, "closed-form value above a thousandth of the strike") {
    const Setup p = setup(src, src.flag());
    src.note(str(p));
    if (static_cast<double>(p.J) * static_cast<double>(p.N) > 4e6) { src.label("skipped, too long"); return; }
    auto md = p.m.apply();
    auto s = bsSolver(p, p.call, md);
    const double got = s->calculatePrice(), want = ref::bsVanilla(p.call, p.m.S, p.K, p.T, p.m.r, p.m.q(), p.m.sigma);
    src.nontrivial(want > 1e-3 * p.K); src.label(schemeName(p.scheme));
    // space: the grid resolves the density of the terminal price with step h; time: first order for the Euler schemes
    const double h = p.X / static_cast<double>(p.J - 1), sd = p.m.sigma * std::sqrt(p.T), rho = h / (p.K * sd), vega = p.K * sd;
    const double carry = (std::fabs(p.m.r) + std::fabs(p.m.q())) * p.T * std::max(p.K, p.m.S);
    const double tol = vega * (0.10 * rho * rho) * (1 + p.m.S / p.K) + (p.scheme == CN ? 2.0 / static_cast<double>(p.N) / static_cast<double>(p.N) : 0.6 / static_cast<double>(p.N)) * (vega + carry) + 2e-5 * p.K;
    REQUIRE(close(got, want, 0, 0.6 * tol), "price ", got, ", closed form ", want, ", allowed ", tol);
}
PROP(C24, relations, 1500, 40000, 0, "every case") {
    Setup p = setup(src, false);
    src.note(str(p));
    if (static_cast<double>(p.J) * static_cast<double>(p.N) > 2e6) { src.label("skipped, too long"); return; }
    auto md = p.m.apply(); src.nontrivial(); src.label(schemeName(p.scheme));
    auto c = bsSolver(p, true, md), q = bsSolver(p, false, md);
    const auto vc = c->solve(), vp = q->solve();
    REQUIRE(vc.size() == p.J && vp.size() == p.J, "grid sizes");
    const double dq = std::exp(-p.m.q() * p.T), df = std::exp(-p.m.r * p.T), h = p.X / static_cast<double>(p.J - 1);
    // parity: the difference solves the equation with an affine solution, so only the time step matters
    const double rt = (std::fabs(p.m.r) + std::fabs(p.m.q())) * p.T, tt = p.scheme == CN ? rt * rt * rt / static_cast<double>(p.N - 1) / static_cast<double>(p.N - 1) : rt * rt / static_cast<double>(p.N - 1);
    for (unsigned long j = 0; j < p.J; ++j) {
        const double x = static_cast<double>(j) * h, par = x * dq - p.K * df;
        REQUIRE(close(vc[j] - vp[j], par, 0, tt * (p.K + x) * std::exp(rt) + 1e-8 * p.X), "call minus put at ", x, " is ", vc[j] - vp[j], ", parity gives ", par);
        const double e = 1e-3 * p.K + tt * (p.K + x);
        REQUIRE(vc[j] >= std::max(0.0, par) - e && vc[j] <= x * dq + e, "call ", vc[j], " at ", x, " outside its arbitrage bounds");
        REQUIRE(vp[j] >= std::max(0.0, -par) - e && vp[j] <= p.K * df + e, "put ", vp[j], " at ", x, " outside its arbitrage bounds");
        if (j > 0) { REQUIRE(vc[j] >= vc[j - 1] - e, "call falls with the spot at ", x); REQUIRE(vp[j] <= vp[j - 1] + e, "put rises with the spot at ", x); }
    }
}
// Refining space and time together shrinks the error at the strike
PROP(C24, refine, 400, 8000, 0, "the coarse error is above rounding") {
    Setup p = setup(src, false);
    p.scheme = src.flag() ? CN : IMPLICIT; p.m.S = p.K; p.interp = 1; p.mat %= 3;
    const double sd = p.m.sigma * std::sqrt(p.T);
    const unsigned long k = 40 + src.below(60), half = static_cast<unsigned long>(std::ceil(p.X / p.K));
    p.X = p.K * static_cast<double>(half); p.J = k * half + 1; p.N = 40 + src.below(60); // the strike is a node
    // Crank-Nicolson does not damp the kink when the time step is much larger than the diffusion time of a cell
    p.N = std::max(p.N, static_cast<unsigned long>(sd * sd * static_cast<double>(k * k) / 4));
    src.note(str(p));
    if (sd * static_cast<double>(k) < 3 || p.J > 1500) { src.label("skipped"); return; }
    auto md = p.m.apply();
    const double want = ref::bsVanilla(p.call, p.m.S, p.K, p.T, p.m.r, p.m.q(), p.m.sigma);
    const double e1 = bsSolver(p, p.call, md)->calculatePrice() - want;
    p.J = 2 * (p.J - 1) + 1; p.N = p.scheme == CN ? 2 * p.N : 4 * p.N;
    const double e2 = bsSolver(p, p.call, md)->calculatePrice() - want;
    src.nontrivial(std::fabs(e1) > 1e-6 * p.K); src.label(schemeName(p.scheme));
    REQUIRE(std::fabs(e2) <= 0.4 * std::fabs(e1) + 1.5e-5 * p.K, "error ", e1, " became ", e2, " on a grid twice as fine");
}

// ---------------------------------------------------------------- C25
// One solver, any history of spot moves, solves and price queries: the grid never changes and each price is read at the current spot
PROP(C25, history, 80000, 1600000, 0, "the spot moved between two queries of the same solver") {
    Setup p; p.m = pmarket(src, 0.1); p.call = src.flag(); p.scheme = static_cast<int>(src.below(3)); p.interp = static_cast<int>(src.below(3)); p.mat = static_cast<int>(src.below(4));
    p.K = p.m.S * src.pick({1.0, 0.9, src.real(0.7, 1.4)}); p.T = src.pick({1.0, 0.0, src.real(0.05, 2.0)});
    p.X = src.pick({2.0, 3.0, src.real(1.6, 5)}) * std::max(p.K, p.m.S); p.J = static_cast<unsigned long>(src.range(4, 40));
    p.N = static_cast<unsigned long>(src.range(2, 12));
    if (p.scheme == EXPLICIT) p.N = static_cast<unsigned long>(p.m.sigma * p.m.sigma * p.T * static_cast<double>((p.J - 1) * (p.J - 1))) + 2 + src.below(6);
    src.note(str(p));
    auto md = p.m.apply(); md->addStock("OTHER", 77.0, 0.9);
    auto s = bsSolver(p, p.call, md);
    if (src.chance(1, 3)) { // until it is solved, the equation follows the market
        src.label("market moved before the first solve");
        const double old = p.m.sigma;
        p.m.sigma = src.real(0.05, old); p.m.r = src.real(-0.04, 0.15); if (src.flag()) p.m.c = src.real(0, 0.12);
        if (src.flag()) p.m.apply();
        else { md->setR(p.m.r); md->updateStockSigma(p.m.ticker, p.m.sigma); if (p.m.c) md->updateStockCoupon(p.m.ticker, *p.m.c); }
        src.note("before the first solve: ", p.m.str());
    }
    const double h = p.X / static_cast<double>(p.J - 1);
    std::vector<double> grid(p.J); for (unsigned long j = 0; j < p.J; ++j) grid[j] = static_cast<double>(j) * h;
    std::vector<double> known; // the solution, once seen
    { auto again = bsSolver(p, p.call, md); known = again->solve(); }
    REQUIRE(known.size() == p.J, "grid of ", known.size(), " values");
    if (p.T == 0) { src.label("T=0"); for (unsigned long j = 0; j < p.J; ++j) REQUIRE(close(known[j], ref::payoffVanilla(p.call, grid[j], p.K), 1e-9, 1e-9 * p.X), "at maturity the value at ", grid[j], " is ", known[j]); }
    const double sc = dmax(known);
    double S = p.m.S; bool queried = false, moved = false;
    const int steps = static_cast<int>(src.range(1, 12));
    for (int k = 0; k < steps; ++k) {
        switch (src.below(5)) {
            case 0: case 1: {
                const double got = s->calculatePrice();
                double want;
                if (S >= grid.back()) want = known.back();
                else {
                    size_t c = std::min<size_t>(static_cast<size_t>(S / h), p.J - 2); if (grid[c] > S) --c; if (grid[c + 1] <= S && c + 2 < p.J) ++c;
                    const double w = (S - grid[c]) / h;
                    const bool quad = p.interp == 2 && c > 0 && c + 2 < p.J;
                    want = (1 - w) * known[c] + w * known[c + 1];
                    if (quad) want -= 0.5 * w * (1 - w) * (known[c + 1] - 2 * known[c] + known[c - 1]);
                    if (p.interp == 2 && std::min(w, 1 - w) < 1e-9) want = w < 0.5 ? known[c] : known[c + 1];
                }
                src.note("price at ", S, " -> ", got);
                REQUIRE(close(got, want, 0, 1e-8 * (sc + 1e-12)), "price ", got, " at spot ", S, ", the solution there is ", want);
                if (moved) src.nontrivial();
                queried = true; break;
            }
            case 2: {
                src.note("solve");
                const auto v = s->solve();
                REQUIRE(v.size() == p.J, "grid of ", v.size(), " values");
                for (unsigned long j = 0; j < p.J; ++j) REQUIRE(close(v[j], known[j], 0, 1e-12 * (sc + 1e-12)), "solve() returned ", v[j], " at node ", j, ", before ", known[j]);
                queried = true; break;
            }
            case 3: {
                S = src.pick({p.K, p.X * 0.5, p.X, grid[src.below(p.J - 1) + 1], p.X * src.real(0.01, 0.99), p.X * 1.5, p.X * 1e-7, h, p.X * 1e6, std::nextafter(p.X, 0.0)});
                src.note("spot ", S); md->updateStockPrice(p.m.ticker, S); if (queried) moved = true; break;
            }
            default:
                switch (src.below(queried ? 7 : 4)) {
                    // once solved, the solution is that of the market of the first solve
                    case 4: src.note("own volatility moves"); src.label("own market moved after the first solve"); md->updateStockSigma(p.m.ticker, src.pick({0.0, 2 * p.m.sigma, src.real(0, 1)})); break;
                    case 5: src.note("rate moves"); src.label("own market moved after the first solve"); md->setR(src.pick({0.0, -0.05, src.real(-0.05, 0.2)})); break;
                    case 6: src.note("own yield moves"); src.label("own market moved after the first solve"); md->updateStockCoupon(p.m.ticker, src.flag() ? std::optional<double>() : src.real(0, 0.3)); break;
                    case 0: src.note("other stock moves"); md->updateStockPrice("OTHER", p.X * src.real(0.1, 1)); break;
                    case 1: src.note("other volatility"); md->updateStockSigma("OTHER", src.real(0, 2)); break;
                    case 2: src.note("other stock added again"); md->addStock("OTHER", p.X * src.real(0.1, 1), src.real(0, 2), src.real(0, 1)); break;
                    default: S = p.X * src.real(0.01, 0.99); src.note("stock added again at ", S); md->addStock(p.m.ticker, S, queried ? src.pick({p.m.sigma, 2 * p.m.sigma}) : p.m.sigma, p.m.c); if (queried) moved = true; break;
                }
        }
    }
}
