// C17 American options by least squares Monte Carlo
#include <map>
#include <array>
#include "mc.h"
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/basis_function/monomial.h"
#include "numerical_analysis/regression/lasso.h"
#include "numerical_analysis/regression/ridge.h"
#include "numerical_analysis/regression/least_squares.h"

using namespace mc;
using pbt::Src; using pbt::cat; using pbt::throwsA; using pbt::close;

namespace {
uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33; return h; }
uint64_t bitsOf(double x) { uint64_t b; std::memcpy(&b, &x, 8); return b; }

// Continuation value chosen by the harness for each price: decides the exercise policy
struct Policy {
    bool call; double K; uint64_t salt; int mode;
    double cont(double S) const {
        const double ex = ref::payoffVanilla(call, S, K);
        if (mode == 1) return -1;              // exercise whenever in the money
        if (mode == 2) return 1e300;           // never before maturity
        const uint64_t h = mix(bitsOf(S) ^ salt);
        if (h % 37 == 0) return ex;            // exactly worth holding: not exceeded, so held
        switch (h % 4) { case 0: return ex * 0.5 - 1e-9; case 1: return ex * 2 + 1; case 2: return ex * (1 - 1e-7) - 1e-9; default: return ex * (1 + 1e-7) + 1e-9; }
    }
};
struct PolicyBasis : BasisFunction {
    Policy p;
    explicit PolicyBasis(Policy q) : BasisFunction(1), p(q) {}
    Eigen::MatrixXd generate(const Eigen::VectorXd& x) const override { Eigen::MatrixXd A(x.size(), 1); for (Eigen::Index i = 0; i < x.size(); ++i) A(i, 0) = p.cont(x(i)); return A; }
};
struct UnitRegression : Regression {
    mutable std::vector<std::vector<std::pair<double, double>>> seen; // (basis value, response) per date
    Eigen::VectorXd solve(const Eigen::MatrixXd& A, const Eigen::VectorXd& y) const override {
        REQUIRE(A.rows() == y.size(), "regression of ", y.size(), " responses on ", A.rows(), " rows");
        std::vector<std::pair<double, double>> s;
        for (Eigen::Index i = 0; i < A.rows(); ++i) s.push_back({A(i, 0), y(i)});
        std::sort(s.begin(), s.end());
        seen.push_back(s);
        return Eigen::VectorXd::Constant(1, 1.0);
    }
};
std::shared_ptr<AmericanOption> option(const Contract& c) { return std::dynamic_pointer_cast<AmericanOption>(c.make()); }

// Value of following a policy on given paths (dates 1..n), with the regressions a backward induction must have run
double followed(const Contract& c, double S0, double r, const std::vector<std::vector<double>>& P, const Policy& pol, std::vector<std::vector<std::pair<double, double>>>& regs) {
    const int n = static_cast<int>(P[0].size());
    const double dt = c.T / n, df = std::exp(-r * dt);
    std::vector<double> v(P.size());
    for (size_t i = 0; i < P.size(); ++i) v[i] = ref::payoffVanilla(c.call, P[i][n - 1], c.K);
    for (int j = n - 2; j >= 0; --j) {
        std::vector<std::pair<double, double>> reg;
        for (size_t i = 0; i < P.size(); ++i) {
            const double ex = ref::payoffVanilla(c.call, P[i][j], c.K);
            if (ex > 0) { reg.push_back({pol.cont(P[i][j]), v[i] * df}); v[i] = ex > pol.cont(P[i][j]) ? ex : v[i] * df; }
            else v[i] *= df;
        }
        if (!reg.empty()) { std::sort(reg.begin(), reg.end()); regs.push_back(reg); }
    }
    double m = 0; for (double x : v) m += x;
    return std::max(ref::payoffVanilla(c.call, S0, c.K), m / static_cast<double>(P.size()) * df);
}
Contract american(Src& s, double S0) {
    Contract c; c.kind = American; c.call = s.flag();
    c.K = s.pick({S0, S0 * 1.1, S0 * 0.9, S0 * s.real(0.5, 1.6)});
    c.T = s.pick({1.0, 0.5, s.real(0.05, 4)});
    if (s.chance(1, 15)) c.T = s.pick({1e-6, 20.0, 0.01, s.logreal(1e-4, 40)});
    if (s.chance(1, 15)) c.K = S0 * s.logreal(1e-3, 1e3);
    return c;
}
void checkRegs(const std::vector<std::vector<std::pair<double, double>>>& got, const std::vector<std::vector<std::pair<double, double>>>& want, double scale) {
    REQUIRE(got.size() == want.size(), got.size(), " regressions, expected ", want.size());
    for (size_t k = 0; k < got.size(); ++k) {
        REQUIRE(got[k].size() == want[k].size(), "regression ", k, " on ", got[k].size(), " paths, ", want[k].size(), " are in the money");
        // responses compared as a multiset for each basis value
        std::vector<double> a, b;
        for (auto& x : got[k]) a.push_back(x.second);
        for (auto& x : want[k]) b.push_back(x.second);
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        for (size_t i = 0; i < a.size(); ++i) REQUIRE(close(a[i], b[i], 1e-9, 1e-10 * scale), "regression ", k, ": response ", a[i], ", the discounted cash flow is ", b[i]);
    }
}
}  // namespace

// Simulated paths: the value is the discounted cash flow of the first exercise the regression calls for
PROP(C17, standard_exact, 1000000, 20000000, 0, "at least two dates, two paths and one early exercise decision") {
    Market mk = market(src); if (src.flag()) mk.S = 100;
    Contract c = american(src, mk.S); c.ticker = mk.ticker;
    auto m = mk.apply();
    const bool big = src.chance(1, 250); std::mt19937_64 rng(big ? src.seed32() : 0);
    const bool huge = big && src.chance(1, 16);
    const unsigned n = static_cast<unsigned>(huge ? src.pick<int64_t>({src.range(2, 40), src.range(40, 520)}) : big ? src.range(1, 80) : src.range(1, 7));
    const size_t N = static_cast<size_t>(huge ? std::min<int64_t>(src.range(1, 6000), 200000 / n) : big ? src.range(1, 1500) : src.range(1, 6));
    auto sm = std::make_shared<Script>(c.ticker, m, n);
    if (big) { std::normal_distribution<> nd; for (size_t i = 0; i < N; ++i) { std::vector<double> p(n); double X = 0; for (auto& x : p) { X += 0.1 * nd(rng); x = mk.S * std::exp(X); } sm->paths.push_back(p); } src.label(huge ? "huge" : "many paths"); }
    else for (size_t i = 0; i < N; ++i) { std::vector<double> p(n); for (auto& x : p) x = src.chance(1, 10) ? c.K : mk.S * src.real(0.3, 2.2); sm->paths.push_back(p); }
    const Policy pol{c.call, c.K, src.below(1000), static_cast<int>(src.below(4))};
    auto reg = std::make_shared<UnitRegression>();
    AmericanMCPricer pr(option(c), m, sm, std::make_shared<PolicyBasis>(pol), reg);
    if (src.chance(1, 4)) { mk.r = src.real(-0.05, 0.2); m->setR(mk.r); }
    src.note(c.str(), " ", mk.str(), " dates=", n, " N=", N, " policy ", pol.mode, "/", pol.salt);
    if (src.verbose) for (auto& p : sm->paths) { std::string s; for (double x : p) s += cat(x, " "); src.note("path ", s); }
    std::vector<std::vector<std::pair<double, double>>> regs;
    const double want = followed(c, mk.S, mk.r, sm->paths, pol, regs);
    const double got = src.flag() ? pr.standardPrice(N) : pr.calculatePrice(N);
    src.nontrivial(n > 1 && N > 1 && !regs.empty());
    REQUIRE(close(got, want, 1e-10, 1e-10 * (mk.S + c.K)), "price ", got, ", the exercised cash flows are worth ", want);
    REQUIRE(sm->next == N, sm->next, " paths simulated, ", N, " asked for");
    for (double t : sm->asked) REQUIRE(t == c.T, "simulated to ", t);
    checkRegs(reg->seen, regs, mk.S + c.K);
    if (!big && src.chance(1, 4)) { // the same pricer again, on the market as it is then
        if (src.flag()) { mk.r = src.real(-0.05, 0.2); m->setR(mk.r); }
        if (src.flag()) { mk.S *= src.real(0.5, 2); m->addStock(mk.ticker, mk.S, mk.sigma, mk.c); }
        src.note("again with ", mk.str());
        regs.clear();
        const double want2 = followed(c, mk.S, mk.r, sm->paths, pol, regs), got2 = pr.standardPrice(N);
        REQUIRE(close(got2, want2, 1e-10, 1e-10 * (mk.S + c.K)), "second price ", got2, ", the exercised cash flows are worth ", want2);
    }
}
// Backward simulation: same value, with each date's price drawn from the later one at the right times
namespace {
struct Bridge : Script {
    double T; unsigned n; uint64_t salt; double K;
    mutable std::string bad;
    using Script::Script;
    double stepBack(double s, int j) const {
        const uint64_t h = mix(bitsOf(s) ^ salt ^ (static_cast<uint64_t>(j) << 40));
        return s * (0.75 + 0.5 * static_cast<double>(h >> 11) * 0x1p-53);
    }
    double simulatePriceBackward(const double& s, const double& a, const double& b) const override {
        const long j = std::lround(a / T * n);
        if (!(j >= 1 && j < static_cast<long>(n)) || !close(a, T * static_cast<double>(j) / n, 1e-9, 1e-12) || !close(b, T * static_cast<double>(j + 1) / n, 1e-9, 1e-12)) bad = cat("bridge asked from ", b, " back to ", a);
        ++back;
        return stepBack(s, static_cast<int>(j));
    }
};
}  // namespace
PROP(C17, bridge_exact, 1000000, 20000000, 0, "at least two dates, two paths and one early exercise decision") {
    Market mk = market(src); if (src.flag()) mk.S = 100;
    Contract c = american(src, mk.S); c.ticker = mk.ticker;
    auto m = mk.apply();
    const bool big = src.chance(1, 250); std::mt19937_64 rng(big ? src.seed32() : 0);
    const bool huge = big && src.chance(1, 16);
    const unsigned n = static_cast<unsigned>(huge ? src.pick<int64_t>({src.range(2, 40), src.range(40, 520)}) : big ? src.range(1, 40) : src.range(1, 7));
    const size_t N = static_cast<size_t>(huge ? std::min<int64_t>(src.range(1, 6000), 200000 / n) : big ? src.range(1, 1500) : src.range(1, 6));
    auto sm = std::make_shared<Bridge>(c.ticker, m, n);
    sm->T = c.T; sm->n = n; sm->salt = src.below(1 << 20);
    std::vector<std::vector<double>> P;
    for (size_t i = 0; i < N; ++i) {
        std::vector<double> p(n); double s = mk.S * (big ? std::uniform_real_distribution<>(0.4, 2.0)(rng) : src.real(0.4, 2.0));
        p[n - 1] = s; sm->paths.push_back({s});
        for (int j = static_cast<int>(n) - 1; j >= 1; --j) p[j - 1] = s = sm->stepBack(s, j);
        P.push_back(p);
    }
    const Policy pol{c.call, c.K, src.below(1000), static_cast<int>(src.below(4))};
    auto reg = std::make_shared<UnitRegression>();
    AmericanMCPricer pr(option(c), m, sm, std::make_shared<PolicyBasis>(pol), reg);
    src.note(c.str(), " ", mk.str(), " dates=", n, " N=", N, " policy ", pol.mode, "/", pol.salt);
    if (src.verbose) for (auto& p : P) { std::string s; for (double x : p) s += cat(x, " "); src.note("path ", s); }
    std::vector<std::vector<std::pair<double, double>>> regs;
    const double want = followed(c, mk.S, mk.r, P, pol, regs);
    const double got = pr.brownianBridgePrice(N);
    src.nontrivial(n > 1 && N > 1 && !regs.empty());
    REQUIRE(sm->bad.empty(), sm->bad);
    REQUIRE(close(got, want, 1e-10, 1e-10 * (mk.S + c.K)), "price ", got, ", the exercised cash flows are worth ", want);
    REQUIRE(sm->next == N && sm->back == N * (n - 1), sm->next, " paths and ", sm->back, " bridge steps for ", N, " paths of ", n, " dates");
    checkRegs(reg->seen, regs, mk.S + c.K);
    if (!big && src.chance(1, 4)) {
        if (src.flag()) { mk.r = src.real(-0.05, 0.2); m->setR(mk.r); }
        if (src.flag()) { mk.S *= src.real(0.5, 2); m->addStock(mk.ticker, mk.S, mk.sigma, mk.c); }
        src.note("again with ", mk.str());
        regs.clear();
        const double want2 = followed(c, mk.S, mk.r, P, pol, regs), got2 = pr.brownianBridgePrice(N);
        REQUIRE(close(got2, want2, 1e-10, 1e-10 * (mk.S + c.K)), "second price ", got2, ", the exercised cash flows are worth ", want2);
    }
}
// With the library's own regressions and bases: the decisions follow the fitted continuation values
PROP(C17, strategies, 60000, 1200000, 0, "at least three dates and one early exercise decision") {
    Market mk = market(src); mk.S = src.pick({100.0, 1.0, 40.0});
    Contract c = american(src, mk.S); c.ticker = mk.ticker;
    auto m = mk.apply();
    const unsigned n = static_cast<unsigned>(src.range(2, 6));
    const size_t N = static_cast<size_t>(src.pick({10, 30, 100}));
    auto sm = std::make_shared<Script>(c.ticker, m, n);
    std::mt19937_64 rng(src.seed32()); std::normal_distribution<> nd;
    const double dt = c.T / n, vol = std::max(mk.sigma, 0.1);
    for (size_t i = 0; i < N; ++i) { std::vector<double> p(n); double s = mk.S; for (auto& x : p) { s *= std::exp(vol * std::sqrt(dt) * nd(rng)); x = s; } sm->paths.push_back(p); }
    const unsigned nb = static_cast<unsigned>(src.range(1, 4));
    std::shared_ptr<BasisFunction> bf; std::shared_ptr<Regression> rg;
    switch (src.below(4)) { case 0: bf = std::make_shared<MonomialBasisFunction>(nb); break; case 1: bf = std::make_shared<LaguerreBasisFunction>(nb); break;
        case 2: bf = std::make_shared<LegendreBasisFunction>(nb); break; default: bf = std::make_shared<ChebyshevBasisFunction>(nb); }
    switch (src.below(3)) { case 0: rg = std::make_shared<LeastSquaresRegression>(); break; case 1: rg = std::make_shared<RidgeRegression>(src.real(0.01, 2)); break; default: rg = std::make_shared<LassoRegression>(src.real(0, 0.5)); }
    src.note(c.str(), " ", mk.str(), " dates=", n, " N=", N, " bases=", nb);
    AmericanMCBuilder bl; bl.setOption(c.make()); bl.setRegressionStrategy(rg); bl.setBasisFunctionStrategy(bf); bl.setStockPriceModel(sm);
    auto pr = bl.build();
    // reference backward induction
    const double df = std::exp(-mk.r * dt); std::vector<double> v(N);
    bool tie = false, early = false;
    for (size_t i = 0; i < N; ++i) v[i] = ref::payoffVanilla(c.call, sm->paths[i][n - 1], c.K);
    for (int j = static_cast<int>(n) - 2; j >= 0; --j) {
        std::vector<size_t> itm; for (size_t i = 0; i < N; ++i) if (ref::payoffVanilla(c.call, sm->paths[i][j], c.K) > 0) itm.push_back(i);
        Eigen::VectorXd x(itm.size()), y(itm.size());
        for (size_t k = 0; k < itm.size(); ++k) { x(k) = sm->paths[itm[k]][j]; y(k) = v[itm[k]] * df; }
        for (auto& z : v) z *= df;
        if (itm.empty()) continue;
        const Eigen::MatrixXd A = bf->generate(x); const Eigen::VectorXd cont = A * rg->solve(A, y);
        for (size_t k = 0; k < itm.size(); ++k) {
            const double ex = ref::payoffVanilla(c.call, x(k), c.K);
            tie = tie || std::fabs(ex - cont(k)) < 1e-6 * (mk.S + c.K);
            if (ex > cont(k)) { v[itm[k]] = ex; early = true; }
        }
    }
    double mean = 0; for (double z : v) mean += z;
    const double want = std::max(ref::payoffVanilla(c.call, mk.S, c.K), mean / static_cast<double>(N) * df);
    const double got = pr->calculatePrice(N);
    if (tie) { src.label("near tie"); return; }
    src.nontrivial(n > 2 && early);
    REQUIRE(close(got, want, 1e-9, 1e-9 * (mk.S + c.K)), "price ", got, ", backward induction gives ", want);
}
// No volatility: the best exercise date, exactly; never below immediate exercise
PROP(C17, deterministic, 40000, 800000, 0, "waiting is worth more than exercising now, or the reverse, strictly") {
    Market mk = market(src); mk.sigma = 0;
    Contract c = american(src, mk.S); c.ticker = mk.ticker;
    auto m = mk.apply();
    const unsigned n = static_cast<unsigned>(src.range(1, 20)), seed = src.seed32();
    const bool sobol = src.flag();
    src.note(c.str(), " ", mk.str(), " dates=", n, sobol ? " Sobol" : " PRNG");
    std::shared_ptr<NumberGenerator> g;
    if (sobol) g = std::make_shared<SobolGenerator>(n, seed % 100000); else g = std::make_shared<PseudoRandomNumberGenerator>(n, seed);
    double best = ref::payoffVanilla(c.call, mk.S, c.K); const double now = best;
    for (unsigned j = 1; j <= n; ++j) best = std::max(best, std::exp(-mk.r * c.T * j / n) * ref::payoffVanilla(c.call, mk.S * std::exp(mk.b() * c.T * j / n), c.K));
    auto pr = pricer(c, std::make_shared<GeometricBrownianMotionModel>(mk.ticker, m, g));
    const double got = pr->calculatePrice(static_cast<unsigned long>(src.range(1, 30)));
    src.nontrivial(best > now * (1 + 1e-6) || now > 0);
    REQUIRE(close(got, best, 1e-6, 1e-7 * (mk.S + c.K)), "price ", got, ", the best exercise date is worth ", best);
}
namespace {
// Bermudan option on a recombining tree: n exercise dates, sub steps between them
double tree(const Contract& c, const Market& mk, int n, int sub) {
    const int N = n * sub; const double dt = c.T / N, u = std::exp(mk.sigma * std::sqrt(dt)), d = 1 / u, p = (std::exp(mk.b() * dt) - d) / (u - d), df = std::exp(-mk.r * dt);
    std::vector<double> v(N + 1);
    for (int i = 0; i <= N; ++i) v[i] = ref::payoffVanilla(c.call, mk.S * std::exp(mk.sigma * std::sqrt(dt) * (2 * i - N)), c.K);
    for (int k = N - 1; k >= 0; --k) for (int i = 0; i <= k; ++i) {
        v[i] = df * (p * v[i + 1] + (1 - p) * v[i]);
        if (k % sub == 0) v[i] = std::max(v[i], ref::payoffVanilla(c.call, mk.S * std::exp(mk.sigma * std::sqrt(dt) * (2 * i - k)), c.K));
    }
    return v[0];
}
}  // namespace
// End to end under GBM, both simulation schemes, against a tree with the same exercise dates
PROP(C17, against_tree, 2400, 40000, 0, "an early exercise premium above 0.1% of spot") {
    Market mk = market(src, 0.5); if (mk.sigma < 0.1) mk.sigma = 0.2;
    if (mk.r < 0) mk.r = 0.06;
    Contract c = american(src, mk.S); c.ticker = mk.ticker; c.T = src.pick({1.0, 0.5, 2.0});
    c.K = mk.S * src.real(0.85, 1.2);
    if (c.call && !mk.c) mk.c = 0.08;
    auto m = mk.apply();
    const int n = static_cast<int>(src.pick({2, 5, 10, 20}));
    const unsigned seed = src.seed32();
    const int how = static_cast<int>(src.below(3));
    const unsigned nb = static_cast<unsigned>(src.range(3, 5)); const int basis = static_cast<int>(src.below(2));
    src.note(c.str(), " ", mk.str(), " dates=", n, " scheme=", how, " seed=", seed, " bases=", nb);
    src.label(how == 0 ? "bridge" : how == 1 ? "stored paths" : "Sobol");
    const double want = tree(c, mk, n, std::max(10, 200 / n)), eur = ref::bsVanilla(c.call, mk.S, c.K, c.T, mk.r, mk.q(), mk.sigma);
    src.nontrivial(want - eur > 1e-3 * mk.S);
    auto run = [&](unsigned s, unsigned long N) {
        std::shared_ptr<NumberGenerator> g;
        if (how == 2) g = std::make_shared<SobolGenerator>(n, 4096 * (1 + s % 16)); else if (how == 0) g = std::make_shared<PseudoRandomNumberGenerator>(n, s); else g = std::make_shared<Tape>(n, s, false);
        AmericanMCBuilder bl; bl.setOption(c.make());
        if (basis == 0) bl.setBasisFunctionStrategy(std::make_shared<MonomialBasisFunction>(nb)); else bl.setBasisFunctionStrategy(std::make_shared<LegendreBasisFunction>(nb));
        bl.setStockPriceModel(std::make_shared<GeometricBrownianMotionModel>(mk.ticker, m, g));
        MCSolver sv(N); sv.setPricer(bl.build()); return sv.solve();
    };
    // a stopped payoff never varies more than the lognormal at maturity
    const double sd = mk.S * std::min(1.0, mk.sigma * std::sqrt(c.T)) * 1.2;
    auto off = [&](double p, double N) { return std::max(0.0, std::fabs(p - want) - 0.012 * want - 0.0015 * mk.S) / (sd / std::sqrt(N)); };
    if (off(run(seed, 8000), 8000) > 4) {
        const double p = run(seed ^ 0x3c6ef372u, 40000);
        REQUIRE(off(p, 40000) < 4.5, "price ", p, ", tree with the same dates ", want, " (European ", eur, ")");
    }
}
// Never below immediate exercise, for every model
PROP(C17, at_least_intrinsic, 40000, 800000, 0, "in the money today") {
    const Market mk = market(src);
    const Spec sp = spec(src, static_cast<int>(src.below(kModels)), mk.sigma);
    Contract c = american(src, mk.S); c.ticker = mk.ticker;
    auto m = mk.apply();
    const unsigned n = static_cast<unsigned>(src.range(1, 8)), seed = src.seed32();
    src.note(sp.str(), " ", c.str(), " ", mk.str(), " dates=", n, " seed=", seed);
    src.label(mname(sp.kind));
    const double in = ref::payoffVanilla(c.call, mk.S, c.K);
    src.nontrivial(in > 0);
    const double p = pricer(c, sp.make(mk.ticker, m, std::make_shared<PseudoRandomNumberGenerator>(n, seed)))->calculatePrice(static_cast<unsigned long>(src.range(1, 60)));
    REQUIRE(std::isfinite(p) && p >= in - 1e-12 * (mk.S + c.K), "price ", p, " below the exercise value ", in);
}
