// C32 Monte Carlo accuracy: successive paths are independent; C33 prices do not depend on the units of money and time
#include "jobs.h"

using namespace jobs;
using pbt::close;

// ---------------------------------------------------------------- C32
namespace {
// Bounded image of a number, so that correlations are nearly normal whatever the tails: about -1..1 around the middle
struct Squash {
    double mid = 0, width = 1;
    explicit Squash(std::vector<double> x) {
        std::sort(x.begin(), x.end()); const size_t n = x.size();
        mid = x[n / 2]; width = std::max({x[3 * n / 4] - mid, mid - x[n / 4], 1e-300});
    }
    double operator()(double x) const { return std::tanh((x - mid) / width); }
};
std::vector<double> squashed(const std::vector<double>& x) {
    const Squash q(x); std::vector<double> y(x.size()); double m = 0;
    for (size_t i = 0; i < x.size(); ++i) { y[i] = q(x[i]); m += y[i]; }
    m /= static_cast<double>(x.size()); for (auto& v : y) v -= m;
    return y;
}
// z score of the correlation of a[i] and b[i + lag]
double zcorr(const std::vector<double>& a, const std::vector<double>& b, size_t lag) {
    double c = 0, va = 0, vb = 0; const size_t n = a.size() - lag;
    for (size_t i = 0; i < n; ++i) { c += a[i] * b[i + lag]; va += a[i] * a[i]; vb += b[i + lag] * b[i + lag]; }
    return va > 0 && vb > 0 ? c / std::sqrt(va * vb / static_cast<double>(n)) : 0.0;
}
}  // namespace

// Paths of one model, one after the other: nothing about a path tells anything about the next ones
PROP(C32, paths, 12000, 120000, 0, "a model with randomness in it and more than one date") {
    Market mk = market(src, 0.6, true); mk.sigma = std::max(mk.sigma, 0.01);
    const double T = src.pick({1.0, 0.25, src.logreal(0.01, 10)});
    const Spec sp = src.chance(1, 4) ? wide(src, static_cast<int>(src.below(kModels)), mk.sigma, T) : spec(src, static_cast<int>(src.below(kModels)), mk.sigma);
    const unsigned n = static_cast<unsigned>(src.pick<int64_t>({1, 2, 3, 12, src.range(1, 20)})), seed = src.seed32();
    const bool milstein = src.flag(), mixed = src.flag();
    src.note(sp.str(), " ", mk.str(), " steps=", n, " T=", T, " seed=", seed, mixed ? " paths and terminal prices mixed" : "");
    src.label(mname(sp.kind));
    src.nontrivial(n > 1);
    auto m = mk.apply();
    auto scan = [&](unsigned sd, size_t M, double limit) -> std::string {
        std::shared_ptr<CIRDiscretization> d; if (milstein) d = std::make_shared<CIRMilsteinDiscretization>();
        auto model = sp.make(mk.ticker, m, std::make_shared<PseudoRandomNumberGenerator>(n, sd), d);
        std::vector<double> first(M), last(M), total(M), size(M);
        for (size_t i = 0; i < M; ++i) {
            if (mixed && i % 2) { total[i] = first[i] = last[i] = std::log(model->simulatePriceAtMaturity(T) / mk.S); continue; }
            const auto p = model->simulatePrices(T);
            total[i] = std::log(p.back() / mk.S); first[i] = std::log(p[0] / mk.S); last[i] = n > 1 ? std::log(p.back() / p[n - 2]) : total[i];
        }
        for (double x : total) if (!std::isfinite(x)) return ""; // prices below the range of a double: judged elsewhere
        for (double x : first) if (!std::isfinite(x)) return "";
        for (double x : last) if (!std::isfinite(x)) return "";
        std::vector<double> t;
        if (mixed) { // even and odd calls have their own law for the first and last steps: centre them apart
            auto apart = [&](const std::vector<double>& x) { std::vector<double> e, o; for (size_t i = 0; i < M; ++i) (i % 2 ? o : e).push_back(x[i]); e = squashed(e); o = squashed(o); std::vector<double> y(M); for (size_t i = 0; i < M; ++i) y[i] = i % 2 ? o[i / 2] : e[i / 2]; return y; };
            first = apart(first); last = apart(last); t = apart(total);
        } else { first = squashed(first); last = squashed(last); t = squashed(total); }
        for (size_t i = 0; i < M; ++i) size[i] = std::fabs(t[i]);
        for (size_t from = 0, by = mixed ? 2 : 1; from < by; ++from) { // the two kinds of calls may be scaled differently: centre them apart
            double ms = 0; size_t k = 0; for (size_t i = from; i < M; i += by) { ms += size[i]; ++k; }
            for (size_t i = from; i < M; i += by) size[i] -= ms / static_cast<double>(k);
        }
        for (size_t lag = 1; lag <= 4; ++lag) {
            if (std::fabs(zcorr(t, t, lag)) > limit) return cat("path and path ", lag, " later: correlation of the returns, z=", zcorr(t, t, lag));
            if (std::fabs(zcorr(size, size, lag)) > limit) return cat("path and path ", lag, " later: correlation of the size of the returns, z=", zcorr(size, size, lag));
            if (std::fabs(zcorr(last, first, lag)) > limit) return cat("last step and first step ", lag, " paths later: z=", zcorr(last, first, lag));
            if (std::fabs(zcorr(first, first, lag)) > limit) return cat("first steps ", lag, " paths apart: z=", zcorr(first, first, lag));
            if (std::fabs(zcorr(last, last, lag)) > limit) return cat("last steps ", lag, " paths apart: z=", zcorr(last, last, lag));
        }
        return "";
    };
    const size_t M = 24000 / (n + 2);
    if (!scan(seed, M, 5.5).empty()) { const auto why = scan(seed ^ 0x68bc21ebu, 8 * M, 7.0); REQUIRE(why.empty(), why); }
}
// The variance of a price is the variance of one path's payoff over the number of paths, and repeated pricings are uncorrelated
PROP(C32, batches, 12000, 120000, 0, "a payoff that is neither rare nor nearly certain") {
    Market mk = market(src, 0.6); mk.sigma = std::max(mk.sigma, 0.05);
    Contract c; static const int kinds[] = {European, Digital, DoubleDigital, ArithAsian, GeoAsian, KnockIn, KnockOut, FloatLookback, FixedLookback};
    c.kind = kinds[src.below(9)]; c.call = src.flag(); c.ticker = mk.ticker; c.T = src.pick({1.0, 0.5, src.real(0.1, 3)});
    c.K = mk.S * src.pick({1.0, src.real(0.8, 1.25)}); c.K2 = c.K * src.real(1.1, 1.6); c.B = mk.S * src.pick({1.1, 0.9, src.real(0.75, 1.3)}); c.dir = src.flag() ? BarrierDirection::Down : BarrierDirection::Up;
    const Spec sp = spec(src, static_cast<int>(src.below(kModels)), mk.sigma, true);
    const bool deep = src.chance(1, 300); // thousands of paths per price
    const unsigned steps = static_cast<unsigned>(deep ? src.range(1, 2) : src.pick<int64_t>({1, 2, 4, src.range(1, 8)})), seed = src.seed32();
    const unsigned long n = static_cast<unsigned long>(deep ? static_cast<int64_t>(src.logreal(300, 9000)) : src.pick<int64_t>({10, 25, 2, src.range(2, 40)}));
    if (deep) src.label("many paths");
    const bool viaSolver = src.flag();
    src.note(sp.str(), " ", c.str(), " ", mk.str(), " steps=", steps, " seed=", seed, " paths per price=", n);
    src.label(kindName(c.kind));
    auto m = mk.apply();
    bool judged = false;
    auto scan = [&](unsigned sd, size_t B, double limit) -> std::string {
        auto pr = pricer(c, sp.make(mk.ticker, m, std::make_shared<PseudoRandomNumberGenerator>(steps, sd)));
        MCSolver sv(n); if (viaSolver) sv.setPricer(std::move(pr));
        auto price = [&](unsigned long k) { if (!viaSolver) return pr->calculatePrice(k); sv.setN(k); return sv.solve(); };
        std::vector<double> one(deep ? 8000 : B * std::min<unsigned long>(n, 8)), many(B);
        for (auto& x : one) x = price(1);
        for (auto& x : many) x = price(n);
        auto moments = [](const std::vector<double>& x) { double mean = 0, v = 0, k = 0; for (double y : x) mean += y; mean /= static_cast<double>(x.size()); for (double y : x) { const double d = (y - mean) * (y - mean); v += d; k += d * d; }
            v /= static_cast<double>(x.size()); k /= static_cast<double>(x.size()); return std::array<double, 3>{mean, v, v > 0 ? k / (v * v) : 0}; };
        const auto a = moments(one), b = moments(many);
        if (!(a[1] > 1e-12 * a[0] * a[0]) || a[2] > 40) return ""; // payoffs that never vary, rare payoffs and heavy tails decide nothing
        judged = true;
        const double kb = 3 + (a[2] - 3) / static_cast<double>(n), ratio = b[1] * static_cast<double>(n) / a[1];
        const double se = std::sqrt((std::max(kb, b[2]) - 1) / static_cast<double>(B) + (a[2] - 1) / static_cast<double>(one.size()));
        if (std::fabs(std::log(std::max(ratio, 1e-12))) > limit * se) return cat("the variance of a price over ", n, " paths is ", ratio, " times that of one path divided by ", n, ", z=", std::log(std::max(ratio, 1e-12)) / se);
        const auto s1 = squashed(one), sn = squashed(many);
        for (size_t lag = 1; lag <= 3; ++lag) {
            if (std::fabs(zcorr(s1, s1, lag)) > limit) return cat("single path prices ", lag, " apart are correlated, z=", zcorr(s1, s1, lag));
            if (std::fabs(zcorr(sn, sn, lag)) > limit) return cat("prices ", lag, " apart are correlated, z=", zcorr(sn, sn, lag));
        }
        return "";
    };
    const size_t B = deep ? 200 : 60000 / ((steps + 2) * (n + 8));
    const auto first = scan(seed, B, 5.5);
    src.nontrivial(judged);
    if (!first.empty()) { const auto why = scan(seed ^ 0x68bc21ebu, 8 * B, 7.0); REQUIRE(why.empty(), why); }
}
// Repeated American pricings with one pricer are fresh estimates
PROP(C32, american, 3000, 30000, 0, "prices above immediate exercise") {
    Market mk = market(src, 0.5); mk.sigma = std::max(mk.sigma, 0.1);
    Contract c; c.kind = American; c.call = src.flag(); c.ticker = mk.ticker; c.T = src.pick({1.0, src.real(0.2, 2)}); c.K = mk.S * src.real(0.9, 1.1);
    const Spec sp = spec(src, static_cast<int>(src.below(kModels)), mk.sigma, true);
    const unsigned steps = static_cast<unsigned>(src.range(1, 5)), seed = src.seed32(); const unsigned long n = static_cast<unsigned long>(src.range(20, 40));
    src.note(sp.str(), " ", c.str(), " ", mk.str(), " steps=", steps, " seed=", seed, " paths=", n);
    src.label(mname(sp.kind));
    auto m = mk.apply();
    auto scan = [&](unsigned sd, size_t B, double limit) -> std::string {
        AmericanMCBuilder b; b.setOption(c.make()); b.setBasisFunctionStrategy(std::make_shared<MonomialBasisFunction>(2)); b.setStockPriceModel(sp.make(mk.ticker, m, std::make_shared<PseudoRandomNumberGenerator>(steps, sd)));
        auto pr = b.build(); std::vector<double> x(B); for (auto& v : x) v = pr->calculatePrice(n);
        size_t distinct = 0; { auto y = x; std::sort(y.begin(), y.end()); for (size_t i = 1; i < B; ++i) distinct += y[i] != y[i - 1]; }
        src.nontrivial(distinct > B / 2);
        if (distinct < B / 2) return "";
        const auto s = squashed(x);
        for (size_t lag = 1; lag <= 3; ++lag) if (std::fabs(zcorr(s, s, lag)) > limit) return cat("American prices ", lag, " apart are correlated, z=", zcorr(s, s, lag));
        return "";
    };
    if (!scan(seed, 250, 5.5).empty()) { const auto why = scan(seed ^ 0x68bc21ebu, 2000, 7.0); REQUIRE(why.empty(), why); }
}
// Ever more paths keep making American prices better: the variance falls as one over the number of paths
PROP(C32, american_many, 16, 320, 0, "prices above immediate exercise") {
    Market mk = market(src, 0.5); mk.sigma = std::max(mk.sigma, 0.15);
    Contract c; c.kind = American; c.call = src.flag(); c.ticker = mk.ticker; c.T = src.pick({1.0, src.real(0.3, 2)}); c.K = mk.S * src.real(0.95, 1.05);
    const Spec sp = src.flag() ? Spec() : spec(src, static_cast<int>(src.below(kModels)), mk.sigma, true);
    const unsigned steps = static_cast<unsigned>(src.range(1, 3)), seed = src.seed32(); const unsigned long n0 = 500, n = static_cast<unsigned long>(src.logreal(2000, 10000));
    src.note(sp.str(), " ", c.str(), " ", mk.str(), " steps=", steps, " seed=", seed, " paths=", n);
    src.label(mname(sp.kind));
    auto m = mk.apply();
    auto scan = [&](unsigned sd, size_t B, double limit) -> std::string {
        AmericanMCBuilder b; b.setOption(c.make()); b.setBasisFunctionStrategy(std::make_shared<MonomialBasisFunction>(2)); b.setStockPriceModel(sp.make(mk.ticker, m, std::make_shared<PseudoRandomNumberGenerator>(steps, sd)));
        auto pr = b.build(); std::vector<double> x(4 * B), y(B); for (auto& v : x) v = pr->calculatePrice(n0); for (auto& v : y) v = pr->calculatePrice(n);
        auto var = [](const std::vector<double>& z) { double mean = 0, v = 0; for (double t : z) mean += t; mean /= static_cast<double>(z.size()); for (double t : z) v += (t - mean) * (t - mean); return v / static_cast<double>(z.size() - 1); };
        const double a = var(x), w = var(y), in = ref::payoffVanilla(c.call, mk.S, c.K); size_t above = 0; for (double v : y) above += v > in * (1 + 1e-9);
        if (above < B || !(a > 0)) return ""; // immediate exercise is not random
        src.nontrivial();
        const double ratio = w * static_cast<double>(n) / (a * static_cast<double>(n0)), se = std::sqrt(2.0 / static_cast<double>(B) * 1.25);
        if (std::log(std::max(ratio, 1e-12)) - std::log(1.4) > limit * se) return cat("the variance over ", n, " paths is ", ratio, " times what the variance over ", n0, " paths promises");
        return "";
    };
    if (!scan(seed, 100, 2.5).empty()) { const auto why = scan(seed ^ 0x68bc21ebu, 800, 7.0); REQUIRE(why.empty(), why); }
}

// ---------------------------------------------------------------- C33
namespace {
// Powers of x/K: a basis that knows the unit of money
struct RelativeBasis : BasisFunction {
    double K;
    RelativeBasis(unsigned n, double k) : BasisFunction(n), K(k) {}
    Eigen::MatrixXd generate(const Eigen::VectorXd& x) const override {
        Eigen::MatrixXd A(x.size(), numberBasis_);
        for (Eigen::Index i = 0; i < x.size(); ++i) { double p = 1; for (Eigen::Index j = 0; j < A.cols(); ++j) { A(i, j) = p; p *= x(i) / K; } }
        return A;
    }
};
std::array<double, 2> prices(const Job& j, bool relative) {
    j.mk.apply();
    Parts p; 
    if (j.c.kind != American || !relative) { Live l = build(j, p); const double a = l.run(j, 0); return {a, l.run(j, 1)}; }
    AmericanMCBuilder b; b.setOption(j.c.make()); b.setRegressionStrategy(std::make_shared<LeastSquaresRegression>()); b.setBasisFunctionStrategy(std::make_shared<RelativeBasis>(j.nb, j.c.K));
    b.setStockPriceModel(j.sp.make(j.mk.ticker, md(), generator(j), scheme(j)));
    auto pr = b.build(); const double a = pr->calculatePrice(j.paths[0]); return {a, pr->calculatePrice(j.paths[1])};
}
}  // namespace
PROP(C33, money, 60000, 1200000, 0, "a price that is not zero") {
    Job a = job(src);
    const bool exact = a.c.kind == American || src.flag(); // powers of two change no digit
    const double f = exact ? std::ldexp(1.0, static_cast<int>(src.range(-40, 40))) : src.logreal(1e-10, 1e10);
    Job b = a; b.mk.S *= f; b.c.K *= f; b.c.K2 *= f; b.c.B *= f; b.X *= f;
    src.note(a.str(), " and everything times ", f);
    src.label(a.fd ? "finite differences" : kindName(a.c.kind));
    const auto x = prices(a, true), y = prices(b, true);
    const double g = a.c.kind == Digital || a.c.kind == DoubleDigital ? 1 : f;
    src.nontrivial(x[0] != 0 || x[1] != 0);
    for (int k = 0; k < 2; ++k) REQUIRE(close(y[k], x[k] * g, 1e-9, 1e-10 * g * (g == 1 ? 1 : a.mk.S + a.c.K)), "price ", y[k], ", in the old unit ", x[k], " (factor ", g, "): ", a.str());
}
PROP(C33, time, 60000, 1200000, 0, "a price that is not zero") {
    Job a = job(src);
    if (a.mk.c && *a.mk.c > 0 && src.flag()) a.mk.c.reset();
    int e = static_cast<int>(src.flag() ? src.range(-9, 9) : src.range(-18, 18)); // k = 4^e changes no digit of any parameter
    while (a.mk.c && *a.mk.c * std::ldexp(1.0, 2 * e) > 1) --e;
    const double k = std::ldexp(1.0, 2 * e);
    Job b = a; b.c.T /= k; b.mk.sigma *= std::ldexp(1.0, e); b.mk.r *= k; if (b.mk.c) b.mk.c = *b.mk.c * k;
    b.sp.lambda *= k; b.sp.nu /= k; b.sp.theta *= k; b.sp.kappa *= k; b.sp.thetaV *= k; b.sp.sigmaV *= k; b.sp.v0 *= k;
    src.note(a.str(), " with time in units of ", k);
    src.label(a.fd ? "finite differences" : kindName(a.c.kind)); if (!a.fd) src.label(mname(a.sp.kind));
    const auto x = prices(a, false), y = prices(b, false);
    src.nontrivial(e != 0 && (x[0] != 0 || x[1] != 0));
    for (int i = 0; i < 2; ++i) REQUIRE(close(y[i], x[i], 1e-9, 1e-10 * (a.mk.S + a.c.K)), "price ", y[i], ", in the old unit ", x[i], ": ", a.str());
}
