// C11 paths, C12 martingale, C13 law, C14 Brownian bridge, C26 variance schemes, C28 rejected model parameters
#include "models.h"
#include <map>
#include <set>

using namespace mod;
using pbt::Src; using pbt::cat; using pbt::throwsA; using pbt::close;

static double horizon(Src& s) { return s.pick({1.0, 0.5, 0.25, 2.0, s.chance(1, 4) ? s.logreal(1e-6, 50) : s.logreal(0.02, 10)}); }
// Ordinary parameters, or anywhere in the domain
static Spec anySpec(Src& s, int kind, double sigma, double T) { return s.chance(1, 3) ? wide(s, kind, sigma, T) : s.chance(1, 10) ? dense(s, kind, sigma, T) : spec(s, kind, sigma); }
static unsigned nsteps(Src& s) { return static_cast<unsigned>(s.pick<int64_t>({1, 2, 3, 12, 50, s.chance(1, 20) ? s.range(120, 1100) : s.range(1, 120)})); }
static std::shared_ptr<CIRDiscretization> disc(int k) {
    if (k == 1) return std::make_shared<CIRExplicitEulerDiscretization>();
    if (k == 2) return std::make_shared<CIRMilsteinDiscretization>();
    return nullptr;
}
static void same(const std::vector<double>& a, const std::vector<double>& b, double tol, const std::string& what) {
    REQUIRE(a.size() == b.size(), what, ": ", a.size(), " and ", b.size(), " prices");
    for (size_t i = 0; i < a.size(); ++i) REQUIRE(close(a[i], b[i], tol), what, ": price ", i, " is ", a[i], ", expected ", b[i]);
}

// ---------------------------------------------------------------- C11
PROP(C11, shape, 120000, 400000, 0, "more than one step") {
    const Market mk = market(src, 0.8, true);
    double T = horizon(src);
    const bool far = src.chance(1, 3);
    const int kind = static_cast<int>(src.below(kModels));
    const Spec sp = far ? wide(src, kind, mk.sigma, T) : spec(src, kind, mk.sigma);
    const unsigned n = nsteps(src), seed = src.seed32();
    if ((sp.kind == GBM || sp.kind == HESTON) && src.chance(1, 30)) T = 0;
    const int g = sp.kind == GBM || sp.kind == HESTON ? static_cast<int>(src.below(3)) : 0, dk = static_cast<int>(src.below(3));
    src.note(sp.str(), " ", mk.str(), " steps=", n, " T=", T, " generator=", g, " seed=", seed);
    src.nontrivial(n > 1);
    src.label(mname(sp.kind));
    auto m = mk.apply();
    auto mkg = [&]() -> std::shared_ptr<NumberGenerator> {
        if (g == 1) return std::make_shared<SobolGenerator>(n, seed);
        if (g == 2) return std::make_shared<FaureGenerator>(n, seed);
        return std::make_shared<PseudoRandomNumberGenerator>(n, seed);
    };
    auto g1 = mkg();
    auto a = sp.make(mk.ticker, m, g1, disc(dk)), b = sp.make(mk.ticker, m, mkg(), disc(dk));
    REQUIRE(a->getSteps() == n && a->getGenerator() == g1, "steps ", a->getSteps(), " for a generator of dimension ", n);
    for (int k = 0; k < 3; ++k) {
        const auto p = a->simulatePrices(T);
        const double q = b->simulatePriceAtMaturity(T);
        REQUIRE(p.size() == n, p.size(), " prices for ", n, " steps");
        for (double x : p) REQUIRE(std::isfinite(x) && (far ? x >= 0 : x > 0), "price ", x);
        if (T == 0) for (double x : p) REQUIRE(close(x, mk.S, 1e-12), "price ", x, " at once, spot ", mk.S);
        REQUIRE(close(p.back(), q, 1e-12), "path ends at ", p.back(), ", price at maturity ", q);
    }
}
// Spot scales the path; rate and dividend act through exp((r-c)t) only
PROP(C11, scaling, 120000, 400000, 0, "the carry or the spot differs") {
    Market m1 = market(src, 0.8, true), m2 = m1;
    const double T = horizon(src);
    const Spec sp = anySpec(src, static_cast<int>(src.below(kModels)), m1.sigma, T);
    const int what = static_cast<int>(src.below(4));
    if (what == 0 || what == 3) m2.S = m1.S * src.pick({2.0, 0.5, 10.0, src.logreal(0.01, 100)});
    if (what == 1 || what == 3) m2.r = src.chance(1, 6) ? src.real(-0.4, 1.2) : src.real(-0.05, 0.25);
    if (what == 2 || what == 3) { if (src.flag()) m2.c = src.chance(1, 6) ? src.real(0, 1) : src.real(0, 0.3); else m2.c.reset(); }
    const unsigned n = nsteps(src), seed = src.seed32();
    src.note(sp.str(), " ", m1.str(), " then ", m2.str(), " steps=", n, " T=", T, " seed=", seed);
    src.nontrivial(m1.S != m2.S || m1.b() != m2.b());
    src.label(mname(sp.kind));
    auto tape = std::make_shared<Tape>(n, seed, false);
    auto model = sp.make(m1.ticker, m1.apply(), tape);
    const auto p1 = model->simulatePrices(T);
    tape->rewind(seed);
    if (src.flag()) m2.apply(); // the same model sees the new quotes
    else model = sp.make(m2.ticker, m2.apply(), tape);
    auto p2 = model->simulatePrices(T);
    REQUIRE(p1.size() == n && p2.size() == n, "path lengths");
    for (unsigned i = 0; i < n; ++i) {
        const double t = T * (i + 1) / n, f = m2.S / m1.S * std::exp((m2.b() - m1.b()) * t);
        REQUIRE(close(p2[i], p1[i] * f, 1e-9, 1e-290), "price ", i, " is ", p2[i], ", expected ", p1[i] * f);
    }
}
// A model keeps no memory: what it simulates depends on the current market data and the numbers drawn, not on its past
PROP(C11, current_market, 80000, 160000, 0, "the market data changed after the model was built") {
    const Market m0 = market(src);
    Market m1 = m0;
    const double T = horizon(src);
    const Spec sp = anySpec(src, static_cast<int>(src.below(kModels)), 0.8, std::max(T, 3.0));
    const unsigned n = nsteps(src), seed = src.seed32();
    auto m = m0.apply();
    auto tape = std::make_shared<Tape>(n, seed, false);
    const int dk = static_cast<int>(src.below(3));
    auto model = sp.make(m0.ticker, m, tape, disc(dk));
    src.note(sp.str(), " ", m0.str(), " steps=", n, " T=", T, " seed=", seed);
    int changes = 0;
    const int ops = static_cast<int>(src.range(1, 6));
    for (int i = 0; i < ops; ++i) switch (src.below(8)) {
        case 0: m1.S = src.logreal(0.1, 1000); m->updateStockPrice(m1.ticker, m1.S); ++changes; src.note("price ", m1.S); break;
        case 1: m1.sigma = src.real(0, 0.8); m->updateStockSigma(m1.ticker, m1.sigma); ++changes; src.note("sigma ", m1.sigma); break;
        case 2: if (src.flag()) m1.c = src.real(0, 0.2); else m1.c.reset(); m->updateStockCoupon(m1.ticker, m1.c); ++changes; src.note("coupon ", m1.q()); break;
        case 3: m1.r = src.real(-0.05, 0.2); m->setR(m1.r); ++changes; src.note("rate ", m1.r); break;
        case 4: m1.S = src.logreal(0.1, 1000); m1.sigma = src.real(0, 0.8); m->addStock(m1.ticker, m1.S, m1.sigma, m1.c); ++changes; src.note("added again S=", m1.S, " sigma=", m1.sigma); break;
        case 5: (void)model->simulatePrices(src.real(0.1, 3)); src.note("simulate"); break;
        case 6: (void)model->simulatePriceAtMaturity(src.real(0.1, 3)); src.note("maturity"); break;
        default:
            if (sp.kind == GBM) { (void)model->simulatePriceBackward(m1.S * src.real(0.5, 2), 0.3, 0.7); src.note("backward"); }
            else m->addStock("OTHER", src.logreal(1, 100), 0.3);
    }
    src.nontrivial(changes > 0);
    src.label(mname(sp.kind));
    auto fresh = sp.make(m1.ticker, m, tape, disc(dk));
    tape->rewind(seed);
    const auto a = model->simulatePrices(T);
    tape->rewind(seed);
    const auto a2 = model->simulatePrices(T);
    same(a, a2, 0, "the same numbers simulated twice");
    tape->rewind(seed);
    same(a, fresh->simulatePrices(T), 0, "old and fresh model");
    if (src.flag()) return;
    // the smallest of moves counts too: reached by a small step or from far away, the same market gives the same path
    const double by = (src.flag() ? -1 : 1) * src.logreal(1e-14, 1e-3);
    Market m2 = m1;
    switch (src.below(4)) {
        case 0: m2.S *= 1 + by; m->updateStockPrice(m2.ticker, m2.S); break;
        case 1: m2.sigma = std::max(0.0, m2.sigma + by); m->updateStockSigma(m2.ticker, m2.sigma); break;
        case 2: m2.c = std::clamp(m2.c.value_or(0) + by, 0.0, 1.0); m->updateStockCoupon(m2.ticker, m2.c); break;
        default: m2.r += by; m->setR(m2.r);
    }
    src.note("moved by ", by); src.label("small move");
    tape->rewind(seed); const auto b = model->simulatePrices(T);
    m->addStock(m2.ticker, m2.S * 3 + 1, 0.9, 0.7); m->setR(m2.r + 2);
    tape->rewind(seed); (void)model->simulatePrices(T);
    m->addStock(m2.ticker, m2.S, m2.sigma, m2.c); m->setR(m2.r);
    tape->rewind(seed); same(b, model->simulatePrices(T), 0, "path after a small move and path of the same market reached from far away");
    if (m2.S == m1.S && m2.sigma == m1.sigma) { const double db = m2.b() - m1.b(); for (unsigned i = 0; i < n; ++i) REQUIRE(close(b[i], a[i] * std::exp(db * T * (i + 1) / n), 1e-11), "price ", i, " is ", b[i], " after the carry moved by ", db, ", ", a[i], " before"); }
}
PROP(C11, deterministic, 50000, 200000, 0, "zero volatility and more than one step") {
    Market mk = market(src, 0.8, true); mk.sigma = 0;
    const unsigned n = nsteps(src), seed = src.seed32();
    const double T = horizon(src);
    src.note(mk.str(), " steps=", n, " T=", T);
    src.nontrivial(n > 1);
    GeometricBrownianMotionModel g(mk.ticker, mk.apply(), std::make_shared<PseudoRandomNumberGenerator>(n, seed));
    const auto p = g.simulatePrices(T);
    REQUIRE(p.size() == n, "length");
    for (unsigned i = 0; i < n; ++i) REQUIRE(close(p[i], mk.S * std::exp(mk.b() * T * (i + 1) / n), 1e-10), "price ", i, " is ", p[i], " not the forward");
    REQUIRE(close(g.simulatePriceAtMaturity(T), mk.S * std::exp(mk.b() * T), 1e-10), "price at maturity is not the forward");
    // so is Heston without variance, and Variance Gamma without volatility and drift
    Spec sp; sp.kind = src.flag() ? VG : HESTON; sp.v0 = 0; sp.thetaV = 0; sp.theta = 0; sp.nu = src.real(0.05, 2); sp.kappa = src.real(0.1, 5); sp.sigmaV = src.real(0, 1); sp.rho = src.real(-1, 1);
    const auto w = sp.make(mk.ticker, md(), std::make_shared<PseudoRandomNumberGenerator>(n, seed), disc(sp.kind == VG ? 0 : 1))->simulatePrices(T);
    REQUIRE(w.size() == n, "length");
    for (unsigned i = 0; i < n; ++i) REQUIRE(close(w[i], mk.S * std::exp(mk.b() * T * (i + 1) / n), 1e-10), sp.str(), ": price ", i, " is ", w[i], " not the forward");
}

// ---------------------------------------------------------------- C12
static double jumpsPerPath(const Spec& sp, double T) { return sp.kind == MERTON || sp.kind == KOU || sp.kind == BATES ? sp.lambda * T : 0.0; }
PROP(C12, martingale, 1600, 20000, 0, "volatility, jumps or random variance present") {
    Market mk = market(src, 0.4);
    const int kind = static_cast<int>(src.below(kModels));
    unsigned n = static_cast<unsigned>(src.pick<int64_t>({1, 2, 4, 12, src.range(1, 24), src.range(1, 100)})); const unsigned seed = src.seed32();
    double T = src.pick({1.0, 0.5, src.real(0.05, 1.5)});
    const bool jumps = kind == MERTON || kind == KOU || kind == BATES, sparse = jumps && src.chance(1, 6); // sparse: large and very rare jumps, many dates
    Spec sp = !sparse && src.chance(1, 6) ? dense(src, kind, mk.sigma, T) : spec(src, kind, mk.sigma, true);
    if (sparse) { sp.lambda = src.logreal(1e-5, 0.03); n = static_cast<unsigned>(src.range(50, 100)); mk.sigma = src.real(0.03, 0.1); sp.muJ = src.pick({0.5, -0.7}); sp.sigmaJ = 0.1; sp.eta1 = 5; sp.eta2 = 2; sp.thetaV = sp.v0 = 0.01; sp.sigmaV = 0.05; }
    if (kind == KOU && sp.eta2 < 2) T = std::min(T, 1.0);
    const bool ownPrng = src.flag(); // the library's generator or the harness's
    const int dk = static_cast<int>(src.below(3));
    src.note(sp.str(), " ", mk.str(), " steps=", n, " T=", T, " scheme=", dk, " seed=", seed);
    src.nontrivial(kind != GBM || mk.sigma > 0);
    src.label(mname(kind));
    auto m = mk.apply();
    const int watch = static_cast<int>(src.below(n)); // an interior date, besides maturity
    auto sample = [&](unsigned sd, int paths, Stat& end, Stat& mid) {
        std::shared_ptr<NumberGenerator> g;
        if (ownPrng) g = std::make_shared<Tape>(n, sd, false); else g = std::make_shared<PseudoRandomNumberGenerator>(n, sd);
        auto model = sp.make(mk.ticker, m, g, disc(dk));
        const double fT = std::exp(-mk.b() * T) / mk.S, fm = std::exp(-mk.b() * T * (watch + 1) / n) / mk.S;
        for (int i = 0; i < paths; ++i) { const auto p = model->simulatePrices(T); REQUIRE(p.size() == n, "length"); end.add(p.back() * fT); mid.add(p[watch] * fm); }
    };
    Stat e, w; const int N = static_cast<int>(1200000 / (n + 12 + jumpsPerPath(sp, T)));
    sample(seed, N, e, w);
    auto z = [](const Stat& s) { return (s.m - 1.0) / (s.se() + 1e-12); };
    if (std::fabs(z(e)) > 6 || std::fabs(z(w)) > 6) {
        Stat e2, w2; sample(seed ^ 0x5bd1e995u, 8 * N, e2, w2);
        const double zz = std::max(std::fabs(z(e2)), std::fabs(z(w2)));
        REQUIRE(zz < 7, "discounted price drifts: E at maturity ", e2.m, " +- ", e2.se(), ", at step ", watch, " ", w2.m, " +- ", w2.se(), " (in units of spot)");
    }
}

// The same mean, with the model's own recursion on the same draws as control variate (its discounted mean is one): the
// estimate stays unbiased however the library draws its numbers, and its error all but vanishes when the paths agree
PROP(C12, martingale_controlled, 30000, 500000, 0, "volatility, jumps or random variance present") {
    const Market mk = market(src, 0.4);
    const int kind = static_cast<int>(src.below(kModels));
    const double T = src.pick({1.0, 0.5, src.real(0.05, 1.5), src.logreal(0.001, 10)});
    const Spec sp = src.chance(1, 3) ? wide(src, kind, mk.sigma, T) : spec(src, kind, mk.sigma, true);
    const unsigned n = static_cast<unsigned>(src.pick<int64_t>({1, 2, 4, 12, src.range(1, 24), src.range(1, 300)})), seed = src.seed32();
    const int dk = static_cast<int>(src.below(3));
    src.note(sp.str(), " ", mk.str(), " steps=", n, " T=", T, " scheme=", dk, " seed=", seed);
    src.nontrivial(kind != GBM || mk.sigma > 0);
    src.label(mname(kind));
    auto m = mk.apply();
    const unsigned watch = static_cast<unsigned>(src.below(n));
    auto sample = [&](unsigned sd, int paths, Stat& end, Stat& mid) {
        auto tape = std::make_shared<Tape>(n, sd);
        auto model = sp.make(mk.ticker, m, tape, disc(dk));
        const double fT = std::exp(-mk.b() * T) / mk.S, fm = std::exp(-mk.b() * T * (watch + 1) / n) / mk.S;
        for (int i = 0; i < paths; ++i) {
            tape->log.clear();
            const auto p = model->simulatePrices(T); REQUIRE(p.size() == n, "length");
            const auto x = fromDraws(sp, mk, *tape, n, T, dk == 2);
            if (x.empty()) return false;
            end.add(p.back() * fT - std::exp(x.back()) * mk.S * fT); mid.add(p[watch] * fm - std::exp(x[watch]) * mk.S * fm);
        }
        return true;
    };
    auto z = [](const Stat& s) { return std::fabs(s.m) / (s.se() + 1e-10); };
    const bool deep = src.chance(1, 150); // many paths, for what shows in rare draws only
    Stat e, w; const int N = deep ? 5000 + static_cast<int>(300000 / (n + jumpsPerPath(sp, T))) : 40 + static_cast<int>(2000 / (n + 12));
    if (!sample(seed, N, e, w)) return; // drawn some other way: judged by the plain mean
    if (z(e) > 6 || z(w) > 6) {
        Stat e2, w2; sample(seed ^ 0x5bd1e995u, std::max(2 * N, 4000 + static_cast<int>(200000 / (n + 2 + jumpsPerPath(sp, T)))), e2, w2);
        const double zz = std::max(z(e2), z(w2));
        REQUIRE(zz < 8, "discounted price drifts: E at maturity ", 1 + e2.m, " +- ", e2.se(), ", at step ", watch, " ", 1 + w2.m, " +- ", w2.se(), " (in units of spot)");
    }
}

// ---------------------------------------------------------------- C13
// Law of log increments of the Levy models against the characteristic function
PROP(C13, levy_law, 2500, 24000, 0, "two increments, at least one of positive volatility or with jumps") {
    Market mk = market(src);
    const int kind = static_cast<int>(src.below(4));
    const double T = src.pick({1.0, 0.25, src.real(0.05, 3)});
    const Spec sp = src.chance(1, 4) ? dense(src, kind, mk.sigma, T) : anySpec(src, kind, mk.sigma, T);
    const unsigned n = static_cast<unsigned>(src.pick<int64_t>({2, 3, 5, 12, src.range(2, 20)})), seed = src.seed32();
    const unsigned i = static_cast<unsigned>(src.range(1, n - 1));
    src.note(sp.str(), " ", mk.str(), " steps=", n, " T=", T, " split after step ", i, " seed=", seed);
    src.nontrivial(kind != GBM || mk.sigma > 0);
    src.label(mname(kind));
    auto m = mk.apply();
    const double t1 = T * i / n, t2 = T - t1;
    // frequencies on the scale of the increments
    double var = mk.sigma * mk.sigma;
    if (kind == MERTON) var += sp.lambda * (sp.muJ * sp.muJ + sp.sigmaJ * sp.sigmaJ);
    if (kind == KOU) var += sp.lambda * (2 * sp.p / sp.eta1 / sp.eta1 + 2 * (1 - sp.p) / sp.eta2 / sp.eta2);
    if (kind == VG) var += sp.nu * sp.theta * sp.theta;
    var = std::max(var, 1e-4);
    struct U { double a, b; };
    std::vector<U> us;
    const double s1 = 1 / std::sqrt(var * t1), s2 = 1 / std::sqrt(var * t2);
    for (int k = 0; k < 3; ++k) { const double f = src.real(0.3, 2.5); us.push_back({f * s1, 0}); us.push_back({0, f * s2}); us.push_back({f * s1, src.real(-2, 2) * s2}); }
    auto sample = [&](unsigned sd, int paths, std::vector<Stat>& st) {
        auto g = std::make_shared<PseudoRandomNumberGenerator>(n, sd);
        auto model = sp.make(mk.ticker, m, g);
        st.assign(2 * us.size(), Stat());
        for (int k = 0; k < paths; ++k) {
            const auto p = model->simulatePrices(T);
            const double x = std::log(p[i - 1] / mk.S), y = std::log(p[n - 1] / p[i - 1]);
            for (size_t j = 0; j < us.size(); ++j) { const double w = us[j].a * x + us[j].b * y; st[2 * j].add(std::cos(w)); st[2 * j + 1].add(std::sin(w)); }
        }
    };
    auto worst = [&](const std::vector<Stat>& st, std::string* what) {
        double z = 0;
        for (size_t j = 0; j < us.size(); ++j) {
            const cd f = sp.phi(us[j].a, t1, mk.sigma, mk.b()) * sp.phi(us[j].b, t2, mk.sigma, mk.b());
            const cd f2 = sp.phi(2 * us[j].a, t1, mk.sigma, mk.b()) * sp.phi(2 * us[j].b, t2, mk.sigma, mk.b());
            const double vc = std::max(0.0, 0.5 + 0.5 * f2.real() - f.real() * f.real()), vs = std::max(0.0, 0.5 - 0.5 * f2.real() - f.imag() * f.imag());
            const double N = st[2 * j].n;
            // + 2/N: bounded variables with a tiny variance are far from normal
            const double zc = std::fabs(st[2 * j].m - f.real()) / (std::sqrt(vc / N) + 4 / N + 1e-9), zs = std::fabs(st[2 * j + 1].m - f.imag()) / (std::sqrt(vs / N) + 4 / N + 1e-9);
            if (std::max(zc, zs) > z) { z = std::max(zc, zs); if (what) *what = cat("E exp(i(", us[j].a, " X1 + ", us[j].b, " X2)) is ", st[2 * j].m, "+", st[2 * j + 1].m, "i, the law gives ", f.real(), "+", f.imag(), "i"); }
        }
        return z;
    };
    std::vector<Stat> st;
    const int N = static_cast<int>(600000 / (n + 10 + jumpsPerPath(sp, T)));
    sample(seed, N, st);
    if (worst(st, nullptr) > 6) {
        sample(seed ^ 0x9e3779b9u, 4 * N, st);
        std::string what;
        const double z = worst(st, &what);
        REQUIRE(z < 7, what, ", z=", z);
    }
}
// GBM: exact in the normals drawn
PROP(C13, gbm_exact, 200000, 400000, 0, "positive volatility and more than one step") {
    const Market mk = market(src, 0.8, true);
    const unsigned n = nsteps(src), seed = src.seed32();
    const double T = horizon(src);
    src.note(mk.str(), " steps=", n, " T=", T, " seed=", seed);
    src.nontrivial(n > 1 && mk.sigma > 0);
    auto tape = std::make_shared<Tape>(n, seed);
    GeometricBrownianMotionModel g(mk.ticker, mk.apply(), tape);
    const auto p = g.simulatePrices(T);
    if (tape->shape() != std::string(n, 'z')) return; // another way of drawing: judged by the law
    double X = 0, dt = T / n;
    for (unsigned i = 0; i < n; ++i) {
        X += (mk.b() - 0.5 * mk.sigma * mk.sigma) * dt + mk.sigma * std::sqrt(dt) * tape->log[i].v;
        REQUIRE(close(p[i], mk.S * std::exp(X), 1e-9), "price ", i, " is ", p[i], ", expected ", mk.S * std::exp(X));
    }
}
// Jump models: exact in the numbers drawn
PROP(C13, jump_exact, 200000, 400000, 0, "at least one jump (or gamma time) drawn") {
    const Market mk = market(src, 0.8, true);
    const int kind = src.pick<int>({MERTON, KOU, VG});
    const double T = horizon(src);
    const Spec sp = anySpec(src, kind, mk.sigma, T);
    const unsigned n = nsteps(src), seed = src.seed32();
    const double dt = T / n;
    src.note(sp.str(), " ", mk.str(), " steps=", n, " T=", T, " seed=", seed);
    src.label(mname(kind));
    auto tape = std::make_shared<Tape>(n, seed);
    auto model = sp.make(mk.ticker, mk.apply(), tape);
    const auto p = model->simulatePrices(T);
    double comp = 0;
    if (kind == MERTON) comp = sp.lambda * (std::exp(sp.muJ + 0.5 * sp.sigmaJ * sp.sigmaJ) - 1);
    if (kind == KOU) comp = sp.lambda * (sp.p * sp.eta1 / (sp.eta1 - 1) + (1 - sp.p) * sp.eta2 / (sp.eta2 + 1) - 1);
    const double omega = std::log(1 - sp.theta * sp.nu - 0.5 * mk.sigma * mk.sigma * sp.nu) / sp.nu;
    const auto z = tape->of('z'), cnt = tape->of('p'), nj = tape->of('n'), u = tape->of('u'), e = tape->of('e'), gm = tape->of('g');
    size_t a = 0, total = 0;
    for (double c : cnt) total += static_cast<size_t>(c);
    if (kind == VG ? (z.size() != n || gm.size() != n) : (z.size() != n || cnt.size() != n)) return;
    if (kind == MERTON && nj.size() != total) return;
    if (kind == KOU && (u.size() != total || e.size() != total)) return;
    src.nontrivial(kind == VG || total > 0);
    double X = 0;
    for (unsigned i = 0; i < n; ++i) {
        if (kind == VG) X += (mk.b() + omega) * dt + sp.theta * gm[i] + mk.sigma * std::sqrt(gm[i]) * z[i];
        else {
            X += (mk.b() - 0.5 * mk.sigma * mk.sigma - comp) * dt + mk.sigma * std::sqrt(dt) * z[i];
            for (int k = 0; k < static_cast<int>(cnt[i]); ++k, ++a) X += kind == MERTON ? nj[a] : (u[a] < sp.p ? e[a] : -e[a]);
        }
        if (!(X > -600)) break; // leaves the range of a double
        REQUIRE(close(std::log(p[i] / mk.S), X, 1e-9, 1e-9), "log return ", std::log(p[i] / mk.S), " at step ", i, ", expected ", X);
    }
}
namespace {
// Variance scheme under the harness's control: checks its arguments, then moves the variance to a scripted value
struct Scripted : CIRDiscretization {
    mutable std::vector<double> V;      // scripted next values
    mutable std::vector<double> z, seenV, dts;
    double kappa, theta, sigmaV;
    mutable size_t i = 0;
    mutable bool argsOk = true;
    void update(double& v, const double& dt, const double& k, const double& th, const double& sv, const double& zz) const override {
        argsOk = argsOk && k == kappa && th == theta && sv == sigmaV;
        seenV.push_back(v); dts.push_back(dt); z.push_back(zz);
        v = V[i++ % V.size()];
    }
};
}  // namespace
// Heston and Bates: the price step uses the variance at the start of the step, truncated at zero, and numbers correlated by rho
PROP(C13, stochvol_step, 200000, 400000, 0, "more than one step and a correlation strictly inside (-1,1)") {
    const Market mk = market(src, 0.8, true);
    const int kind = src.flag() ? BATES : HESTON;
    const double T = horizon(src);
    const Spec sp = anySpec(src, kind, mk.sigma, T);
    const unsigned n = static_cast<unsigned>(src.range(1, 12)), seed = src.seed32();
    const double dt = T / n;
    const int how = static_cast<int>(src.below(4)); // 0 default, 1 Euler, 2 Milstein, 3 scripted
    auto tape = std::make_shared<Tape>(n, seed);
    auto scr = std::make_shared<Scripted>();
    scr->kappa = sp.kappa; scr->theta = sp.thetaV; scr->sigmaV = sp.sigmaV;
    for (unsigned i = 0; i < n; ++i) scr->V.push_back(src.pick({0.04, 0.0, -0.01, src.real(-0.2, 0.5)}));
    src.note(sp.str(), " ", mk.str(), " steps=", n, " T=", T, " scheme=", how, " seed=", seed);
    src.nontrivial(n > 1 && std::fabs(sp.rho) < 1);
    src.label(cat(mname(kind), how == 3 ? " scripted variance" : how == 2 ? " Milstein" : " Euler"));
    auto model = sp.make(mk.ticker, mk.apply(), tape, how == 3 ? std::static_pointer_cast<CIRDiscretization>(scr) : disc(how));
    const auto p = model->simulatePrices(T);
    REQUIRE(p.size() == n, "length");
    const auto z = tape->of('z'), cnt = tape->of('p'), nj = tape->of('n');
    if (z.size() != 2 * n) return; // another way of drawing
    size_t total = 0; for (double c : cnt) total += static_cast<size_t>(c);
    if (kind == BATES && (cnt.size() != n || nj.size() != total)) return;
    if (how == 3) {
        REQUIRE(scr->argsOk, "the variance scheme got other parameters than the model's");
        REQUIRE(scr->z.size() == n || scr->z.size() + 1 == n, "variance updated ", scr->z.size(), " times in ", n, " steps");
        for (size_t i = 0; i < scr->z.size(); ++i) {
            REQUIRE(close(scr->dts[i], dt, 1e-12), "variance step of ", scr->dts[i], " instead of ", dt);
            REQUIRE(scr->seenV[i] == (i ? scr->V[i - 1] : sp.v0), "variance ", scr->seenV[i], " at step ", i);
        }
    }
    const double comp = kind == BATES ? sp.lambda * (std::exp(sp.muJ + 0.5 * sp.sigmaJ * sp.sigmaJ) - 1) : 0.0;
    // Which of the two numbers drives the variance is free, the correlation is not
    bool ok = false; std::string why;
    for (int conv = 0; conv < 4 && !ok; ++conv) {
        double V = sp.v0, X = 0; size_t a = 0; bool good = true;
        for (unsigned i = 0; i < n && good; ++i) {
            const double z1 = conv & 1 ? z[2 * i + 1] : z[2 * i], z2 = conv & 1 ? z[2 * i] : z[2 * i + 1];
            const double mix = sp.rho * z1 + std::sqrt(1 - sp.rho * sp.rho) * z2;
            const double zV = conv & 2 ? mix : z1, zS = conv & 2 ? z1 : mix;
            const double vp = std::max(V, 0.0);
            X += (mk.b() - 0.5 * vp - comp) * dt + std::sqrt(vp * dt) * zS;
            if (kind == BATES) for (int k = 0; k < static_cast<int>(cnt[i]); ++k) X += nj[a++];
            if (!(X > -600)) break;
            if (!close(std::log(p[i] / mk.S), X, 1e-9, 1e-9)) { good = false; if (conv == 0) why = cat("log return ", std::log(p[i] / mk.S), " at step ", i, ", expected ", X); }
            if (how == 3) { if (i < scr->z.size() && !close(scr->z[i], zV, 1e-9, 1e-12)) { good = false; if (conv == 0) why = cat("variance driven by ", scr->z[i], " at step ", i, ", expected ", zV); } V = scr->V[i]; }
            else {
                V += sp.kappa * (sp.thetaV - vp) * dt + sp.sigmaV * std::sqrt(vp * dt) * zV;
                if (how == 2) V += 0.25 * sp.sigmaV * sp.sigmaV * dt * (zV * zV - 1);
            }
        }
        ok = good;
    }
    REQUIRE(ok, why);
}
// Heston and Bates whatever way the numbers are drawn: joint law of two log prices against the harness's own simulation
PROP(C13, stochvol_law, 1200, 12000, 0, "random variance") {
    const Market mk = market(src);
    const int kind = src.flag() ? BATES : HESTON;
    const double T = src.pick({1.0, 0.25, src.real(0.05, 3)});
    const Spec sp = anySpec(src, kind, mk.sigma, T);
    const unsigned n = static_cast<unsigned>(src.pick<int64_t>({2, 4, 12, src.range(2, 30)})), seed = src.seed32();
    const unsigned cut = static_cast<unsigned>(src.range(1, n - 1));
    const double dt = T / n;
    const bool mil = src.flag();
    src.note(sp.str(), " ", mk.str(), " steps=", n, " T=", T, " cut=", cut, mil ? " Milstein" : " Euler", " seed=", seed);
    src.nontrivial(sp.sigmaV > 0);
    src.label(mname(kind));
    auto m = mk.apply();
    double var = std::max(sp.v0, sp.thetaV); if (kind == BATES) var += sp.lambda * (sp.muJ * sp.muJ + sp.sigmaJ * sp.sigmaJ);
    const double sc = 1 / std::sqrt(var * T);
    const double ua = src.real(0.3, 2) * sc, ub = src.real(-2, 2) * sc;
    struct F { Stat s[6]; void add(double x, double y, double ua, double ub, double sc) { s[0].add(std::cos(ua * y)); s[1].add(std::sin(ua * y)); s[2].add(std::cos(ua * x + ub * (y - x))); s[3].add(std::sin(ua * x + ub * (y - x)));
        s[4].add(std::tanh(2 * sc * sc * (y - x) * (y - x) - 1) * std::tanh(sc * x)); s[5].add(std::tanh(2 * sc * sc * x * x) * std::tanh(2 * sc * sc * (y - x) * (y - x))); } };
    auto lib = [&](unsigned sd, int N, F& f) {
        auto model = sp.make(mk.ticker, m, std::make_shared<PseudoRandomNumberGenerator>(n, sd), disc(mil ? 2 : 1));
        for (int k = 0; k < N; ++k) { const auto p = model->simulatePrices(T); f.add(std::log(p[cut - 1] / mk.S), std::log(p[n - 1] / mk.S), ua, ub, sc); }
    };
    auto own = [&](unsigned sd, int N, F& f) {
        std::mt19937_64 rng(sd); std::normal_distribution<> nd; std::poisson_distribution<> pd(kind == BATES ? sp.lambda * dt : 1.0);
        const double comp = kind == BATES ? sp.lambda * (std::exp(sp.muJ + 0.5 * sp.sigmaJ * sp.sigmaJ) - 1) : 0.0, rr = std::sqrt(1 - sp.rho * sp.rho);
        for (int k = 0; k < N; ++k) {
            double V = sp.v0, X = 0, x = 0;
            for (unsigned i = 0; i < n; ++i) {
                const double a = nd(rng), b = nd(rng), vp = std::max(V, 0.0);
                X += (mk.b() - 0.5 * vp - comp) * dt + std::sqrt(vp * dt) * (sp.rho * a + rr * b);
                if (kind == BATES) for (int j = pd(rng); j > 0; --j) X += sp.muJ + sp.sigmaJ * nd(rng);
                V += sp.kappa * (sp.thetaV - vp) * dt + sp.sigmaV * std::sqrt(vp * dt) * a + (mil ? 0.25 * sp.sigmaV * sp.sigmaV * dt * (a * a - 1) : 0.0);
                if (i + 1 == cut) x = X;
            }
            f.add(x, X, ua, ub, sc);
        }
    };
    auto worst = [](const F& a, const F& b) { double z = 0; for (int i = 0; i < 6; ++i) z = std::max(z, std::fabs(a.s[i].m - b.s[i].m) / (std::sqrt(a.s[i].se() * a.s[i].se() + b.s[i].se() * b.s[i].se()) + 8 / a.s[i].n)); return z; };
    F a, b; const int N = static_cast<int>(600000 / (n + 6 + jumpsPerPath(sp, T)));
    lib(seed, N, a); own(seed + 1, N, b);
    if (worst(a, b) > 6) { F a2, b2; lib(seed ^ 0x51ed270bu, 4 * N, a2); own(seed ^ 0x2545f491u, 4 * N, b2); const double z = worst(a2, b2);
        REQUIRE(z < 7, "law of the simulated prices differs from the model's, z=", z, " E cos ", a2.s[0].m, " vs ", b2.s[0].m, " E joint cos ", a2.s[2].m, " vs ", b2.s[2].m); }
}
// The numbers themselves: intensity, jump sizes and gamma clock have the moments the parameters name
PROP(C13, jump_draws, 1200, 4000, 0, "enough draws for a test") {
    const Market mk = market(src);
    const int kind = src.pick<int>({MERTON, KOU, VG, BATES});
    const double T = horizon(src);
    const Spec sp = anySpec(src, kind, mk.sigma, T);
    const unsigned n = nsteps(src), seed = src.seed32();
    const double dt = T / n;
    src.note(sp.str(), " steps=", n, " T=", T, " seed=", seed);
    src.label(mname(kind));
    src.nontrivial();
    auto tape = std::make_shared<Tape>(n, seed);
    auto model = sp.make(mk.ticker, mk.apply(), tape);
    Stat counts, counts2, jumps, jumps2, up, down, side, clock, clock2;
    for (int k = 0; k < static_cast<int>(std::min(60000.0 / n, 400000 / (1 + jumpsPerPath(sp, T)))) + 1; ++k) {
        tape->log.clear();
        (void)model->simulatePrices(T);
        const auto cnt = tape->of('p'), nj = tape->of('n'), u = tape->of('u'), e = tape->of('e'), gm = tape->of('g');
        for (double c : cnt) { counts.add(c); counts2.add((c - sp.lambda * dt) * (c - sp.lambda * dt)); }
        for (double j : nj) { jumps.add((j - sp.muJ) / sp.sigmaJ); jumps2.add((j - sp.muJ) * (j - sp.muJ) / sp.sigmaJ / sp.sigmaJ); }
        if (u.size() == e.size()) for (size_t i = 0; i < u.size(); ++i) { side.add(u[i] < sp.p); (u[i] < sp.p ? up : down).add(e[i] * (u[i] < sp.p ? sp.eta1 : sp.eta2)); }
        for (double g : gm) { clock.add(g / dt); clock2.add((g / dt - 1) * (g / dt - 1)); }
    }
    auto chk = [&](const Stat& s, double mean, double sd, const char* what) {
        if (s.n < 2000 || sd * sd / (mean * mean) > s.n / 300) return; // too few, or too skewed
        const double zz = (s.m - mean) / (sd / std::sqrt(s.n) + 1e-12);
        REQUIRE(std::fabs(zz) < 8, what, " is ", s.m, ", expected ", mean, ", z=", zz);
    };
    chk(counts, sp.lambda * dt, std::sqrt(sp.lambda * dt), "jumps per step");
    if (jumps.n >= 2000) { const double zz = jumps.m * std::sqrt(jumps.n); REQUIRE(std::fabs(zz) < 7.5, "mean standardized jump ", jumps.m); }
    chk(jumps2, 1, std::sqrt(2), "variance of the standardized jump");
    chk(up, 1, 1, "mean standardized upward jump");
    chk(down, 1, 1, "mean standardized downward jump");
    if (side.n >= 2000 && sp.p > 0.02 && sp.p < 0.98) chk(side, sp.p, std::sqrt(sp.p * (1 - sp.p)), "share of upward jumps");
    chk(clock, 1, std::sqrt(sp.nu / dt), "mean of the gamma clock per step");
    if (sp.nu / dt < 2) chk(clock2, sp.nu / dt, sp.nu / dt * std::sqrt(2 + 6 * sp.nu / dt), "variance of the gamma clock per step");
}

// ---------------------------------------------------------------- C14
PROP(C14, bridge_exact, 1000000, 800000, 0, "an interior date and positive volatility") {
    Market mk = market(src, 0.8, true);
    const unsigned seed = src.seed32();
    const double t1 = src.chance(1, 4) ? src.logreal(1e-8, 1e3) : horizon(src), frac = src.pick({0.5, 0.0, 1.0, src.real(0, 1), src.chance(1, 4) ? 1 - src.logreal(1e-9, 1) : src.logreal(1e-9, 1)}), t0 = frac == 1.0 ? t1 : t1 * frac;
    const double next = mk.S * src.pick({1.0, 2.0, 0.5, src.logreal(0.05, 20), src.logreal(1e-6, 1e6)});
    auto tape = std::make_shared<Tape>(static_cast<unsigned>(src.range(1, 20)), seed);
    auto m = mk.apply();
    GeometricBrownianMotionModel g(mk.ticker, m, tape);
    if (src.chance(1, 3)) { mk.S = src.logreal(0.1, 1000); m->updateStockPrice(mk.ticker, mk.S); }
    if (src.chance(1, 3)) { mk.sigma = src.real(0, 0.8); m->updateStockSigma(mk.ticker, mk.sigma); }
    src.note(mk.str(), " next=", next, " t_j=", t0, " t_j+1=", t1, " seed=", seed);
    src.nontrivial(t0 > 0 && t0 < t1 && mk.sigma > 0);
    const double got = g.simulatePriceBackward(next, t0, t1);
    REQUIRE(std::isfinite(got) && got > 0, "price ", got);
    const double X = std::log(next / mk.S), mean = t0 / t1 * X, sd = mk.sigma * std::sqrt(t0 * (t1 - t0) / t1);
    if (t0 == 0) REQUIRE(close(got, mk.S, 1e-12), "at time 0 the bridge is at ", got, " not at the spot ", mk.S);
    if (t0 == t1) REQUIRE(close(got, next, 1e-9), "at the later date the bridge is at ", got, " not at ", next);
    const auto z = tape->of('z');
    if (z.size() != 1) return;
    const double x = std::log(got / mk.S);
    REQUIRE(close(x, mean + sd * z[0], 1e-10, 1e-13) || close(x, mean - sd * z[0], 1e-10, 1e-13), "log price ", x, ", expected ", mean, " + ", sd, " * ", z[0]);
}
// Filling in backward gives the same joint law as simulating forward
PROP(C14, bridge_law, 2400, 40000, 0, "positive volatility") {
    Market mk = market(src, 0.5); if (mk.sigma == 0) mk.sigma = 0.2;
    const unsigned n = static_cast<unsigned>(src.range(2, 12)), seed = src.seed32();
    const double T = src.pick({1.0, 0.5, src.real(0.1, 3), src.logreal(1e-5, 20)});
    const unsigned a = static_cast<unsigned>(src.range(1, n - 1));
    src.note(mk.str(), " steps=", n, " T=", T, " date ", a, " seed=", seed);
    src.nontrivial();
    auto m = mk.apply();
    const double dt = T / n, s2 = mk.sigma * mk.sigma, ta = a * dt, tb = T;
    const double fa = src.real(0.3, 2) / (mk.sigma * std::sqrt(ta)), fb = src.real(-1, 1) / (mk.sigma * std::sqrt(tb - ta));
    auto run = [&](unsigned sd, int N, Stat& c, Stat& s) {
        auto g1 = std::make_shared<PseudoRandomNumberGenerator>(1, sd);
        GeometricBrownianMotionModel fwd(mk.ticker, m, g1);
        for (int k = 0; k < N; ++k) {
            double S = fwd.simulatePriceAtMaturity(T);
            const double XT = std::log(S / mk.S);
            for (unsigned j = n - 1; j >= a; --j) S = fwd.simulatePriceBackward(S, j * dt, (j + 1) * dt);
            const double Xa = std::log(S / mk.S), w = fa * Xa + fb * (XT - Xa);
            c.add(std::cos(w)); s.add(std::sin(w));
        }
    };
    const double nu = mk.b() - 0.5 * s2;
    const double arg = nu * (fa * ta + fb * (tb - ta)), damp = std::exp(-0.5 * s2 * (fa * fa * ta + fb * fb * (tb - ta))), damp2 = std::pow(damp, 4);
    const double vc = 0.5 + 0.5 * damp2 * std::cos(2 * arg) - std::pow(damp * std::cos(arg), 2), vs = 0.5 - 0.5 * damp2 * std::cos(2 * arg) - std::pow(damp * std::sin(arg), 2);
    auto z = [&](const Stat& c, const Stat& s) {
        return std::max(std::fabs(c.m - damp * std::cos(arg)) / (std::sqrt(std::max(vc, 0.0) / c.n) + 4 / c.n), std::fabs(s.m - damp * std::sin(arg)) / (std::sqrt(std::max(vs, 0.0) / s.n) + 4 / s.n));
    };
    Stat c, s; run(seed, 20000, c, s);
    if (z(c, s) > 6) { Stat c2, s2_; run(seed ^ 0x1234567u, 80000, c2, s2_); REQUIRE(z(c2, s2_) < 7, "law of the bridged path: E cos ", c2.m, " E sin ", s2_.m, " expected ", damp * std::cos(arg), " ", damp * std::sin(arg)); }
}
PROP(C14, unsupported, 40000, 40000, 0, "a model with no bridge") {
    const Market mk = market(src);
    const Spec sp = spec(src, static_cast<int>(src.range(1, kModels - 1)), mk.sigma);
    src.note(sp.str(), " ", mk.str());
    src.nontrivial();
    src.label(mname(sp.kind));
    auto m = sp.make(mk.ticker, mk.apply(), std::make_shared<PseudoRandomNumberGenerator>(3, src.seed32()));
    REQUIRE(throwsA<std::logic_error>([&] { (void)m->simulatePriceBackward(mk.S * src.real(0.5, 2), 0.3, 0.7); }), "backward simulation returned a price");
}

// ---------------------------------------------------------------- C26
PROP(C26, schemes, 3000000, 8000000, 0, "positive vol of vol and nonzero noise") {
    double V = src.pick({0.04, 0.0, -0.01, src.real(-0.5, 1.0), src.logreal(1e-12, 1e3), src.logreal(1e-40, 1e-9), -src.logreal(1e-12, 10), -src.logreal(1e-30, 1e-9)});
    const double dt = src.pick({0.01, 1.0, src.logreal(1e-5, 1), src.logreal(1e-9, 20)}), k = src.pick({src.real(0, 10), src.logreal(1e-4, 200)}), th = src.pick({src.real(0, 0.5), src.logreal(1e-6, 20)}), sv = src.pick({0.3, 0.0, src.real(0, 2), src.logreal(1e-5, 20)}),
                 z = src.pick({0.0, 1.0, -1.0, src.real(-4, 4), src.real(-9, 9)});
    src.note("V=", V, " dt=", dt, " kappa=", k, " theta=", th, " sigma_v=", sv, " z=", z);
    src.nontrivial(sv > 0 && z != 0);
    src.label(V < 0 ? "negative variance" : V == 0 ? "zero variance" : "positive variance");
    const double vp = std::max(V, 0.0), e = V + k * (th - vp) * dt + sv * std::sqrt(vp * dt) * z, mil = e + 0.25 * sv * sv * dt * (z * z - 1);
    double a = V, b = V;
    std::unique_ptr<CIRDiscretization> E = std::make_unique<CIRExplicitEulerDiscretization>(), Mi = std::make_unique<CIRMilsteinDiscretization>();
    E->update(a, dt, k, th, sv, z); Mi->update(b, dt, k, th, sv, z);
    // rounding is on the scale of the terms, which may cancel
    const double scale = std::fabs(V) + k * (th + vp) * dt + sv * std::sqrt(vp * dt) * std::fabs(z), second = 0.25 * sv * sv * dt * (z * z + 1);
    REQUIRE(std::fabs(a - e) <= 1e-14 * scale, "Euler step to ", a, ", expected ", e);
    REQUIRE(std::fabs(b - mil) <= 1e-14 * (scale + second), "Milstein step to ", b, ", expected ", mil);
}
// Mean of the variance under the Euler scheme inside the models: kappa, theta reach the scheme with their meaning
PROP(C26, histories, 200000, 400000, 0, "at least two steps") {
    const int n = static_cast<int>(src.range(1, 40));
    const double dt = src.pick({0.01, src.logreal(1e-4, 0.2)}), k = src.real(0.1, 5), th = src.real(0.01, 0.3), sv = src.real(0, 1.5);
    double v = src.real(0, 0.3), w = v, rv = v, rw = v;
    src.note("n=", n, " dt=", dt, " kappa=", k, " theta=", th, " sigma_v=", sv, " v0=", v);
    src.nontrivial(n >= 2);
    CIRExplicitEulerDiscretization E; CIRMilsteinDiscretization Mi;
    bool neg = false;
    for (int i = 0; i < n; ++i) {
        const double z = src.pick({-3.0, 0.0, 1.0, src.real(-4, 4)});
        E.update(v, dt, k, th, sv, z); Mi.update(w, dt, k, th, sv, z);
        const double a = std::max(rv, 0.0), b = std::max(rw, 0.0);
        rv += k * (th - a) * dt + sv * std::sqrt(a * dt) * z;
        rw += k * (th - b) * dt + sv * std::sqrt(b * dt) * z + 0.25 * sv * sv * dt * (z * z - 1);
        neg = neg || rv < 0;
        REQUIRE(std::isfinite(v) && std::isfinite(w), "variance ", v, " ", w);
        if (std::fabs(rv) > 1e-9 && !close(v, rv, 1e-7, 1e-10)) REQUIRE(false, "Euler variance ", v, " after step ", i, ", expected ", rv);
        if (std::fabs(rw) > 1e-9 && !close(w, rw, 1e-7, 1e-10)) REQUIRE(false, "Milstein variance ", w, " after step ", i, ", expected ", rw);
        rv = v; rw = w; // judge each step on its own
    }
    if (neg) src.label("variance went negative");
}

// ---------------------------------------------------------------- C28
namespace {
// The documented domain of each model
bool admissible(const Spec& s) {
    switch (s.kind) {
        case MERTON: return s.sigmaJ > 0;
        case KOU: return s.p >= 0 && s.p <= 1 && s.eta1 > 1 && s.eta2 > 0;
        case VG: return s.nu > 0;
        case HESTON: return s.rho >= -1 && s.rho <= 1 && s.v0 >= 0 && s.sigmaV >= 0;
        case BATES: return s.sigmaJ > 0 && s.rho >= -1 && s.rho <= 1 && s.v0 > 0 && s.kappa > 0 && s.sigmaV > 0;
        default: return true;
    }
}
}  // namespace
PROP(C28, rejects, 400000, 8000000, 0, "a parameter outside its domain or on its edge, or an unknown ticker") {
    const Market mk = market(src);
    const int kind = static_cast<int>(src.below(kModels));
    const Spec good = spec(src, kind, mk.sigma);
    Spec s = good;
    auto m = mk.apply();
    auto g = std::make_shared<PseudoRandomNumberGenerator>(2, 1u);
    std::string tick = mk.ticker, what;
    auto odd = [&](const char* name, double& x, std::initializer_list<double> vs) { x = src.pick(vs); what += cat(" ", name); };
    auto sign = [&](const char* name, double& x) { odd(name, x, {0.0, -0.0, -1.0, -1e-300, -0.3, -5e-324, -1e9, 5e-324, 1e-9, 0.25, NAN, -x}); };
    const int n = static_cast<int>(src.pick<int64_t>({1, 1, 1, 2, 2, 3, 4}));
    for (int i = 0; i < n; ++i) switch (src.below(8)) {
        case 0: if (i == 0 && src.flag()) { tick = src.pick({"NO SUCH STOCK", "aapl", "AAP", "AAPL ", "", " "}); what = " ticker"; } break;
        case 1: case 2: if (kind == MERTON || kind == BATES) sign("sigmaJ", s.sigmaJ); else if (kind == KOU) odd("p", s.p, {0.0, 1.0, -1e-300, -5e-324, -1.0, 1.0 + 1e-15, 1.5, 2.0, -0.0, 100.0, NAN}); else if (kind == VG) sign("nu", s.nu); else if (kind == HESTON) sign("v0", s.v0); break;
        case 3: if (kind == KOU) odd("eta1", s.eta1, {1.0, 0.5, 0.0, -2.0, std::nextafter(1.0, 0.0), std::nextafter(1.0, 2.0), -5.0, 1.0001, -0.5, NAN}); else if (kind == HESTON || kind == BATES) odd("rho", s.rho, {1.0, -1.0, 1.0 + 1e-15, -1.0 - 1e-15, 1.5, -1.5, 2.0, -2.0, 1e9, -1e9, NAN, -NAN}); break;
        case 4: if (kind == KOU) sign("eta2", s.eta2); else if (kind == HESTON || kind == BATES) sign("sigma_v", s.sigmaV); break;
        case 5: if (kind == BATES) sign("v0", s.v0); break;
        case 6: if (kind == BATES) sign("kappa", s.kappa); break;
        default: break;
    }
    if (what.empty()) return;
    const bool ok = admissible(s) && tick == mk.ticker;
    src.note(s.str(), " ticker ", tick, ", unusual:", what);
    src.nontrivial();
    src.label(cat(mname(kind), ok ? " accepted:" : " rejected:", n > 1 ? " several" : what));
    const bool threw = throwsA<std::logic_error>([&] { (void)s.make(tick, m, g); });
    REQUIRE(threw == !ok, ok ? "admissible parameters rejected" : "inadmissible parameters or ticker accepted");
    if (!ok) { auto fine = good.make(mk.ticker, m, g); REQUIRE(fine->simulatePrices(1.0).size() == 2, "valid model unusable"); }
}
PROP(C28, accepts_boundary, 4000, 40000, 0, "parameters on the edge of their domain") {
    const Market mk = market(src);
    auto m = mk.apply();
    const int kind = src.pick<int>({KOU, HESTON, BATES});
    Spec s = spec(src, kind, mk.sigma);
    if (kind == KOU) { s.p = src.pick({0.0, 1.0}); s.eta1 = src.pick({std::nextafter(1.0, 2.0), 1.0001, 3.0}); s.eta2 = src.pick({1e-3, 5.0}); }
    else { s.rho = src.pick({-1.0, 1.0}); if (kind == HESTON) { s.v0 = src.pick({0.0, 0.04}); s.sigmaV = src.pick({0.0, 0.3}); } }
    src.note(s.str());
    src.nontrivial();
    REQUIRE(!throwsA<std::exception>([&] { (void)s.make(mk.ticker, m, std::make_shared<PseudoRandomNumberGenerator>(2, 1u)); }), "valid parameters rejected");
}
