// Generated stock models behind one description, and instrumented number generators.
#pragma once
#include "gen.h"
#include <algorithm>
#include <complex>
#include <optional>
#include "model/gbm_model.h"
#include "model/merton_jump_diffusion_model.h"
#include "model/kou_model.h"
#include "model/variance_gamma_model.h"
#include "model/heston_model.h"
#include "model/bates_model.h"
#include "model/discretization/explicit_euler_cir_discretization.h"
#include "model/discretization/milstein_cir_discretization.h"
#include "random/distribution/standard_normal_distribution.h"
#include "random/distribution/normal_distrib.h"
#include "random/distribution/continuous_uniform_distrib.h"
#include "random/distribution/exponential_distr.h"
#include "random/distribution/gamma_distrib.h"
#include "random/distribution/poisson_distrib.h"
#include "random/number_generator/pseudo_random_generator.h"
#include "random/number_generator/sobol_quasi_random_generator.h"
#include "random/number_generator/faure_quasi_random_generator.h"

namespace mod {
using namespace OptionPricer;
using namespace gen;
using cd = std::complex<double>;

enum M { GBM, MERTON, KOU, VG, HESTON, BATES, kModels };
inline const char* mname(int k) { static const char* n[] = {"GBM", "Merton", "Kou", "VarianceGamma", "Heston", "Bates"}; return n[k]; }

struct Market {
    std::string ticker = "AAPL"; double S = 100, sigma = 0.2, r = 0.05; std::optional<double> c;
    double q() const { return c.value_or(0.0); }
    double b() const { return r - q(); }
    std::shared_ptr<MarketData> apply() const {
        auto m = md();
        m->setR(r);
        m->addStock(ticker, S, sigma, c);
        return m;
    }
    std::string str() const { return pbt::cat("S=", S, " sigma=", sigma, " r=", r, " c=", c ? pbt::cat(*c) : "none"); }
};
// wild: also volatilities, rates and yields far from ordinary
inline Market market(Src& s, double maxSigma = 0.8, bool wild = false) {
    Market m;
    m.ticker = s.pick({"AAPL", "MSFT", "X"});
    m.S = s.pick({100.0, 1.0, 50.0, s.logreal(0.01, 1e5)});
    m.sigma = s.chance(1, 10) ? 0.0 : s.real(0.01, maxSigma);
    m.r = s.pick({0.05, 0.0, -0.02, 0.1, s.real(-0.05, 0.25)});
    if (s.flag()) m.c = s.pick({0.0, 0.02, 0.05, s.real(0, 0.2)});
    if (wild && s.chance(1, 8)) m.sigma = s.real(0.8, 3);
    if (wild && s.chance(1, 8)) m.r = s.real(-0.4, 1.2);
    if (wild && s.chance(1, 8)) m.c = s.real(0, 1);
    if (wild && s.chance(1, 12)) m.S = s.logreal(1e-8, 1e10);
    return m;
}

struct Spec {
    int kind = GBM;
    double lambda = 1, muJ = 0, sigmaJ = 0.1, p = 0.5, eta1 = 10, eta2 = 5, nu = 0.2, theta = 0;
    double kappa = 2, thetaV = 0.04, sigmaV = 0.3, rho = -0.5, v0 = 0.04;
    std::shared_ptr<StockModel> make(const std::string& ticker, std::shared_ptr<IMarketData> m, std::shared_ptr<NumberGenerator> g,
                                     std::shared_ptr<CIRDiscretization> d = nullptr) const {
        switch (kind) {
            case GBM: return std::make_shared<GeometricBrownianMotionModel>(ticker, m, g);
            case MERTON: return std::make_shared<MertonJumpDiffusionModel>(ticker, m, g, lambda, muJ, sigmaJ);
            case KOU: return std::make_shared<KouModel>(ticker, m, g, lambda, p, eta1, eta2);
            case VG: return std::make_shared<VarianceGammaModel>(ticker, m, g, nu, theta);
            case HESTON: return std::make_shared<HestonModel>(ticker, m, g, kappa, thetaV, sigmaV, rho, v0, d);
            default: return std::make_shared<BatesModel>(ticker, m, g, kappa, thetaV, sigmaV, rho, v0, lambda, muJ, sigmaJ, d);
        }
    }
    std::string str() const {
        switch (kind) {
            case GBM: return "GBM";
            case MERTON: return pbt::cat("Merton lambda=", lambda, " muJ=", muJ, " sigmaJ=", sigmaJ);
            case KOU: return pbt::cat("Kou lambda=", lambda, " p=", p, " eta1=", eta1, " eta2=", eta2);
            case VG: return pbt::cat("VarianceGamma nu=", nu, " theta=", theta);
            case HESTON: return pbt::cat("Heston kappa=", kappa, " theta=", thetaV, " sigma_v=", sigmaV, " rho=", rho, " v0=", v0);
            default: return pbt::cat("Bates kappa=", kappa, " theta=", thetaV, " sigma_v=", sigmaV, " rho=", rho, " v0=", v0, " lambda=", lambda, " muJ=", muJ, " sigmaJ=", sigmaJ);
        }
    }
    // log E exp(iu X_t) of the log price for the Levy models
    cd psi(double u, double sigma) const {
        const cd iu(0, u);
        const double s2 = sigma * sigma;
        switch (kind) {
            case GBM: return -0.5 * s2 * iu - 0.5 * s2 * u * u;
            case MERTON: return -0.5 * s2 * iu - 0.5 * s2 * u * u + lambda * (std::exp(iu * muJ - 0.5 * sigmaJ * sigmaJ * u * u) - 1.0)
                                - iu * lambda * (std::exp(muJ + 0.5 * sigmaJ * sigmaJ) - 1.0);
            case KOU: return -0.5 * s2 * iu - 0.5 * s2 * u * u + lambda * (p * eta1 / (eta1 - iu) + (1 - p) * eta2 / (eta2 + iu) - 1.0)
                             - iu * lambda * (p * eta1 / (eta1 - 1) + (1 - p) * eta2 / (eta2 + 1) - 1.0);
            default: return -std::log(1.0 - iu * theta * nu + 0.5 * s2 * nu * u * u) / nu + iu * std::log(1.0 - theta * nu - 0.5 * s2 * nu) / nu;
        }
    }
    cd phi(double u, double t, double sigma, double b) const { return std::exp(t * (psi(u, sigma) + cd(0, u * b))); }
};
// calm: second and fourth moments of the price exist and are moderate
inline Spec spec(Src& s, int kind, double sigma, bool calm = false) {
    Spec p; p.kind = kind;
    switch (kind) {
        case GBM: break;
        case KOU:
            p.lambda = s.logreal(0.05, calm ? 3 : 5); p.p = s.pick({0.5, 0.0, 1.0, s.real(0, 1)});
            p.eta1 = calm ? s.real(10, 50) : s.pick({10.0, 1.5, s.real(1.1, 50)}); p.eta2 = s.pick({5.0, 0.5, s.real(0.2, 50)});
            break;
        case VG:
            do { p.nu = s.real(0.05, calm ? 0.8 : 2.0); p.theta = s.pick({0.0, -0.2, s.real(-0.5, 0.3)}); if (p.theta > 0) p.theta = std::min(p.theta, 0.3); 
                 if (!calm || 1 - 4 * p.theta * p.nu - 8 * sigma * sigma * p.nu > 0.1) break;
                 p.nu = 0.05; p.theta = std::min(p.theta, 0.0); } while (false);
            if (!(1 - p.theta * p.nu - 0.5 * sigma * sigma * p.nu > 0.02)) p.nu = 0.05;
            break;
        default: break;
    }
    if (kind == MERTON || kind == BATES) {
        p.lambda = s.logreal(0.05, calm ? 3 : 5); p.muJ = s.pick({0.0, -0.1, s.real(-0.3, calm ? 0.1 : 0.3)}); p.sigmaJ = calm ? s.real(0.01, 0.2) : s.real(0.01, 0.4);
    }
    if (kind == HESTON || kind == BATES) {
        p.kappa = s.real(0.1, 5); p.thetaV = s.real(0.01, calm ? 0.15 : 0.3); p.sigmaV = s.real(0.01, calm ? 0.6 : 1.0);
        p.rho = s.pick({-0.7, 0.0, 1.0, -1.0, s.real(-1, 1)}); p.v0 = s.real(0.01, calm ? 0.15 : 0.3);
    }
    return p;
}

// Anywhere in the admissible domain, as long as prices up to T stay within the range of a double
inline Spec wide(Src& s, int kind, double sigma, double T) {
    Spec p = spec(s, kind, sigma);
    auto odd = [&] { return s.flag(); };
    switch (kind) {
        case KOU:
            if (odd()) p.eta1 = 1 + s.logreal(1e-3, 1e4);
            if (odd()) p.eta2 = s.logreal(1e-2, 1e4);
            if (odd()) p.p = s.pick({1e-6, 1 - 1e-6, s.logreal(1e-6, 1)});
            break;
        case VG:
            if (odd()) p.nu = s.logreal(1e-4, 20);
            if (odd()) p.theta = s.real(-3, 2);
            p.theta = std::max(p.theta, -200.0 / (T + 30 * p.nu));
            while (!(1 - p.theta * p.nu - 0.5 * sigma * sigma * p.nu > 0.02)) p.nu *= 0.3;
            break;
        default: break;
    }
    if (kind == MERTON || kind == BATES) {
        if (odd()) p.muJ = s.pick({1.0, -1.0, s.real(-3, 3)});
        if (odd()) p.sigmaJ = s.logreal(1e-5, 2);
    }
    if (kind == HESTON || kind == BATES) {
        if (odd()) p.kappa = s.logreal(1e-3, 50);
        if (odd()) p.thetaV = s.logreal(1e-6, 2);
        if (odd()) p.sigmaV = s.logreal(1e-4, 5);
        if (odd()) p.v0 = s.logreal(1e-7, 3);
        if (odd()) p.rho = s.pick({1 - 1e-9, -1 + 1e-9, 1e-9, s.real(-1, 1)});
        p.kappa = std::min(p.kappa, 10 / T); p.thetaV = std::min(p.thetaV, 10 / T); p.v0 = std::min(p.v0, 20 / T); p.sigmaV = std::min(p.sigmaV, 5 / T);
    }
    if (kind == MERTON || kind == KOU || kind == BATES) {
        if (odd()) p.lambda = s.pick({100.0, s.logreal(1e-4, 500)});
        const double size = kind == KOU ? p.p * (1 / (p.eta1 - 1)) + 1 / p.eta2 + p.p * 8 / p.eta1 : std::exp(p.muJ + 0.5 * p.sigmaJ * p.sigmaJ) - 1 + 2 * std::fabs(p.muJ) + 3 * p.sigmaJ;
        p.lambda = std::min(p.lambda, 120.0 / (T * std::max(size, 1e-3)));
        p.lambda = std::min(p.lambda, 2000.0 / T);
    }
    return p;
}

// Many jumps, each small: up to hundreds over [0, T], with moderate moments
inline Spec dense(Src& s, int kind, double sigma, double T) {
    Spec p = spec(s, kind, sigma, true);
    if (kind != MERTON && kind != KOU && kind != BATES) return p;
    p.lambda = s.logreal(8, 400) / T;
    const double size = std::sqrt(0.2 / (p.lambda * T)) * s.real(0.3, 1); // of a jump
    if (kind == KOU) { p.eta1 = std::max(10.0, 1.5 / size); p.eta2 = 1.5 / size; }
    else { p.muJ = size * s.real(-0.7, 0.7); p.sigmaJ = size * s.real(0.1, 0.7); }
    return p;
}

// Pseudo random generator that can be rewound, remembers what was drawn, and samples standard normals itself
struct Tape : NumberGenerator {
    struct Draw { char type; double v; }; // z standard normal, n normal, u uniform, e exponential, g gamma, p Poisson, ? other
    mutable std::mt19937 rng;
    mutable std::vector<Draw> log;
    bool record;
    explicit Tape(unsigned dim, unsigned seed = 1, bool rec = true) : NumberGenerator(dim, seed), rng(seed), record(rec) {}
    void rewind(unsigned seed) { rng.seed(seed); log.clear(); }
    static char typeOf(const Distribution& d) {
        if (dynamic_cast<const StandardNormalDistribution*>(&d)) return 'z';
        if (dynamic_cast<const NormalDistribution*>(&d)) return 'n';
        if (dynamic_cast<const ContinuousUniformDistribution*>(&d)) return 'u';
        if (dynamic_cast<const ExponentialDistribution*>(&d)) return 'e';
        if (dynamic_cast<const GammaDistribution*>(&d)) return 'g';
        if (dynamic_cast<const PoissonDistribution*>(&d)) return 'p';
        return '?';
    }
    double operator()(Distribution& d) const override {
        const char t = typeOf(d);
        double v;
        if (t == 'z') { std::normal_distribution<> n; v = n(rng); }
        else v = d(rng);
        if (record) log.push_back({t, v});
        return v;
    }
    std::vector<double> of(char t) const { std::vector<double> r; for (auto& d : log) if (d.type == t) r.push_back(d.v); return r; }
    std::string shape() const { std::string s; for (auto& d : log) s += d.type; return s; }
};

// Log prices of the model's own recursion, computed from the numbers one simulated path drew (empty: drawn some other way)
inline std::vector<double> fromDraws(const Spec& sp, const Market& mk, const Tape& tape, unsigned n, double T, bool milstein) {
    const double dt = T / n, s2 = mk.sigma * mk.sigma;
    const auto z = tape.of('z'), cnt = tape.of('p'), nj = tape.of('n'), u = tape.of('u'), e = tape.of('e'), gm = tape.of('g');
    size_t total = 0; for (double c : cnt) total += static_cast<size_t>(c);
    const bool sv = sp.kind == HESTON || sp.kind == BATES, jumps = sp.kind == MERTON || sp.kind == KOU || sp.kind == BATES;
    if (z.size() != (sv ? 2 * n : n) || (jumps && cnt.size() != n) || (sp.kind == VG && gm.size() != n)) return {};
    if ((sp.kind == MERTON || sp.kind == BATES) && nj.size() != total) return {};
    if (sp.kind == KOU && (u.size() != total || e.size() != total)) return {};
    double comp = 0;
    if (sp.kind == MERTON || sp.kind == BATES) comp = sp.lambda * (std::exp(sp.muJ + 0.5 * sp.sigmaJ * sp.sigmaJ) - 1);
    if (sp.kind == KOU) comp = sp.lambda * (sp.p * sp.eta1 / (sp.eta1 - 1) + (1 - sp.p) * sp.eta2 / (sp.eta2 + 1) - 1);
    const double omega = sp.kind == VG ? std::log(1 - sp.theta * sp.nu - 0.5 * s2 * sp.nu) / sp.nu : 0.0;
    std::vector<double> X(n); double x = 0, V = sp.v0; size_t a = 0;
    for (unsigned i = 0; i < n; ++i) {
        if (sv) {
            const double zV = z[2 * i], zS = sp.rho * zV + std::sqrt(1 - sp.rho * sp.rho) * z[2 * i + 1], vp = std::max(V, 0.0);
            x += (mk.b() - 0.5 * vp - comp) * dt + std::sqrt(vp * dt) * zS;
            V += sp.kappa * (sp.thetaV - vp) * dt + sp.sigmaV * std::sqrt(vp * dt) * zV + (milstein ? 0.25 * sp.sigmaV * sp.sigmaV * dt * (zV * zV - 1) : 0.0);
        } else if (sp.kind == VG) x += (mk.b() + omega) * dt + sp.theta * gm[i] + mk.sigma * std::sqrt(gm[i]) * z[i];
        else x += (mk.b() - 0.5 * s2 - comp) * dt + mk.sigma * std::sqrt(dt) * z[i];
        if (jumps) for (int k = 0; k < static_cast<int>(cnt[i]); ++k, ++a) x += sp.kind == KOU ? (u[a] < sp.p ? e[a] : -e[a]) : nj[a];
        X[i] = x;
    }
    return X;
}

struct Stat {
    double n = 0, m = 0, s2 = 0;
    void add(double x) { n += 1; const double d = x - m; m += d / n; s2 += d * (x - m); }
    double se() const { return std::sqrt(s2 / n / n); }
};
}  // namespace mod
