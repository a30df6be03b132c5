// C35 long sessions: doing the same thing again and again holds no more memory than doing it a few times
#include <functional>
#include <malloc.h>
#include <set>
#include <sstream>
#include "jobs.h"
#include "payoff/double_strikes/payoff_double_digital.h"
#include "payoff/single_strike/payoff_digital.h"
#include "payoff/single_strike/payoff_vanilla.h"
#include "random/distribution/gamma_distrib.h"
#include "random/distribution/poisson_distrib.h"
#include "random/distribution/standard_normal_distribution.h"

using namespace jobs;

extern "C" std::size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

namespace {
std::size_t held() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : mallinfo2().uordblks; }

// Memory held after 4, 8, 16 and 32 rounds. Whatever is kept once or up to some bound stops growing; what is kept for every
// round doubles its growth in each doubling, even in a vector that grows in powers of two. Tables that grow with the logarithm
// of the number of rounds do not.
template <class F> void steady(F&& round, const char* what) {
    std::size_t at[4]; int done = 0;
    for (int k = 0; k < 4; ++k) { for (; done < 4 << k; ++done) round(); at[k] = held(); }
    const double a = static_cast<double>(at[1]) - static_cast<double>(at[0]), b = static_cast<double>(at[2]) - static_cast<double>(at[1]), c = static_cast<double>(at[3]) - static_cast<double>(at[2]);
    REQUIRE(!(a > 0 && b >= 1.5 * a && c >= 1.5 * b && c >= 64), what, ": ", at[1] - at[0], ", ", at[2] - at[1], ", ", at[3] - at[2], " more bytes are held after 8, 16 and 32 rounds");
}
struct Watcher : MarketDataObserver { using MarketDataObserver::MarketDataObserver; int calls = 0; void update() override { ++calls; } };
template <class F> void refused(F&& f) { try { f(); } catch (const std::exception&) { } }
}  // namespace

// Everything is built, used, released and pruned again and again
PROP(C35, rebuild, 12000, 240000, 64, "the price was calculated") {
    Job j = job(src);
    j.paths = {std::min<size_t>(j.paths[0], 20), 1};
    src.note(j.str()); src.label(j.fd ? "finite differences" : kindName(j.c.kind)); if (!j.fd) src.label(mname(j.sp.kind));
    j.mk.apply(); src.nontrivial();
    const bool moves = src.flag();
    steady([&] { Parts p; Live l = build(j, p); l.run(j, 0); if (moves) { md()->setR(j.mk.r); md()->updateStockPrice(j.mk.ticker, j.mk.S); } l = Live(); p = Parts(); md()->removeObserver(); }, "building, pricing and releasing");
}

// The same objects are used again and again
PROP(C35, reuse, 16000, 320000, 64, "the objects were used again") {
    Job j = job(src);
    j.paths = {std::min<size_t>(j.paths[0], 20), std::min<size_t>(j.paths[1], 20)};
    if (j.gen == 2) j.gen = 1; // the Faure tables of Boost grow with the logarithm of the number of points drawn
    const int how = static_cast<int>(src.below(4));
    static const char* hows[] = {"price", "price after moves", "simulate", "bind again"};
    src.note(hows[how], " ", j.str()); src.label(hows[how]); src.label(j.fd ? "finite differences" : kindName(j.c.kind)); if (!j.fd) src.label(mname(j.sp.kind));
    j.mk.apply(); src.nontrivial();
    Parts p; Live l = build(j, p);
    if (how == 2 && p.model) steady([&] { p.model->simulatePrices(j.c.T); p.model->simulatePriceAtMaturity(j.c.T); refused([&] { p.option->payoff(j.mk.S); }); std::ostringstream o; o << *p.option; p.option->getPayoff().clone(); }, "simulating");
    else if (how == 3 && !j.fd) steady([&] {
        p.builder->setOption(p.option); p.builder->setMarketData(p.market); if (p.model) p.builder->setStockPriceModel(p.model);
        if (auto* a = dynamic_cast<AmericanMCBuilder*>(p.builder.get())) { if (p.reg) a->setRegressionStrategy(p.reg); if (p.bas) a->setBasisFunctionStrategy(p.bas); }
        auto b = p.builder->build(); if (l.solver) l.solver->setPricer(std::move(b)); l.run(j, 0); md()->removeObserver();
    }, "binding and pricing");
    else steady([&] {
        l.run(j, 0); if (how == 1) { md()->updateStockPrice(j.mk.ticker, 1.5 * j.mk.S); md()->setR(0.01); l.run(j, 1); md()->updateStockPrice(j.mk.ticker, j.mk.S); md()->updateStockSigma(j.mk.ticker, j.mk.sigma); md()->updateStockCoupon(j.mk.ticker, j.mk.c); md()->addStock(j.mk.ticker, j.mk.S, j.mk.sigma, j.mk.c); md()->setR(j.mk.r); }
    }, "pricing");
    l = Live(); p = Parts(); md()->removeObserver();
}

// Requests, accepted and refused, again and again
PROP(C35, requests, 24000, 480000, 64, "at least two kinds of requests in a round") {
    Job j = job(src);
    j.mk.apply();
    auto m = md(); const std::string t = j.mk.ticker;
    std::vector<std::function<void()>> acts; std::set<int> kinds;
    auto g = std::make_shared<PseudoRandomNumberGenerator>(2, 1u);
    auto keep = std::make_shared<Watcher>(t); m->addObserver(keep);
    for (int n = static_cast<int>(src.range(1, 8)), k = 0; k < n; ++k) {
        const int op = static_cast<int>(src.below(12)); kinds.insert(op);
        static const char* ops[] = {"contract", "contract refused", "copies", "quote refused", "unknown ticker", "observer", "model", "model refused", "payoff refused", "distribution", "generator", "regression and basis"};
        src.note(ops[op]); src.label(ops[op]);
        const Contract c = j.c; const double bad = src.pick({-1.0, static_cast<double>(NAN), -1e-300});
        switch (op) {
            case 0: acts.push_back([=] { auto o = c.make(); std::ostringstream os; os << *o; *o == *c.make(); }); break;
            case 1: { const int w = static_cast<int>(src.below(3)), kind = static_cast<int>(src.below(kKinds)), without = static_cast<int>(src.below(7)); const bool wrong = src.flag();
                acts.push_back([=] {
                    Contract d = c; if (w == 0) d.T = bad; else if (w == 1) d.K = d.K2 = bad; else d.ticker = "NO SUCH STOCK"; refused([&] { d.make(); });
                    // one parameter missing or of the wrong type, of any kind of contract
                    ParameterObject p; static const char* names[] = {"ticker", "T", "K", "K1", "K2", "B", "direction"};
                    for (int i = 0; i < 7; ++i) if (i == without) { if (wrong) p.setParameter(names[i], 7); } else if (i == 0) p.setParameter("ticker", t); else if (i == 6) p.setParameter("direction", d.dir); else p.setParameter(names[i], i == 4 ? 120.0 : 100.0);
                    refused([&] { create(kind, c.call, p); });
                }); break; }
            case 2: acts.push_back([=] { ParameterObject p = c.params(); p.setParameter("T", 2.0); p.setParameter("ticker", t); ParameterObject q = p; auto o = create(c.kind, c.call, q); o->getPayoff().clone(); }); break;
            case 3: acts.push_back([=] { refused([&] { m->updateStockPrice(t, bad); }); refused([&] { m->updateStockSigma(t, bad); }); refused([&] { m->updateStockCoupon(t, bad); }); refused([&] { m->addStock(t, bad, 0.2); }); refused([&] { m->addStock("NEVER ADDED", 1.0, bad); }); }); break;
            case 4: acts.push_back([=] { refused([&] { m->updateStockPrice("NO SUCH STOCK", 1.0); }); refused([&] { m->updateStockCoupon("NO SUCH STOCK", std::nullopt); }); refused([&] { m->getStockData("NO SUCH STOCK"); }); }); break;
            case 5: acts.push_back([=] { auto w = std::make_shared<Watcher>(t); m->addObserver(w); m->updateStockPrice(t, j.mk.S); w.reset(); m->updateStockSigma(t, j.mk.sigma); }); break;
            case 6: acts.push_back([=] { auto s = (j.fd ? Spec() : j.sp).make(t, m, g, nullptr); s->simulatePrices(1.0); }); break;
            case 7: { Spec s = spec(src, static_cast<int>(src.below(kModels)), j.mk.sigma); s.sigmaJ = s.nu = s.eta2 = s.v0 = s.sigmaV = -1; acts.push_back([=] { refused([&] { s.make(t, m, g); }); refused([&] { s.make("NO SUCH STOCK", m, g); }); }); break; }
            case 8: acts.push_back([=] { refused([&] { PayoffVanilla p(PayoffType::Call, bad); }); refused([&] { PayoffDoubleDigital p(bad, 1.0); }); refused([&] { PayoffDigital p(PayoffType::DoubleDigital, 1.0); }); }); break;
            case 9: acts.push_back([=] { StandardNormalDistribution z; z.inv_cdf(0.3); refused([&] { z.inv_cdf(2.0); }); (*g)(z); GammaDistribution q(2.0, 1.0); (*g)(q); PoissonDistribution u(3.0); (*g)(u); refused([&] { GammaDistribution w(bad, 1.0); }); refused([&] { PoissonDistribution w(bad); }); }); break;
            case 10: acts.push_back([=] { StandardNormalDistribution z; SobolGenerator a(3, 5u); a(z); a(z); FaureGenerator b(3, 5u); b(z); PseudoRandomNumberGenerator d(3); d(z); refused([&] { SobolGenerator e(0); }); refused([&] { FaureGenerator e(0); }); }); break;
            default: acts.push_back([=] {
                Eigen::VectorXd x(5); x << 1, 2, 3, 4, 6; auto b = basisFn(j.bas ? j.bas : 1, 3); auto r = regression(j.reg ? j.reg : 1); const Eigen::MatrixXd A = b->generate(x); r->solve(A, x); refused([&] { RidgeRegression q(-1.0); }); refused([&] { LassoRegression q(-1.0); }); refused([&] { basisFn(2, 0); });
                Eigen::SparseMatrix<double> S(4, 4); S.setIdentity(); const Eigen::VectorXd y = x.head(4); auto w = matrixSolver(j.mat ? j.mat : 1); w->solve(S, y); S.coeffRef(2, 2) = 0; refused([&] { w->solve(S, y); });
                LinearInterpolation li; QuadraticInterpolation qi; const std::vector<double> xs{1, 2, 3}, ys{1, 4, 9}; li.interpolate(xs, ys, 1.5); qi.interpolate(xs, ys, 2.5);
            });
        }
    }
    src.nontrivial(kinds.size() >= 2);
    steady([&] { for (auto& a : acts) a(); m->removeObserver(); }, "requests");
    keep.reset(); m->removeObserver();
}
