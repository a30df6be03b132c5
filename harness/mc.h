// Scripted stock model, fake market data, reference payoffs on a path, and builders by contract kind.
#pragma once
#include <array>
#include <map>
#include "models.h"
#include "solver/monte_carlo/mc_solver.h"
#include "solver/monte_carlo/builder/mc_builder_single_path.h"
#include "solver/monte_carlo/builder/mc_builder_american.h"
#include "solver/monte_carlo/builder/mc_builder_asian.h"
#include "solver/monte_carlo/builder/mc_builder_barrier.h"
#include "solver/monte_carlo/builder/mc_builder_lookback.h"

namespace mc {
using namespace mod;

// Plays back given paths, in order; remembers how many were asked for and for which horizon
struct Script : StockModel {
    std::vector<std::vector<double>> paths;
    mutable size_t next = 0;
    mutable std::vector<double> asked;
    mutable size_t back = 0;
    std::vector<double> bridge;            // scripted answers of the backward simulation (paths in order, date after date)
    mutable std::vector<std::array<double, 3>> backAsked;
    Script(const std::string& t, std::shared_ptr<IMarketData> m, unsigned steps)
        : StockModel(t, std::move(m), std::make_shared<Tape>(steps, 1, false)) {}
    double simulatePriceAtMaturity(const double& T) const override { return simulatePrices(T).back(); }
    std::vector<double> simulatePrices(const double& T) const override {
        asked.push_back(T);
        const auto& p = paths[next % paths.size()];
        ++next;
        return p;
    }
    double simulatePriceBackward(const double& s, const double& a, const double& b) const override {
        backAsked.push_back({s, a, b});
        return bridge.empty() ? s : bridge[back++ % bridge.size()];
    }
};

struct FakeMarket : IMarketData {
    double r = 0.05;
    std::map<std::string, std::shared_ptr<const StockData>> data;
    void addObserver(const std::shared_ptr<MarketDataObserver>&) override {}
    void removeObserver() override {}
    std::shared_ptr<const StockData> getStockData(const std::string& t) const override {
        auto it = data.find(t);
        if (it == data.end()) throw std::invalid_argument(t + " unknown");
        return it->second;
    }
    double getR() const override { return r; }
    void setR(const double& x) override { r = x; }
};

inline double pathPayoff(const Contract& c, const std::vector<double>& p) {
    const double ST = p.back();
    double mn = p[0], mx = p[0], sum = 0, slog = 0; bool hit = false;
    for (double x : p) { mn = std::min(mn, x); mx = std::max(mx, x); sum += x; slog += std::log(x); hit = hit || (c.dir == BarrierDirection::Up ? x >= c.B : x <= c.B); }
    const double n = static_cast<double>(p.size());
    switch (c.kind) {
        case ArithAsian: return ref::payoffVanilla(c.call, sum / n, c.K);
        case GeoAsian: return ref::payoffVanilla(c.call, std::exp(slog / n), c.K);
        case KnockIn: return hit ? ref::payoffVanilla(c.call, ST, c.K) : 0.0;
        case KnockOut: return hit ? 0.0 : ref::payoffVanilla(c.call, ST, c.K);
        case FloatLookback: return c.call ? ST - mn : mx - ST;
        case FixedLookback: return c.call ? ref::payoffVanilla(true, mx, c.K) : ref::payoffVanilla(false, mn, c.K);
        default: return c.payoff(ST);
    }
}
enum B { B_SINGLE, B_AMERICAN, B_ARITH, B_GEO, B_IN, B_OUT, B_FLOAT, B_FIXED, kBuilders };
inline std::unique_ptr<MCBuilder> builder(int b) {
    switch (b) {
        case B_SINGLE: return std::make_unique<MCSinglePathBuilder>();
        case B_AMERICAN: return std::make_unique<AmericanMCBuilder>();
        case B_ARITH: return std::make_unique<ArithmeticAsianMCBuilder>();
        case B_GEO: return std::make_unique<GeometricAsianMCBuilder>();
        case B_IN: return std::make_unique<KnockInBarrierMCBuilder>();
        case B_OUT: return std::make_unique<KnockOutBarrierMCBuilder>();
        case B_FLOAT: return std::make_unique<FloatingStrikeLookbackMCBuilder>();
        default: return std::make_unique<FixedStrikeLookbackMCBuilder>();
    }
}
inline int builderOf(int kind) {
    static const int m[] = {B_SINGLE, B_SINGLE, B_SINGLE, B_AMERICAN, B_ARITH, B_GEO, B_IN, B_OUT, B_FLOAT, B_FIXED};
    return m[kind];
}
inline std::unique_ptr<MCPricer> pricer(const Contract& c, std::shared_ptr<StockModel> model, std::shared_ptr<IMarketData> m = nullptr) {
    auto b = builder(builderOf(c.kind));
    b->setOption(c.make());
    b->setStockPriceModel(model);
    if (m) b->setMarketData(m);
    return b->build();
}
}  // namespace mc
