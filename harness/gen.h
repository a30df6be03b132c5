// Generators and small adapters shared by the harnesses.
#pragma once
#include "pbt.h"
#include "ref.h"
#include <memory>
#include <string>
#include <vector>
#include "market_data/market_data.h"
#include "option/parameter_object.h"
#include "option/base_option.h"
#include "option/single_path/factory_european_option.h"
#include "option/single_path/factory_digital_option.h"
#include "option/single_path/factory_double_digital_option.h"
#include "option/path_dependent/factory_american_option.h"
#include "option/path_dependent/factory_asian_option.h"
#include "option/path_dependent/factory_barrier_option.h"
#include "option/path_dependent/factory_lookback_option.h"

namespace gen {
using namespace OptionPricer;
using pbt::Src;

inline std::shared_ptr<MarketData> md() { return MarketData::getInstance(); }

// A price-like positive number: round, ordinary, or extreme
inline double price(Src& s) {
    switch (s.below(6)) {
        case 0: return static_cast<double>(s.range(1, 200));
        case 1: return s.real(50.0, 150.0);
        case 2: return s.logreal(0.01, 1e4);
        case 3: return s.logreal(1e-8, 1e9);
        case 4: return static_cast<double>(s.range(1, 2000)) / 4.0;
        default: return 100.0 * (1.0 + s.real(-0.1, 0.1));
    }
}
// Something near x: equal, one ulp away, slightly away
inline double near(Src& s, double x) {
    switch (s.below(7)) {
        case 0: return x;
        case 1: return std::nextafter(x, INFINITY);
        case 2: return std::nextafter(x, 0.0);
        case 3: return x * (1 + 1e-9);
        case 4: return x * (1 - 1e-9);
        case 5: return x * s.real(0.5, 1.5);
        default: return x + static_cast<double>(s.range(0, 4)) - 2.0;
    }
}
// Ordinary names, and names that differ only in case, blanks, a prefix, the far end or unprintable characters
inline const std::vector<std::string>& tickerNames() {
    static const std::vector<std::string> names{"AAPL", "MSFT", "A", "", "aapl", "AAPL ", "X.Y", "GOOG", "BRK-B", "ZZ", " AAPL", std::string("A\0B", 3), std::string("A\0C", 3),
        "AVERYLONGTICKERNAMETHATGOESONANDON1", "AVERYLONGTICKERNAMETHATGOESONANDON2", "\xc3\x84PL", "BRK.B"};
    return names;
}
inline std::string ticker(Src& s) {
    return s.pick(tickerNames());
}

// The ten contract kinds, behind one interface
enum Kind { European, Digital, DoubleDigital, American, ArithAsian, GeoAsian, KnockIn, KnockOut, FloatLookback, FixedLookback, kKinds };
inline const char* kindName(int k) {
    static const char* n[] = {"European", "Digital", "DoubleDigital", "American", "ArithmeticAsian", "GeometricAsian", "KnockIn", "KnockOut", "FloatingLookback", "FixedLookback"};
    return n[k];
}
template <class F> std::shared_ptr<Option> viaFactory(bool call, const ParameterObject& p) {
    F f;
    if (call) return f.createCallOption(p);
    return f.createPutOption(p);
}
inline std::shared_ptr<Option> create(int kind, bool call, const ParameterObject& p) {
    switch (kind) {
        case European: return viaFactory<EuropeanOptionFactory>(call, p);
        case Digital: return viaFactory<DigitalOptionFactory>(call, p);
        case DoubleDigital: return viaFactory<DoubleDigitalOptionFactory>(call, p);
        case American: return viaFactory<AmericanOptionFactory>(call, p);
        case ArithAsian: return viaFactory<ArithmeticAsianOptionFactory>(call, p);
        case GeoAsian: return viaFactory<GeometricAsianOptionFactory>(call, p);
        case KnockIn: return viaFactory<KnockInBarrierOptionFactory>(call, p);
        case KnockOut: return viaFactory<KnockOutBarrierOptionFactory>(call, p);
        case FloatLookback: return viaFactory<FloatingStrikeLookbackOptionFactory>(call, p);
        default: return viaFactory<FixedStrikeLookbackOptionFactory>(call, p);
    }
}
struct Contract {
    int kind = European; bool call = true; std::string ticker = "AAPL"; double T = 1, K = 100, K2 = 120, B = 110;
    BarrierDirection dir = BarrierDirection::Up;
    ParameterObject params() const {
        ParameterObject p;
        p.setParameter("ticker", ticker);
        p.setParameter("T", T);
        if (kind == DoubleDigital) { p.setParameter("K1", K); p.setParameter("K2", K2); }
        else if (kind != FloatLookback) p.setParameter("K", K);
        if (kind == KnockIn || kind == KnockOut) { p.setParameter("B", B); p.setParameter("direction", dir); }
        return p;
    }
    std::shared_ptr<Option> make() const { return create(kind, call, params()); }
    // payoff of the contract on a terminal value (or average, or extreme)
    double payoff(double S) const {
        if (kind == Digital) return call ? (S > K ? 1.0 : 0.0) : (S < K ? 1.0 : 0.0);
        if (kind == DoubleDigital) return (K <= S && S <= K2) ? 1.0 : 0.0;
        return ref::payoffVanilla(call, S, K);
    }
    std::string str() const {
        return pbt::cat(kindName(kind), call ? " call" : " put", " on '", ticker, "' T=", T, " K=", K, " K2=", K2, " B=", B, dir == BarrierDirection::Up ? " up" : " down");
    }
};
}  // namespace gen
