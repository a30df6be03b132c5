// C01 payoff values, C02 payoff identity, C06 factories and parameters, C07 contract equality and report
#include "gen.h"
#include <algorithm>
#include <map>
#include <optional>
#include <sstream>
#include "payoff/single_strike/payoff_vanilla.h"
#include "payoff/single_strike/payoff_digital.h"
#include "payoff/double_strikes/payoff_double_digital.h"
#include "payoff/payoff_floating_strike_lookback.h"

using namespace OptionPricer;
using namespace gen;
using pbt::Src; using pbt::cat; using pbt::close; using pbt::throwsA;

namespace {
constexpr double NaN = std::numeric_limits<double>::quiet_NaN();

double strike(Src& s) { return s.chance(1, 10) ? 0.0 : price(s); }
double spot(Src& s, double K) {
    switch (s.below(5)) {
        case 0: return price(s);
        case 1: case 2: return K > 0 ? std::fabs(near(s, K)) : s.pick({0.0, 1e-300, 1.0});
        case 3: return s.pick({0.0, 5e-324, 1e-300, 1e-12, 1e12, 1e300});
        default: return s.logreal(1e-6, 1e8);
    }
}

struct PayoffSpec {
    int kind = 0; // vanilla, digital, double digital, floating lookback
    bool call = true; double K = 0, K2 = 0;
    std::unique_ptr<Payoff> make() const {
        const auto t = call ? PayoffType::Call : PayoffType::Put;
        switch (kind) {
            case 0: return std::make_unique<PayoffVanilla>(t, K);
            case 1: return std::make_unique<PayoffDigital>(t, K);
            case 2: return std::make_unique<PayoffDoubleDigital>(K, K2);
            default: return std::make_unique<PayoffLookbackFloatingStrike>(t);
        }
    }
    double value(double S, double x) const {
        switch (kind) {
            case 0: return ref::payoffVanilla(call, S, K);
            case 1: return call ? (S > K ? 1.0 : 0.0) : (S < K ? 1.0 : 0.0);
            case 2: return (S >= K && S <= K2) ? 1.0 : 0.0;
            default: { const double d = call ? S - x : x - S; return d > 0 ? d : 0.0; }
        }
    }
    bool sameAs(const PayoffSpec& o) const {
        if (kind != o.kind) return false;
        switch (kind) {
            case 0: case 1: return call == o.call && K == o.K;
            case 2: return K == o.K && K2 == o.K2;
            default: return call == o.call;
        }
    }
    std::string str() const { const char* n[] = {"vanilla", "digital", "double digital", "floating lookback"};
        return cat(n[kind], call ? " call" : " put", " K=", K, " K2=", K2); }
};
PayoffSpec payoffSpec(Src& s) {
    PayoffSpec p; p.kind = static_cast<int>(s.below(4)); p.call = !s.flag(); p.K = strike(s);
    p.K2 = s.chance(2, 3) ? p.K + s.pick({0.0, 1.0, 10.0, 50.0}) : strike(s);
    return p;
}
void checkValue(const PayoffSpec& p, const Payoff& f, double S, double x) {
    if (p.kind == 3) {
        REQUIRE(close(f(S, x), p.value(S, x), 1e-15), "payoff(", S, ",", x, ")=", f(S, x), " expected ", p.value(S, x), " for ", p.str());
        REQUIRE(throwsA<std::logic_error>([&] { f(S); }), "one-argument call on a floating-strike lookback accepted");
    } else {
        REQUIRE(close(f(S), p.value(S, 0), 1e-15), "payoff(", S, ")=", f(S), " expected ", p.value(S, 0), " for ", p.str());
        REQUIRE(throwsA<std::logic_error>([&] { f(S, x); }), "two-argument call accepted by ", p.str());
    }
}
}  // namespace

PROP(C01, values, 2000000, 40000000, 0, "spot within 50% of a strike, or equal to it, or an extreme spot") {
    const PayoffSpec p = payoffSpec(src);
    const auto f = p.make();
    const double S = spot(src, src.flag() && p.kind == 2 ? p.K2 : p.K), x = spot(src, S > 0 ? S : 1.0);
    src.note(p.str(), " S=", S, " extreme=", x);
    checkValue(p, *f, S, x);
    src.nontrivial(p.kind == 3 || S == p.K || std::fabs(S - p.K) <= 0.5 * p.K || S < 1e-6 || S > 1e6);
    src.label(p.value(S, x) > 0 ? "in the money" : "out of the money");
    if (S == p.K || (p.kind == 2 && S == p.K2)) src.label("spot equals strike");
}

PROP(C01, laws, 1000000, 20000000, 0, "both spots differ") {
    // call - put = S - K; digital call + put = 1 off the strike; monotone and convex in S
    const double K = strike(src), S = spot(src, K), S2 = spot(src, S > 0 ? S : 1.0);
    src.note("K=", K, " S=", S, " S2=", S2);
    const PayoffVanilla c(PayoffType::Call, K), p(PayoffType::Put, K);
    REQUIRE(close(c(S) - p(S), S - K, 1e-15), "call-put=", c(S) - p(S));
    REQUIRE(c(S) >= 0 && p(S) >= 0 && (c(S) == 0 || p(S) == 0), "signs");
    const double lo = std::min(S, S2), hi = std::max(S, S2);
    REQUIRE(c(lo) <= c(hi) && p(lo) >= p(hi), "monotone in the spot");
    REQUIRE(c(hi) - c(lo) <= (hi - lo) + 1e-14 * (hi + K), "slope at most one");
    const PayoffDigital dc(PayoffType::Call, K), dp(PayoffType::Put, K);
    REQUIRE(dc(S) + dp(S) == (S == K ? 0.0 : 1.0), "digital call+put at S=", S);
    src.nontrivial(S != S2);
}

PROP(C01, throughOptions, 150000, 3000000, 64, "any contract of the ten kinds") {
    Contract c; c.kind = static_cast<int>(src.below(kKinds)); c.call = !src.flag(); c.ticker = "PAY";
    md()->addStock("PAY", price(src), 0.2);
    c.T = src.real(0, 5); c.K = strike(src); c.K2 = c.K + src.real(0, 50); c.B = price(src);
    c.dir = src.flag() ? BarrierDirection::Down : BarrierDirection::Up;
    const auto o = c.make();
    PayoffSpec p; p.call = c.call; p.K = c.K; p.K2 = c.K2;
    p.kind = c.kind == Digital ? 1 : c.kind == DoubleDigital ? 2 : c.kind == FloatLookback ? 3 : 0;
    for (int i = 0; i < 4; ++i) {
        const double S = spot(src, c.K), x = spot(src, S > 0 ? S : 1.0);
        if (i == 0) src.note(c.str(), " S=", S);
        if (p.kind == 3) { REQUIRE(close(o->payoff(S, x), p.value(S, x), 1e-15), c.str(), " payoff(", S, ",", x, ")=", o->payoff(S, x)); }
        else REQUIRE(close(o->payoff(S), p.value(S, x), 1e-15), c.str(), " payoff(", S, ")=", o->payoff(S), " expected ", p.value(S, x));
        checkValue(p, o->getPayoff(), S, x);
    }
    { // a contract released, and another one that may take its place in memory
        Contract d = c; d.K = strike(src); d.K2 = d.K + src.real(0, 50); if (src.flag()) d.call = !d.call;
        const double S = spot(src, c.K), x = spot(src, S > 0 ? S : 1.0);
        auto first = c.make();
        const double before = p.kind == 3 ? first->payoff(S, x) : first->payoff(S);
        REQUIRE(close(before, p.value(S, x), 1e-15), c.str(), " payoff(", S, ")=", before);
        first.reset(); first = d.make();
        PayoffSpec q; q.call = d.call; q.K = d.K; q.K2 = d.K2; q.kind = p.kind;
        const double after = p.kind == 3 ? first->payoff(S, x) : first->payoff(S);
        REQUIRE(close(after, q.value(S, x), 1e-15), d.str(), " made after releasing ", c.str(), ": payoff(", S, ")=", after, " expected ", q.value(S, x));
    }
    if (auto b = std::dynamic_pointer_cast<BarrierOption>(o)) {
        const double S = spot(src, c.B);
        const bool hit = c.dir == BarrierDirection::Up ? S >= c.B : S <= c.B;
        REQUIRE(b->isActive(S) == (c.kind == KnockIn ? hit : !hit), c.str(), " isActive(", S, ")");
    }
    src.nontrivial();
    src.label(kindName(c.kind));
}

PROP(C02, identity, 1500000, 30000000, 0, "the two payoffs share at least the kind or a strike") {
    PayoffSpec a = payoffSpec(src);
    if (src.chance(1, 20)) (src.flag() ? a.K2 : a.K) = src.pick<double>({INFINITY, 1.7e308, 1e-310, 5e-324, -0.0});
    PayoffSpec b = a;
    switch (src.below(7)) { // change nothing, or one thing, or everything
        case 0: break;
        case 1: b.call = !b.call; break;
        case 2: b.K = near(src, b.K > 0 ? b.K : 1.0); if (b.K < 0) b.K = 0; break;
        case 3: b.K2 = near(src, b.K2 > 0 ? b.K2 : 1.0); if (b.K2 < 0) b.K2 = 0; break;
        case 4: b.kind = static_cast<int>(src.below(4)); break;
        case 5: b = payoffSpec(src); break;
        default: std::swap(b.K, b.K2); break;
    }
    for (double* k : {&a.K, &a.K2, &b.K, &b.K2}) if (std::isnan(*k)) *k = 0;
    const auto x = a.make(), y = b.make();
    src.note(a.str(), " vs ", b.str());
    const bool same = a.sameAs(b);
    REQUIRE((*x == *y) == same && (*y == *x) == same, "equality of ", a.str(), " and ", b.str(), " is ", *x == *y, "/", *y == *x);
    REQUIRE((*x != *y) == !same && (*y != *x) == !same, "inequality of ", a.str(), " and ", b.str());
    REQUIRE(*x == *x, "reflexive");
    std::unique_ptr<Payoff> c = x->clone();
    REQUIRE(c.get() != x.get() && *c == *x && typeid(*c) == typeid(*x), "clone equals the original");
    REQUIRE((*c == *y) == same, "clone compares like the original");
    REQUIRE(c->getPayoffType() == x->getPayoffType() && c->getType() == x->getType(), "clone keeps type");
    const double S = std::min(spot(src, a.K), 1.7e308), e = std::min(spot(src, S > 0 ? S : 1.0), 1.7e308);
    checkValue(a, *c, S, e);
    { auto z = b.make(); auto cz = z->clone(); z.reset(); checkValue(b, *cz, S, e); } // clone outlives the original
    auto getters = [&](const PayoffSpec& p, const Payoff& f) {
        REQUIRE(f.getPayoffType() == (p.kind == 2 ? PayoffType::DoubleDigital : p.call ? PayoffType::Call : PayoffType::Put), "payoff type of ", p.str());
        if (auto q = dynamic_cast<const PayoffSingleStrike*>(&f)) REQUIRE(q->getK() == p.K, "getK ", q->getK());
        if (auto q = dynamic_cast<const PayoffDoubleStrikes*>(&f)) REQUIRE(q->getKL() == p.K && q->getKU() == p.K2, "getKL/getKU");
    };
    getters(a, *x); getters(a, *c); getters(b, *y);
    src.nontrivial(a.kind == b.kind || a.K == b.K);
    src.label(same ? "equal" : "different");
}

PROP(C02, rejection, 1500000, 30000000, 0, "at least one argument is outside the domain") {
    auto k = [&]() -> double {
        switch (src.below(5)) { case 0: return strike(src); case 1: return 0.0; case 2: return -price(src);
            case 3: return NaN; default: return src.pick({-5e-324, -1e-300, -1e300, 5e-324}); }
    };
    const int kind = static_cast<int>(src.below(4));
    const auto type = src.pick({PayoffType::Call, PayoffType::Put, PayoffType::DoubleDigital});
    const double K = k(), K2 = k();
    src.note("kind=", kind, " type=", static_cast<int>(type), " K=", K, " K2=", K2);
    bool valid = true;
    if (kind != 2) valid = type != PayoffType::DoubleDigital;
    if (kind == 0 || kind == 1) valid = valid && K >= 0;
    if (kind == 2) valid = K >= 0 && K2 >= 0;
    bool threw = false;
    try {
        switch (kind) {
            case 0: { PayoffVanilla p(type, K); break; }
            case 1: { PayoffDigital p(type, K); break; }
            case 2: { PayoffDoubleDigital p(K, K2); break; }
            default: { PayoffLookbackFloatingStrike p(type); break; }
        }
    } catch (const std::invalid_argument&) { threw = true; }
    REQUIRE(threw == !valid, threw ? "rejected a valid payoff" : "accepted an invalid payoff", " kind=", kind, " type=", static_cast<int>(type), " K=", K, " K2=", K2);
    src.nontrivial(!valid);
    src.label(valid ? "valid" : "invalid");
}

// ---------------------------------------------------------------- C06
PROP(C06, factories, 250000, 5000000, 32, "exactly one thing about the request is wrong, or it is valid with a boundary value") {
    // one known ticker, several unknown ones
    const std::string known = src.pick({std::string("AAPL"), std::string("X"), std::string("BRK-B"), std::string("AVERYLONGTICKERNAMETHATGOESONANDON1")});
    md()->addStock(known, price(src), src.real(0, 1));
    if (src.below(4) == 0) md()->addStock("OTHER", price(src), src.real(0, 1), 0.5); // one more known ticker
    Contract c; c.kind = static_cast<int>(src.below(kKinds)); c.call = !src.flag(); c.ticker = known;
    c.T = src.below(3) < 2 ? src.pick({1.0, 0.0, 0.25, 5e-324, 30.0, 1000.0, std::numeric_limits<double>::infinity()}) : src.logreal(1e-9, 1e4);
    c.K = strike(src); c.K2 = src.flag() ? strike(src) : c.K + 10; c.B = src.chance(1, 6) ? src.pick({0.0, -1.0, 1e-300, -100.0, 1e300, std::numeric_limits<double>::infinity()}) : price(src);
    c.dir = src.flag() ? BarrierDirection::Down : BarrierDirection::Up;
    using P = ParameterObject::Parameter;
    std::map<std::string, P> ps{{"ticker", c.ticker}, {"T", c.T}};
    if (c.kind == DoubleDigital) { ps["K1"] = c.K; ps["K2"] = c.K2; } else if (c.kind != FloatLookback) ps["K"] = c.K;
    if (c.kind == KnockIn || c.kind == KnockOut) { ps["B"] = c.B; ps["direction"] = c.dir; }
    std::vector<std::string> names; for (auto& kv : ps) names.push_back(kv.first);
    bool valid = true; std::string what = "valid";
    switch (src.below(7)) {
        case 0: break;
        case 1: { const auto n = src.pick(names); ps.erase(n); valid = false; what = "missing " + n; break; }
        case 2: { const auto n = src.pick(names); // wrong type
            const P cur = ps[n]; P w;
            do { w = src.pick<P>({P(7), P(std::string("1.0")), P(1.5), P(BarrierDirection::Down)}); if (w.index() == cur.index()) w = cur.index() == 0 ? P(1.5) : P(7); } while (w.index() == cur.index());
            ps[n] = w; valid = false; what = cat("wrong type for ", n, " (alternative ", w.index(), ")"); break; }
        case 3: { ps["ticker"] = std::string(src.pick({"", "NOPE", "aapl", "AAPL ", "AAP", "x", " AAPL", "AVERYLONGTICKERNAMETHATGOESONANDON2", "BRK.B"})); valid = false; what = "unknown ticker '" + std::get<std::string>(ps["ticker"]) + "'"; break; }
        case 4: { ps["T"] = src.pick({-1.0, -5e-324, -1e-9, NaN, -std::numeric_limits<double>::infinity()}); valid = false; what = cat("T=", std::get<double>(ps["T"])); break; }
        case 5: { if (c.kind == FloatLookback) break;
            const auto n = c.kind == DoubleDigital ? src.pick({std::string("K1"), std::string("K2")}) : std::string("K");
            ps[n] = src.pick({-1.0, -5e-324, -100.0, NaN}); valid = false; what = cat(n, "=", std::get<double>(ps[n])); break; }
        default: { // ignored: parameters of other kinds of option, other spellings, other things altogether
            what = "extra parameters";
            static const std::vector<std::string> others{"unused", "k", "K", "K1", "K2", "K_L", "K_U", "KL", "KU", "B", "barrier", "direction", "strike", "Strike", "t", "maturity", "Ticker", "id", "S", "S0", "r", "sigma", "type", "coupon", ""};
            const int n = static_cast<int>(src.range(1, 4));
            for (int i = 0; i < n; ++i) { const auto x = src.pick(others); if (std::find(names.begin(), names.end(), x) != names.end()) continue;
                ps[x] = src.pick<P>({P(src.real(-200, 200)), P(3), P(std::string("put")), P(BarrierDirection::Up), P(1.0), P(NaN)}); what += " " + (x.empty() ? std::string("''") : x); }
            break; }
    }
    if (!valid && src.chance(1, 3)) { // what is wrong is not made good by something of another name
        static const std::vector<std::string> like{"K", "K1", "K2", "K3", "KL", "KU", "B", "B1", "T1", "t", "Ticker", "tickers", "direction", "Direction", "dir", "k", "k1", "maturity", "strike", ""};
        for (int i = static_cast<int>(src.range(1, 4)); i > 0; --i) { const auto x = src.pick(like); if (std::find(names.begin(), names.end(), x) != names.end()) continue;
            ps[x] = src.pick<P>({P(src.real(1, 200)), P(1.0), P(known), P(BarrierDirection::Up), P(5)}); what += " with '" + x + "'"; }
    }
    ParameterObject po; for (auto& kv : ps) po.setParameter(kv.first, kv.second);
    src.note(c.str(), " request: ", what);
    std::shared_ptr<Option> o; bool threw = false;
    try { o = create(c.kind, c.call, po); } catch (const std::invalid_argument& e) { threw = true; REQUIRE(std::string(e.what()).size() > 0, "empty message"); }
    REQUIRE(threw == !valid, c.str(), " (", what, "): ", threw ? "rejected" : "accepted");
    if (o) {
        REQUIRE(o->getT() == c.T && o->getID() == c.ticker, "maturity ", o->getT(), " ticker ", o->getID());
        const Payoff& f = o->getPayoff();
        REQUIRE(f.getPayoffType() == (c.kind == DoubleDigital ? PayoffType::DoubleDigital : c.call ? PayoffType::Call : PayoffType::Put), "side of ", c.str());
        if (c.kind == DoubleDigital) { auto q = dynamic_cast<const PayoffDoubleDigital*>(&f); REQUIRE(q && q->getKL() == c.K && q->getKU() == c.K2, "strikes"); }
        else if (c.kind == FloatLookback) { REQUIRE(dynamic_cast<const PayoffLookbackFloatingStrike*>(&f), "payoff kind"); }
        else if (c.kind == Digital) { auto q = dynamic_cast<const PayoffDigital*>(&f); REQUIRE(q && q->getK() == c.K, "digital strike"); }
        else { auto q = dynamic_cast<const PayoffVanilla*>(&f); REQUIRE(q && q->getK() == c.K, "strike"); }
        bool kindOk = false;
        switch (c.kind) {
            case European: kindOk = !!std::dynamic_pointer_cast<EuropeanOption>(o); break;
            case Digital: kindOk = !!std::dynamic_pointer_cast<DigitalOption>(o); break;
            case DoubleDigital: kindOk = !!std::dynamic_pointer_cast<DoubleDigitalOption>(o); break;
            case American: kindOk = !!std::dynamic_pointer_cast<AmericanOption>(o); break;
            case ArithAsian: kindOk = !!std::dynamic_pointer_cast<ArithmeticAsianOption>(o); break;
            case GeoAsian: kindOk = !!std::dynamic_pointer_cast<GeometricAsianOption>(o); break;
            case KnockIn: kindOk = !!std::dynamic_pointer_cast<KnockInBarrierOption>(o); break;
            case KnockOut: kindOk = !!std::dynamic_pointer_cast<KnockOutBarrierOption>(o); break;
            case FloatLookback: kindOk = !!std::dynamic_pointer_cast<FloatingStrikeLookbackOption>(o); break;
            default: kindOk = !!std::dynamic_pointer_cast<FixedStrikeLookbackOption>(o); break;
        }
        REQUIRE(kindOk, "factory of ", c.str(), " made ", o->getType());
        if (auto b = std::dynamic_pointer_cast<BarrierOption>(o)) {
            for (double S : {c.B, std::nextafter(c.B, 0.0), std::nextafter(c.B, INFINITY), std::nextafter(c.B, -INFINITY)}) {
                const bool hit = c.dir == BarrierDirection::Up ? S >= c.B : S <= c.B;
                REQUIRE(b->isActive(S) == (c.kind == KnockIn ? hit : !hit), c.str(), " barrier at S=", S);
            }
        }
        auto again = create(c.kind, c.call, po); // the request is not consumed
        REQUIRE(again && again != o && *again == *o, "second option from the same request");
    }
    src.nontrivial(!valid || c.T == 0 || c.K == 0 || what != "valid");
    src.label(!valid ? what.substr(0, 7) : what == "valid" ? "valid" : "extra");
    src.label(kindName(c.kind));
}

PROP(C06, parameters, 20000, 400000, 0, "a name is read back after being overwritten") {
    using P = ParameterObject::Parameter;
    ParameterObject po; std::map<std::string, P> model;
    const int n = static_cast<int>(src.range(1, 14));
    bool over = false;
    for (int i = 0; i < n; ++i) {
        const std::string name = src.pick({std::string("K"), std::string("T"), std::string("ticker"), std::string(""), std::string("k")});
        P v;
        switch (src.below(4)) { case 0: v = static_cast<int>(src.range(-3, 3)); break; case 1: v = src.real(-1e3, 1e3); break;
            case 2: v = src.pick({std::string(""), std::string("AAPL"), std::string("100.0")}); break; default: v = src.flag() ? BarrierDirection::Down : BarrierDirection::Up; }
        if (src.below(4) != 0) { over = over || model.count(name); po.setParameter(name, v); model[name] = v; src.note("set '", name, "' alternative ", v.index()); }
        for (const char* m : {"K", "T", "ticker", "", "k", "none"}) {
            auto it = model.find(m);
            REQUIRE(po.hasParameter(m) == (it != model.end()), "hasParameter(", m, ")");
            auto check = [&]<class T>(T*) {
                std::optional<T> got; bool threw = false;
                try { got = po.getParameter<T>(m); } catch (const std::invalid_argument&) { threw = true; }
                const bool ok = it != model.end() && std::holds_alternative<T>(it->second);
                REQUIRE(threw == !ok, "getParameter('", m, "') ", threw ? "rejected" : "accepted");
                if (ok) REQUIRE(*got == std::get<T>(it->second), "value of '", m, "'");
            };
            check(static_cast<int*>(nullptr)); check(static_cast<double*>(nullptr)); check(static_cast<std::string*>(nullptr)); check(static_cast<BarrierDirection*>(nullptr));
        }
    }
    src.nontrivial(over);
}

// ---------------------------------------------------------------- C07
namespace {
bool sameContract(const Contract& a, const Contract& b) {
    if (a.kind != b.kind || a.ticker != b.ticker || a.T != b.T) return false;
    if (a.kind == DoubleDigital) return a.K == b.K && a.K2 == b.K2;
    if (a.call != b.call) return false;
    if (a.kind == FloatLookback) return true;
    if (a.K != b.K) return false;
    if (a.kind == KnockIn || a.kind == KnockOut) return a.B == b.B && a.dir == b.dir;
    return true;
}
Contract contract(Src& src, const std::vector<std::string>& tickers) {
    Contract c; c.kind = static_cast<int>(src.below(kKinds)); c.call = !src.flag(); c.ticker = src.pick(tickers);
    c.T = src.below(4) < 3 ? src.pick({1.0, 0.5, 0.0, 2.0}) : src.logreal(1e-6, 1e3); c.K = src.flag() ? 100.0 : strike(src); c.K2 = c.K + src.pick({20.0, 0.0, 5.0}); c.B = src.flag() ? 110.0 : src.chance(1, 4) ? src.pick({0.0, -1.0, 1e300}) : price(src);
    c.dir = src.flag() ? BarrierDirection::Down : BarrierDirection::Up;
    return c;
}
}  // namespace

PROP(C07, equality, 300000, 6000000, 32, "the two contracts differ in at most one term") {
    // two tickers, often with identical quotes
    const double S = price(src), sig = src.real(0, 1);
    md()->addStock("E1", S, sig);
    if (src.flag()) md()->addStock("E2", S, sig); else md()->addStock("E2", price(src), src.real(0, 1), 0.02);
    const std::vector<std::string> tk{"E1", "E2"};
    const Contract a = contract(src, tk);
    Contract b = a; int mut = static_cast<int>(src.below(10));
    switch (mut) {
        case 0: break;
        case 1: b.kind = static_cast<int>(src.below(kKinds)); break;
        case 2: b.call = !b.call; break;
        case 3: b.ticker = b.ticker == "E1" ? "E2" : "E1"; break;
        case 4: b.T = std::fabs(near(src, b.T > 0 ? b.T : 1.0)); break;
        case 5: b.K = std::fabs(near(src, b.K > 0 ? b.K : 1.0)); break;
        case 6: b.K2 = std::fabs(near(src, b.K2 > 0 ? b.K2 : 1.0)); break;
        case 7: b.B = near(src, b.B); break;
        case 8: b.dir = b.dir == BarrierDirection::Up ? BarrierDirection::Down : BarrierDirection::Up; break;
        default: b = contract(src, tk); break;
    }
    src.note(a.str(), "  vs  ", b.str());
    const auto x = a.make(), y = b.make();
    auto check = [&](const char* when) {
        const bool same = sameContract(a, b);
        REQUIRE((*x == *y) == same && (*y == *x) == same, when, ": ", a.str(), " == ", b.str(), " gives ", *x == *y, "/", *y == *x);
        REQUIRE((*x != *y) == !same && (*y != *x) == !same, when, ": operator!= of ", a.str(), " and ", b.str());
        REQUIRE(*x == *x && *y == *y && !(*x != *x), when, ": reflexive");
    };
    check("new");
    if (src.flag()) { md()->updateStockPrice(a.ticker, price(src)); if (src.flag()) md()->updateStockCoupon(a.ticker, 0.01); check("after an update"); }
    src.nontrivial(mut != 9);
    src.label(sameContract(a, b) ? "same contract" : "different contract");
}

PROP(C07, quotes, 500000, 10000000, 0, "the two quotes differ in at most one value") {
    auto coupon = [&]() -> std::optional<double> { switch (src.below(4)) { case 0: return std::nullopt; case 1: return src.pick({0.0, 1.0, 0.01}); default: return src.real(0, 1); } };
    double S = price(src), v = src.below(4) ? src.real(0, 2) : src.pick({0.0, 1.0, 5e-324}); auto c = coupon();
    double S2 = S, v2 = v; auto c2 = c; bool few = true;
    switch (src.below(6)) {
        case 0: break;
        case 1: S2 = near(src, S); if (!(S2 > 0)) S2 = S; break;
        case 2: v2 = std::fabs(near(src, v)); break;
        case 3: c2 = coupon(); break;
        case 4: if (c) c2 = std::min(1.0, std::fabs(near(src, *c))); else c2 = 0.0; break;
        default: S2 = price(src); v2 = src.real(0, 2); c2 = coupon(); few = false; break;
    }
    src.note("(", S, ",", v, ",", c ? cat(*c) : "none", ") vs (", S2, ",", v2, ",", c2 ? cat(*c2) : "none", ")");
    const StockData a(S, v, c), b(S2, v2, c2);
    const bool same = S == S2 && v == v2 && c == c2;
    REQUIRE((a == b) == same && (b == a) == same, "quotes compare ", a == b, "/", b == a, ", expected ", same);
    REQUIRE((a != b) == !same && (b != a) == !same, "inequality of quotes");
    src.nontrivial(few);
    src.label(same ? "same" : "different");
}

PROP(C07, report, 250000, 5000000, 32, "the quotes changed after the option was created") {
    const double S = price(src), sig = src.real(0, 1);
    std::optional<double> c; if (src.flag()) c = src.real(0, 1);
    double r = src.real(-0.05, 0.2), S2 = S, sig2 = sig;
    md()->addStock("R1", S, sig, c);
    md()->addStock("R2", price(src), src.real(0, 1), 0.5);
    md()->setR(r);
    const Contract k = contract(src, {"R1"});
    const auto o = k.make();
    const int n = static_cast<int>(src.range(0, 4)); bool changed = false;
    for (int i = 0; i < n; ++i) {
        switch (src.below(6)) {
            case 5: S2 = price(src); sig2 = src.real(0, 1); if (src.flag()) c = src.real(0, 1); else c.reset(); md()->addStock("R1", S2, sig2, c); changed = true; break;
            case 0: S2 = price(src); md()->updateStockPrice("R1", S2); changed = true; break;
            case 1: sig2 = src.real(0, 1); md()->updateStockSigma("R1", sig2); changed = true; break;
            case 2: if (src.flag()) c = src.real(0, 1); else c.reset(); md()->updateStockCoupon("R1", c); changed = true; break;
            case 3: r = src.real(-0.05, 0.2); md()->setR(r); changed = true; break;
            default: md()->updateStockPrice("R2", price(src)); break;
        }
    }
    src.note(k.str(), " S=", S2, " sigma=", sig2, " coupon=", c.value_or(-1), " r=", r);
    // the stream may have a number format of its own, which the report may follow and must leave alone
    const int digits = src.chance(1, 3) ? static_cast<int>(src.range(0, 17)) : 6; const auto form = src.chance(1, 3) ? src.pick({std::ios::fixed, std::ios::scientific}) : std::ios::fmtflags{}; const bool plus = src.chance(1, 8);
    auto shape = [&](std::ostream& q) { q.precision(digits); q.setf(form, std::ios::floatfield); if (plus) q.setf(std::ios::showpos); };
    if (digits != 6 || plus || form != std::ios::fmtflags{}) { src.note("precision ", digits, form == std::ios::fixed ? " fixed" : form == std::ios::scientific ? " scientific" : "", plus ? " showpos" : ""); src.label("own number format"); }
    std::ostringstream os; shape(os); const auto flags = os.flags();
    os << *o;
    REQUIRE(os.flags() == flags && os.precision() == digits && os.fill() == ' ' && os.width() == 0 && os.good(), "printing changed the format or the state of the stream");
    { std::ostringstream again; shape(again); again << *o; REQUIRE(again.str() == os.str(), "printed again, the report differs"); }
    std::istringstream is(os.str());
    // section -> (field -> value)
    std::map<std::string, std::map<std::string, std::string>> got; std::string sec, line;
    while (std::getline(is, line)) {
        const auto colon = line.find(':');
        if (line.empty() || colon == std::string::npos) continue;
        if (line.compare(0, 1, " ") != 0) { sec = line.substr(0, colon); got[sec]; continue; }
        auto key = line.substr(0, colon); const auto b = key.find_first_not_of(" ->"); key = b == std::string::npos ? "" : key.substr(b);
        auto val = line.substr(colon + 1); const auto v = val.find_first_not_of(' '); got[sec][key] = v == std::string::npos ? "" : val.substr(v);
    }
    auto num = [](double v) { std::ostringstream q; q << v; return q.str(); }; // a report may follow the format of the stream, or not
    auto own = [&](double v) { std::ostringstream q; shape(q); q << v; return q.str(); };
    auto expect = [&](const std::string& s, const std::string& f, const std::string& v) {
        REQUIRE(got[s].count(f) && got[s][f] == v, s, "/", f, " is '", got[s].count(f) ? got[s][f] : "(absent)", "' expected '", v, "' in report of ", k.str(), ":\n", os.str());
    };
    auto shows = [&](const std::string& s, const std::string& f, double v, const std::string& unit = "") { if (got[s].count(f) && got[s][f] == own(v) + unit) return; expect(s, f, num(v) + unit); };
    expect("Option", "Type", o->getType());
    shows("Option", "Expiration", k.T, " year");
    expect("Payoff", "Type", k.kind == DoubleDigital ? "DoubleDigital" : k.call ? "Call" : "Put");
    if (k.kind == DoubleDigital) { shows("Payoff", "Lower Strike", k.K); shows("Payoff", "Upper Strike", k.K2); }
    else if (k.kind != FloatLookback) {
        bool found = false; for (auto& kv : got["Payoff"]) found = found || (kv.first != "Type" && (kv.second == num(k.K) || kv.second == own(k.K)));
        REQUIRE(found, "strike ", k.K, " not in the report:\n", os.str());
    }
    expect("Stock", "Ticker", "R1"); shows("Stock", "Price", S2); shows("Stock", "Volatility", sig2);
    if (c) shows("Stock", "Coupon", *c); else REQUIRE(!got["Stock"].count("Coupon"), "coupon reported for a stock without one");
    shows("MarketData", "Risk Free Interest Rate", r);
    const char* cls[] = {"EuropeanOption", "DigitalOption", "DoubleDigitalOption", "AmericanOption", "ArithmeticAsianOption", "GeometricAsianOption", "KnockInBarrierOption", "KnockOutBarrierOption", "FloatingStrikeLookbackOption", "FixedStrikeLookbackOption"};
    const std::string t = o->getType();
    REQUIRE(t == cls[k.kind] || (t.size() > std::string(cls[k.kind]).size() + 2 && t.substr(t.size() - std::string(cls[k.kind]).size() - 2) == std::string("::") + cls[k.kind]), "type name ", t);
    src.nontrivial(changed);
    src.label(c ? "with coupon" : "without coupon");
}
