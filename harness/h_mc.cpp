// C15 pricers on given paths, C16 Monte Carlo prices end to end, C18 builders and solver
#include <map>
#include <algorithm>
#include <array>
#include "mc.h"

using namespace mc;
using pbt::Src; using pbt::cat; using pbt::throwsA; using pbt::close;

static Contract contract(Src& s, int kind, double S0) {
    Contract c; c.kind = kind; c.call = s.flag();
    c.K = s.pick({S0, S0 * 1.1, S0 * 0.9, S0 * s.real(0.4, 1.8)});
    c.K2 = c.K * s.pick({1.2, 1.05, s.real(1.01, 2)});
    c.B = s.pick({S0, S0 * 1.15, S0 * 0.85, S0 * s.real(0.5, 1.6)});
    c.dir = s.flag() ? BarrierDirection::Down : BarrierDirection::Up;
    c.T = s.pick({1.0, 0.5, s.real(0.05, 4)});
    return c;
}
static int nonAmerican(Src& s) { static const int k[] = {European, Digital, DoubleDigital, ArithAsian, GeoAsian, KnockIn, KnockOut, FloatLookback, FixedLookback}; return k[s.below(9)]; }

// ---------------------------------------------------------------- C15
PROP(C15, exact, 600000, 2400000, 0, "at least two paths or two dates, and a nonzero price") {
    Market mk = market(src);
    if (src.flag()) mk.S = 100;
    Contract c = contract(src, nonAmerican(src), mk.S); c.ticker = mk.ticker;
    if (src.chance(1, 12)) c.T = src.pick({0.0, 30.0, 1e-6, 100.0});
    if (src.chance(1, 20)) c.K = 0;
    if (src.chance(1, 12)) { c.K = mk.S * src.logreal(1e-4, 1e4); c.K2 = c.K * src.pick({1.0, 1.0 + 1e-9, 3.0}); c.B = mk.S * src.logreal(1e-4, 1e4); } // far away levels
    if (src.chance(1, 12)) mk.r = src.real(-0.4, 1.2);
    auto m = mk.apply();
    const unsigned steps = static_cast<unsigned>(src.range(1, 8));
    const size_t N = static_cast<size_t>(src.range(1, 6)), calls = static_cast<size_t>(src.range(1, 3));
    auto sm = std::make_shared<Script>(c.ticker, m, steps);
    for (size_t i = 0; i < N * calls; ++i) {
        std::vector<double> p(steps);
        for (auto& x : p) switch (src.below(8)) { // on, just beside, or away from the levels that matter
            case 0: x = c.K; break;
            case 1: x = c.B; break;
            case 2: x = std::nextafter(c.B, 1e300); break;
            case 3: x = std::nextafter(c.B, 0); break;
            case 4: x = c.kind == DoubleDigital ? c.K2 : std::nextafter(c.K, 1e300); break;
            case 5: x = mk.S; break;
            default: x = mk.S * src.real(0.3, 2.2);
        }
        sm->paths.push_back(p);
    }
    auto pr = pricer(c, sm);
    double top = mk.S + c.K; for (auto& p : sm->paths) for (double x : p) top = std::max(top, x);
    src.note(c.str(), " ", mk.str(), " steps=", steps, " N=", N, " calls=", calls);
    src.label(kindName(c.kind));
    double anyPrice = 0;
    for (size_t k = 0; k < calls; ++k) {
        if (k && src.flag()) { mk.r = src.real(-0.05, 0.2); m->setR(mk.r); src.note("rate ", mk.r); } // the price follows the market
        if (k && src.chance(1, 3)) { mk.S *= src.real(0.4, 2); mk.sigma = src.real(0, 1); m->addStock(mk.ticker, mk.S, mk.sigma, mk.c); src.note("quote ", mk.S); } // given paths: quotes do not matter
        double sum = 0, scale = 0;
        std::string ps;
        for (size_t i = 0; i < N; ++i) { const double v = pathPayoff(c, sm->paths[k * N + i]); sum += v; scale = std::max(scale, std::fabs(v)); }
        const double want = std::exp(-mk.r * c.T) * sum / static_cast<double>(N);
        if (src.verbose) for (size_t i = 0; i < N; ++i) { ps += i ? " | " : ""; for (double x : sm->paths[k * N + i]) ps += cat(x, " "); }
        src.note("paths ", ps);
        const double got = pr->calculatePrice(N);
        anyPrice = std::max(anyPrice, want);
        REQUIRE(close(got, want, 1e-11, 1e-11 * top * std::exp(-mk.r * c.T)), "price ", got, ", the discounted mean payoff of the paths is ", want);
        REQUIRE(sm->next == (k + 1) * N, sm->next, " paths simulated, ", (k + 1) * N, " asked for");
        for (double t : sm->asked) REQUIRE(t == c.T, "simulated to ", t, " instead of ", c.T);
    }
    src.nontrivial((N > 1 || steps > 1) && anyPrice > 0);
}
// Long paths and many of them, over a wide range of price levels
PROP(C15, large, 6000, 120000, 0, "more than 100 dates or more than 100 paths") {
    Market mk = market(src, 0.8, true); if (src.chance(1, 4)) mk.S = src.logreal(1e-12, 1e12);
    const bool fine = src.chance(1, 60);
    Contract c = contract(src, fine && src.flag() ? (src.flag() ? KnockIn : KnockOut) : nonAmerican(src), mk.S); c.ticker = mk.ticker;
    auto m = mk.apply();
    const bool crowd = !fine && src.chance(1, 60);
    const unsigned steps = static_cast<unsigned>(crowd ? src.range(1, 3) : fine ? src.range(1500, 140000) : src.pick<int64_t>({1, 50, 252, src.range(1, 100), src.range(100, 1500)}));
    const size_t N = fine ? static_cast<size_t>(src.range(1, 3)) : crowd ? static_cast<size_t>(src.range(32000, 140000)) : static_cast<size_t>(src.pick<int64_t>({1, 10, 100, src.range(1, 2000), 5000, 20000})), distinct = std::min<size_t>(N, std::max<size_t>(1, std::min<size_t>(37, 8000 / steps)));
    const double shrink = fine ? 1 / std::sqrt(static_cast<double>(steps)) : 1; // fine paths: extremes and crossings come at any time, not at once
    const double vol = src.pick({0.01, 0.1, 0.3}) * shrink, drift = src.pick({0.0, 0.02, -0.02}) * shrink; std::mt19937_64 rng(src.seed32()); std::normal_distribution<> nd;
    auto sm = std::make_shared<Script>(c.ticker, m, steps);
    for (size_t i = 0; i < distinct; ++i) { std::vector<double> p(steps); double X = 0; for (auto& x : p) { X = std::clamp(X + drift + vol * nd(rng), -12.0, 12.0); x = mk.S * std::exp(X); } sm->paths.push_back(p); }
    if ((c.kind == KnockIn || c.kind == KnockOut) && src.flag()) { // a barrier that the first path reaches only at its extreme
        const auto& p = sm->paths[0]; c.B = c.dir == BarrierDirection::Up ? *std::max_element(p.begin(), p.end()) : *std::min_element(p.begin(), p.end());
        if (src.flag()) { c.call = c.dir == BarrierDirection::Up; c.K = p.back() * (c.call ? 0.5 : 2); }
    }
    src.note(c.str(), " ", mk.str(), " steps=", steps, " N=", N);
    src.label(kindName(c.kind));
    src.nontrivial(steps > 100 || N > 100);
    long double sum = 0; double scale = 0; std::vector<double> v(distinct);
    for (size_t i = 0; i < distinct; ++i) { v[i] = pathPayoff(c, sm->paths[i]); scale = std::max(scale, std::fabs(v[i])); for (double x : sm->paths[i]) scale = std::max(scale, c.kind == Digital || c.kind == DoubleDigital ? 1.0 : x); }
    for (size_t i = 0; i < N; ++i) sum += v[i % distinct];
    const double want = std::exp(-mk.r * c.T) * static_cast<double>(sum) / static_cast<double>(N);
    auto pr = pricer(c, sm);
    const double got = pr->calculatePrice(N);
    REQUIRE(close(got, want, 1e-9, 1e-11 * scale * std::exp(-mk.r * c.T)), "price ", got, ", the discounted mean payoff of the paths is ", want);
    REQUIRE(sm->next == N, sm->next, " paths simulated, ", N, " asked for");
}
// Relations that hold path by path, for every model and seed
PROP(C15, relations, 8000, 80000, 0, "the compared prices are not all zero") {
    const Market mk = market(src);
    const Spec sp = spec(src, static_cast<int>(src.below(kModels)), mk.sigma);
    auto m = mk.apply();
    const unsigned steps = static_cast<unsigned>(src.pick<int64_t>({1, 4, 12, src.range(1, 30)})), seed = src.seed32();
    const size_t N = static_cast<size_t>(src.pick({1, 20, 200}));
    Contract c = contract(src, European, mk.S); c.ticker = mk.ticker;
    src.note(sp.str(), " ", mk.str(), " ", c.str(), " steps=", steps, " N=", N, " seed=", seed);
    src.label(mname(sp.kind));
    auto P = [&](int kind, bool call, double K, double K2 = 0) {
        Contract d = c; d.kind = kind; d.call = call; d.K = K; d.K2 = K2 > 0 ? K2 : K * 1.2;
        return pricer(d, sp.make(mk.ticker, m, std::make_shared<PseudoRandomNumberGenerator>(steps, seed)))->calculatePrice(N);
    };
    const double df = std::exp(-mk.r * c.T), K = c.K, K2 = c.K2, Km = 0.5 * (K + K2);
    const double call = P(European, true, K), put = P(European, false, K), call2 = P(European, true, K2), put2 = P(European, false, K2), callm = P(European, true, Km);
    const double tol = 1e-9 * (mk.S + call + put + K2);
    src.nontrivial(call + put > 0);
    REQUIRE(close((call - put) - (call2 - put2), df * (K2 - K), 1e-9, tol), "put-call parity between strikes: ", (call - put) - (call2 - put2), " and ", df * (K2 - K));
    REQUIRE(call >= call2 - tol && put <= put2 + tol, "prices not monotone in the strike");
    REQUIRE(callm <= 0.5 * (call + call2) + tol, "calls not convex in the strike");
    const double in = P(KnockIn, c.call, K), out = P(KnockOut, c.call, K), van = c.call ? call : put;
    REQUIRE(close(in + out, van, 1e-9, tol), "knock-in ", in, " + knock-out ", out, " is not the vanilla ", van);
    const double dc = P(Digital, true, K), dp = P(Digital, false, K), dd = P(DoubleDigital, true, K, K2);
    REQUIRE(dc + dp <= df * (1 + 1e-12) && dc >= 0 && dp >= 0, "digitals ", dc, " ", dp);
    const double dc2 = P(Digital, true, K2);
    REQUIRE(close(dd, df - dp - dc2, 1e-9, 1e-9), "double digital ", dd, ", below ", dp, " and above ", dc2, " do not add up to ", df);
    const double ac = P(ArithAsian, true, K), gc = P(GeoAsian, true, K), ap = P(ArithAsian, false, K), gp = P(GeoAsian, false, K);
    REQUIRE(ac >= gc - tol && ap <= gp + tol, "arithmetic and geometric averages out of order: ", ac, " ", gc, " ", ap, " ", gp);
    const double lc = P(FixedLookback, true, K), lp = P(FixedLookback, false, K), fc = P(FloatLookback, true, K), fp = P(FloatLookback, false, K);
    REQUIRE(lc >= call - tol && lp >= put - tol && lc >= ac - tol && lp >= ap - tol, "lookback below vanilla or Asian");
    REQUIRE(fc >= -tol && fp >= -tol, "negative lookback");
    if (steps == 1) REQUIRE(close(ac, call, 1e-9, tol) && close(gc, call, 1e-9, tol) && close(lc, call, 1e-9, tol) && std::fabs(fc) <= tol && std::fabs(fp) <= tol, "one date: Asian and lookback must be vanilla");
}

// ---------------------------------------------------------------- C16
namespace {
struct Mom { double m1, m2; }; // undiscounted mean and second moment of a payoff on a lognormal with log-mean mu, log-variance v
Mom lognormalPayoff(const Contract& c, double mu, double v) {
    const double sd = std::sqrt(v), d2 = (mu - std::log(c.K)) / sd, d1 = d2 + sd, d0 = d1 + sd;
    const double F = std::exp(mu + 0.5 * v), F2 = std::exp(2 * mu + 2 * v);
    if (c.kind == Digital) { const double p = ref::ncdf(c.call ? d2 : -d2); return {p, p}; }
    if (c.kind == DoubleDigital) { const double p = ref::ncdf(d2) - ref::ncdf((mu - std::log(c.K2)) / sd); return {p, p}; }
    const double s = c.call ? 1 : -1;
    return {s * (F * ref::ncdf(s * d1) - c.K * ref::ncdf(s * d2)), F2 * ref::ncdf(s * d0) - 2 * c.K * F * ref::ncdf(s * d1) + c.K * c.K * ref::ncdf(s * d2)};
}
}  // namespace
// Closed forms under GBM: vanilla, digital, double digital, geometric Asian; through builder and solver
PROP(C16, closed_form, 1600, 8000, 0, "neither worthless nor certain") {
    Market mk = market(src, 0.5); if (mk.sigma < 0.02) mk.sigma = 0.2;
    const int kind = src.pick<int>({European, Digital, DoubleDigital, GeoAsian});
    Contract c = contract(src, kind, mk.S); c.ticker = mk.ticker; c.T = src.pick({1.0, 0.5, src.real(0.1, 2)});
    const bool dflt = src.chance(1, 8); // the builder's own model: daily to weekly dates, random seed
    const unsigned steps = dflt ? 52 : static_cast<unsigned>(src.pick<int64_t>({1, 2, 12, src.range(1, 25)})), seed = src.seed32();
    src.note(c.str(), " ", mk.str(), " steps=", steps, " seed=", seed, dflt ? " default model" : "");
    src.label(kindName(kind));
    auto m = mk.apply();
    const double n = steps, nu = mk.b() - 0.5 * mk.sigma * mk.sigma;
    const double mu = std::log(mk.S) + nu * c.T * (kind == GeoAsian ? (n + 1) / (2 * n) : 1.0);
    const double v = mk.sigma * mk.sigma * c.T * (kind == GeoAsian ? (n + 1) * (2 * n + 1) / (6 * n * n) : 1.0);
    const Mom mo = lognormalPayoff(c, mu, v);
    const double df = std::exp(-mk.r * c.T), sd = std::sqrt(std::max(0.0, mo.m2 - mo.m1 * mo.m1));
    src.nontrivial(mo.m1 > 1e-3 * (kind == Digital || kind == DoubleDigital ? 1 : mk.S));
    // a payoff that depends on a handful of paths decides nothing
    const double itm = kind == DoubleDigital ? mo.m1 : ref::ncdf((c.call ? 1 : -1) * (mu - std::log(c.K)) / std::sqrt(v));
    if (itm < 0.004 || ((kind == Digital || kind == DoubleDigital) && itm > 0.996)) { src.label("too rare"); return; }
    auto run = [&](unsigned s, unsigned long N) {
        auto b = builder(builderOf(kind));
        b->setOption(c.make());
        if (!dflt) b->setStockPriceModel(std::make_shared<GeometricBrownianMotionModel>(mk.ticker, m, std::make_shared<PseudoRandomNumberGenerator>(steps, s)));
        MCSolver solver(N);
        solver.setPricer(b->build());
        return solver.solve();
    };
    auto z = [&](double price, double N) { return std::fabs(price / df - mo.m1) / (sd / std::sqrt(N) + 30 * std::max(sd, 1e-6 * mk.S) / N); };
    const unsigned long N = 1500000 / (steps + 10);
    const double p = run(seed, N);
    if (z(p, static_cast<double>(N)) > 6) {
        const double q = run(seed ^ 0x68bc21ebu, 6 * N);
        REQUIRE(z(q, 6.0 * static_cast<double>(N)) < 6.5, "Monte Carlo price ", q, ", closed form ", df * mo.m1, ", standard error ", df * sd / std::sqrt(6.0 * static_cast<double>(N)));
    }
}
// No closed form: against the harness's own simulation of the same dates
PROP(C16, own_simulation, 1000, 6000, 0, "neither worthless nor certain") {
    Market mk = market(src, 0.5); if (mk.sigma < 0.02) mk.sigma = 0.2;
    const int kind = src.pick<int>({ArithAsian, KnockIn, KnockOut, FloatLookback, FixedLookback});
    Contract c = contract(src, kind, mk.S); c.ticker = mk.ticker; c.T = src.pick({1.0, 0.5, src.real(0.1, 2)});
    const unsigned steps = static_cast<unsigned>(src.pick<int64_t>({1, 2, 12, src.range(1, 25)})), seed = src.seed32();
    src.note(c.str(), " ", mk.str(), " steps=", steps, " seed=", seed);
    src.label(kindName(kind));
    auto m = mk.apply();
    const double df = std::exp(-mk.r * c.T), dt = c.T / steps, nu = mk.b() - 0.5 * mk.sigma * mk.sigma;
    auto lib = [&](unsigned s, unsigned long N) {
        MCSolver solver(N);
        solver.setPricer(pricer(c, std::make_shared<GeometricBrownianMotionModel>(mk.ticker, m, std::make_shared<PseudoRandomNumberGenerator>(steps, s))));
        return solver.solve();
    };
    double paying = 0;
    auto own = [&](unsigned s, unsigned long N) {
        std::mt19937_64 rng(s); std::normal_distribution<> nd; Stat st; std::vector<double> p(steps); paying = 0;
        for (unsigned long i = 0; i < N; ++i) { double X = std::log(mk.S); for (auto& x : p) { X += nu * dt + mk.sigma * std::sqrt(dt) * nd(rng); x = std::exp(X); } const double y = pathPayoff(c, p); paying += y > 0; st.add(df * y); }
        paying /= static_cast<double>(N);
        return st;
    };
    const unsigned long N = 800000 / (steps + 8);
    auto z = [&](double a, const Stat& b) { const double sd = std::sqrt(b.s2 / b.n); return std::fabs(a - b.m) / (std::sqrt(2 / b.n) * sd + 60 * std::max(sd, 1e-6 * mk.S) / b.n); };
    const Stat o = own(seed + 1, N);
    src.nontrivial(o.m > 1e-3 * mk.S);
    if (paying < 0.006) { src.label("too rare"); return; } // a handful of paths decides nothing
    if (z(lib(seed, N), o) > 6) {
        const Stat o2 = own(seed ^ 0x1f83d9abu, 6 * N); const double l2 = lib(seed ^ 0x5be0cd19u, 6 * N);
        REQUIRE(z(l2, o2) < 6.5, "Monte Carlo price ", l2, ", own simulation ", o2.m, " +- ", o2.se());
    }
}
// The harness's own simulation on the same normal draws: batch by batch the difference of the two prices has mean zero
// however the library orders its draws, and vanishes when the paths agree
PROP(C16, coupled, 60000, 600000, 0, "neither worthless nor certain") {
    const Market mk = market(src, 0.5, true);
    Contract c = contract(src, nonAmerican(src), mk.S); c.ticker = mk.ticker; if (src.chance(1, 10)) c.T = src.logreal(1e-3, 30);
    const unsigned steps = static_cast<unsigned>(src.pick<int64_t>({1, 2, 12, src.range(1, 60)})), seed = src.seed32();
    src.note(c.str(), " ", mk.str(), " steps=", steps, " seed=", seed);
    src.label(kindName(c.kind));
    auto m = mk.apply();
    const double df = std::exp(-mk.r * c.T), dt = c.T / steps, nu = mk.b() - 0.5 * mk.sigma * mk.sigma;
    // prices within rounding of a level decide nothing
    auto levels = [&](double x) { return close(x, c.K, 1e-12) || close(x, c.K2, 1e-12) || close(x, c.B, 1e-12); };
    double size = 0; bool coupled = true, tie = false;
    auto run = [&](unsigned sd, int batches, Stat& st) {
        auto tape = std::make_shared<Tape>(steps, sd);
        const auto model = std::make_shared<GeometricBrownianMotionModel>(mk.ticker, m, tape);
        const unsigned long N = 20;
        MCSolver solver(N); solver.setPricer(pricer(c, model));
        std::vector<double> p(steps);
        for (int b = 0; b < batches && coupled && !tie; ++b) {
            tape->log.clear();
            const double lib = solver.solve();
            if (tape->log.size() != N * steps || tape->of('z').size() != N * steps) { coupled = false; return; }
            double own = 0; size_t k = 0;
            for (unsigned long i = 0; i < N; ++i) { double X = 0; for (auto& x : p) { X += nu * dt + mk.sigma * std::sqrt(dt) * tape->log[k++].v; x = mk.S * std::exp(X); tie = tie || levels(x); } own += df * pathPayoff(c, p) / static_cast<double>(N); for (double x : p) size = std::max({size, x * df, c.K * df, mk.S * df}); }
            st.add(lib - own); src.nontrivial(own > 1e-3 * (c.kind == Digital || c.kind == DoubleDigital ? 1 : mk.S));
        }
    };
    Stat st; run(seed, 4, st);
    if (!coupled || tie) return; // drawn some other way: judged by the plain comparison
    const double tol = 1e-9 * (c.kind == Digital || c.kind == DoubleDigital ? df : size);
    auto z = [&](const Stat& x) { return std::fabs(x.m) / (x.se() + tol); };
    if (z(st) > 3) { Stat s2; run(seed ^ 0x68bc21ebu, 400, s2); if (!coupled || tie) return;
        REQUIRE(z(s2) < 8, "Monte Carlo prices differ from the simulation of the same draws by ", s2.m, " +- ", s2.se(), " on average"); }
}
// Low discrepancy points: the error is a small fraction of the Monte Carlo error
PROP(C16, sobol, 2400, 5000, 0, "a price that is not tiny") {
    Market mk = market(src, 0.5); if (mk.sigma < 0.02) mk.sigma = 0.2;
    const int kind = src.pick<int>({European, GeoAsian});
    Contract c = contract(src, kind, mk.S); c.ticker = mk.ticker; c.T = src.pick({1.0, 0.5, src.real(0.1, 2)});
    const unsigned steps = static_cast<unsigned>(src.range(1, 6));
    const unsigned long N = 1ul << src.range(13, 15);
    const unsigned seed = static_cast<unsigned>(N) * static_cast<unsigned>(src.range(1, 8));
    const bool faure = src.chance(1, 3);
    src.note(c.str(), " ", mk.str(), " steps=", steps, " N=", N, " first point=", seed, faure ? " Faure" : " Sobol");
    src.label(cat(kindName(kind), faure ? " Faure" : " Sobol"));
    auto m = mk.apply();
    const double n = steps, nu = mk.b() - 0.5 * mk.sigma * mk.sigma;
    const double mu = std::log(mk.S) + nu * c.T * (kind == GeoAsian ? (n + 1) / (2 * n) : 1.0);
    const double v = mk.sigma * mk.sigma * c.T * (kind == GeoAsian ? (n + 1) * (2 * n + 1) / (6 * n * n) : 1.0);
    const Mom mo = lognormalPayoff(c, mu, v);
    const double df = std::exp(-mk.r * c.T), sd = std::sqrt(std::max(0.0, mo.m2 - mo.m1 * mo.m1));
    const double itm = ref::ncdf((c.call ? 1 : -1) * (mu - std::log(c.K)) / std::sqrt(v));
    if (itm < 0.1) return; // too few points would matter
    src.nontrivial(mo.m1 > 0.01 * mk.S);
    std::shared_ptr<NumberGenerator> g;
    if (faure) g = std::make_shared<FaureGenerator>(steps, seed); else g = std::make_shared<SobolGenerator>(steps, seed);
    const double p = pricer(c, std::make_shared<GeometricBrownianMotionModel>(mk.ticker, m, g))->calculatePrice(N);
    REQUIRE(std::fabs(p / df - mo.m1) <= 1.5 * sd / std::sqrt(static_cast<double>(N)) + 1e-6 * mk.S, "price ", p, ", closed form ", df * mo.m1, ", plain Monte Carlo error ", df * sd / std::sqrt(static_cast<double>(N)),
            " ratio ", std::fabs(p / df - mo.m1) / (sd / std::sqrt(static_cast<double>(N))));
}

// ---------------------------------------------------------------- C18
PROP(C18, wrong_option, 200000, 800000, 0, "an option of another kind, or none") {
    const int b = static_cast<int>(src.below(kBuilders)), kind = static_cast<int>(src.below(kKinds));
    Market mk = market(src); mk.apply();
    Contract c = contract(src, kind, mk.S); c.ticker = mk.ticker;
    auto bl = builder(b);
    const bool preset = src.flag();
    src.note("builder ", b, " option ", kindName(kind), preset ? " after another option" : "");
    const bool fits = builderOf(kind) == b;
    src.nontrivial(!fits);
    if (!preset) REQUIRE(throwsA<std::logic_error>([&] { (void)bl->build(); }), "built without an option");
    if (fits) { bl->setOption(c.make()); REQUIRE(bl->build() != nullptr, "no pricer"); return; }
    auto o = c.make();
    REQUIRE(throwsA<std::invalid_argument>([&] { bl->setOption(o); }), "builder ", b, " accepted a ", kindName(kind));
    if (src.chance(1, 4)) REQUIRE(throwsA<std::invalid_argument>([&] { bl->setOption(nullptr); }), "null option accepted");
}
// Histories of builder calls: each pricer is bound to what was set when it was built, and to nothing left over
PROP(C18, histories, 300000, 600000, 0, "at least two builds from one builder") {
    const int b = static_cast<int>(src.below(kBuilders));
    std::vector<int> kinds; for (int k = 0; k < kKinds; ++k) if (builderOf(k) == b) kinds.push_back(k);
    auto m = md();
    auto fake = std::make_shared<FakeMarket>();
    struct Q { double S, c; };
    std::map<std::string, Q> q, fq;
    double r = src.real(-0.02, 0.1), fr = src.real(-0.02, 0.1);
    m->setR(r); fake->r = fr;
    for (const char* t : {"AAA", "BBB", "CCC"}) {
        q[t] = {src.real(50, 150), src.pick({0.0, 0.03})}; fq[t] = {src.real(50, 150), src.pick({0.0, 0.03})};
        m->addStock(t, q[t].S, 0.0, q[t].c); // no volatility: the default model is deterministic
        fake->data[t] = std::make_shared<StockData>(fq[t].S, 0.0, fq[t].c);
    }
    auto bl = builder(b);
    Contract c; bool have = false, useFake = false, custom = false;
    std::shared_ptr<Script> sm; std::vector<double> path;
    struct Built { std::unique_ptr<MCPricer> p; Contract c; bool fake, custom; std::vector<double> path; std::string t; };
    std::vector<Built> built;
    const int ops = static_cast<int>(src.range(2, 10));
    auto value = [&](const Built& x) {
        const double rr = x.fake ? fr : r;
        std::vector<double> p = x.path;
        const Q& k = x.fake ? fq[x.c.ticker] : q[x.c.ticker];
        // the weekly dates of the default model; for American the exercise value at any date
        const int n = x.custom ? static_cast<int>(p.size()) : 52;
        if (!x.custom) { p.resize(n); for (int i = 0; i < n; ++i) p[i] = k.S * std::exp((rr - k.c) * x.c.T * (i + 1) / n); }
        return std::make_pair(p, rr);
    };
    for (int i = 0; i < ops; ++i) switch (src.below(6)) {
        case 0: {
            c = contract(src, src.pick(kinds), 100); c.ticker = src.pick({"AAA", "BBB", "CCC"});
            bl->setOption(c.make()); have = true; src.note("setOption ", c.str()); break;
        }
        case 1: {
            path.assign(static_cast<size_t>(src.range(1, 4)), 0); for (auto& x : path) x = src.real(40, 180);
            sm = std::make_shared<Script>(src.pick({"AAA", "BBB", "CCC"}), m, static_cast<unsigned>(path.size())); sm->paths = {path};
            bl->setStockPriceModel(sm); custom = true; src.note("setStockPriceModel, ", path.size(), " dates"); break;
        }
        case 2: if (src.flag()) { bl->setStockPriceModel(nullptr); custom = false; path.clear(); src.note("setStockPriceModel none"); } break;
        case 3: useFake = src.flag(); if (useFake) bl->setMarketData(fake); else bl->setMarketData(m); src.note("setMarketData ", useFake ? "fake" : "real"); break;
        default: {
            if (!have) { REQUIRE(throwsA<std::logic_error>([&] { (void)bl->build(); }), "built without an option"); break; }
            auto p = bl->build(); REQUIRE(p != nullptr, "no pricer");
            built.push_back({std::move(p), c, useFake, custom, path, c.ticker}); src.note("build"); break;
        }
    }
    src.nontrivial(built.size() >= 2);
    for (auto& x : built) {
        const auto [p, rr] = value(x);
        const double got = x.p->calculatePrice(static_cast<unsigned long>(src.range(1, 3)));
        double want;
        if (x.c.kind == American) {
            if (x.custom) continue; // judged by the American checks
            // deterministic: the best discounted exercise value over the dates, up to the regression's rounding at ties
            const Q& k = x.fake ? fq[x.c.ticker] : q[x.c.ticker];
            double best = ref::payoffVanilla(x.c.call, k.S, x.c.K);
            for (size_t j = 0; j < p.size(); ++j) best = std::max(best, std::exp(-rr * x.c.T * static_cast<double>(j + 1) / static_cast<double>(p.size())) * ref::payoffVanilla(x.c.call, p[j], x.c.K));
            want = best;
            REQUIRE(got <= best + 1e-6 * (1 + best) && got >= ref::payoffVanilla(x.c.call, k.S, x.c.K) - 1e-9, "American ", got, ", best exercise ", best);
            continue;
        }
        want = std::exp(-rr * x.c.T) * pathPayoff(x.c, p);
        const bool discontinuous = x.c.kind == Digital || x.c.kind == DoubleDigital || x.c.kind == KnockIn || x.c.kind == KnockOut;
        if (discontinuous && !x.custom) { // levels hit to rounding are undecided
            bool tie = false; for (double y : p) for (double L : {x.c.K, x.c.K2, x.c.B}) tie = tie || close(y, L, 1e-9);
            if (tie) continue;
        }
        REQUIRE(close(got, want, 1e-9, 1e-9), "pricer of ", x.c.str(), x.custom ? " with the given model" : " with the default model", x.fake ? " on the injected market" : "", " gives ", got, ", expected ", want);
    }
}
// The American builder's strategies: the pricer uses the regression and the basis last set when it was built
namespace {
struct SpyBasis : BasisFunction { mutable int used = 0; SpyBasis() : BasisFunction(1) {} Eigen::MatrixXd generate(const Eigen::VectorXd& x) const override { ++used; return Eigen::MatrixXd::Constant(x.size(), 1, 1.0); } };
struct SpyRegression : Regression { mutable int used = 0; double value; explicit SpyRegression(double v) : value(v) {} Eigen::VectorXd solve(const Eigen::MatrixXd& A, const Eigen::VectorXd&) const override { ++used; return Eigen::VectorXd::Constant(A.cols(), value); } };
}
PROP(C18, american_strategies, 100000, 1000000, 0, "two builds with different strategies") {
    Market mk = market(src); mk.S = 100; auto m = mk.apply();
    AmericanMCBuilder bl; Contract c = contract(src, American, 100); c.ticker = mk.ticker;
    std::shared_ptr<SpyBasis> bf; std::shared_ptr<SpyRegression> rg; std::shared_ptr<Script> sm;
    struct Built { std::unique_ptr<MCPricer> p; Contract c; std::shared_ptr<SpyBasis> b; std::shared_ptr<SpyRegression> r; std::shared_ptr<Script> s; };
    std::vector<Built> built; bool have = false;
    const int ops = static_cast<int>(src.range(3, 10));
    for (int i = 0; i < ops; ++i) switch (src.below(6)) {
        case 0: c = contract(src, American, 100); c.ticker = mk.ticker; bl.setOption(c.make()); have = true; src.note("setOption ", c.str()); break;
        case 1: rg = std::make_shared<SpyRegression>(src.pick({-1.0, 1e6, 10.0})); bl.setRegressionStrategy(rg); src.note("setRegressionStrategy: continuation value ", rg->value); break;
        case 2: bf = std::make_shared<SpyBasis>(); bl.setBasisFunctionStrategy(bf); src.note("setBasisFunctionStrategy"); break;
        case 3: sm = std::make_shared<Script>(mk.ticker, m, 3u); for (int j = 0; j < 3; ++j) { std::vector<double> p(3); for (auto& x : p) x = src.real(40, 180); sm->paths.push_back(p); } bl.setStockPriceModel(sm); src.note("setStockPriceModel"); break;
        default:
            if (!have) { REQUIRE(throwsA<std::logic_error>([&] { (void)bl.build(); }), "built without an option"); break; }
            if (!(sm && bf && rg)) break;
            built.push_back({bl.build(), c, bf, rg, sm}); REQUIRE(built.back().p != nullptr, "no pricer"); src.note("build");
    }
    src.nontrivial(built.size() >= 2);
    for (auto& x : built) {
        x.s->next = 0; const int b0 = x.b->used, r0 = x.r->used;
        const double got = x.p->calculatePrice(3);
        const double dt = x.c.T / 3, df = std::exp(-mk.r * dt); double sum = 0; bool itm = false, tie = false;
        for (auto& p : x.s->paths) {
            double v = ref::payoffVanilla(x.c.call, p[2], x.c.K);
            for (int j = 1; j >= 0; --j) { const double ex = ref::payoffVanilla(x.c.call, p[static_cast<size_t>(j)], x.c.K); v *= df; if (ex > 0) { itm = true; tie = tie || close(ex, x.r->value, 1e-9); if (ex > x.r->value) v = ex; } }
            sum += v * df / 3;
        }
        if (tie) continue;
        const double want = std::max(ref::payoffVanilla(x.c.call, mk.S, x.c.K), sum);
        if (itm) REQUIRE(x.b->used > b0 && x.r->used > r0, "the basis or the regression set was not used");
        REQUIRE(close(got, want, 1e-9, 1e-9), "pricer of ", x.c.str(), " with continuation value ", x.r->value, " gives ", got, ", expected ", want);
    }
}
PROP(C18, solver, 200000, 400000, 0, "a solver with a pricer") {
    Market mk = market(src); auto m = mk.apply();
    Contract c = contract(src, nonAmerican(src), mk.S); c.ticker = mk.ticker;
    const unsigned long n0 = static_cast<unsigned long>(src.range(1, 50));
    src.note(c.str(), " N=", n0);
    MCSolver s(n0);
    unsigned long n = n0;
    REQUIRE(throwsA<std::logic_error>([&] { (void)s.solve(); }), "solved without a pricer");
    std::shared_ptr<Script> sm;
    const int ops = static_cast<int>(src.range(1, 8));
    bool solved = false;
    for (int i = 0; i < ops; ++i) switch (src.below(4)) {
        case 0: n = static_cast<unsigned long>(src.chance(1, 8) ? 0 : src.range(1, 200)); s.setN(n); src.note("setN ", n); break;
        case 1: {
            sm = std::make_shared<Script>(mk.ticker, m, 3u);
            const size_t k = static_cast<size_t>(src.range(1, 5));
            for (size_t j = 0; j < k; ++j) { std::vector<double> p(3); for (auto& x : p) x = mk.S * src.real(0.5, 1.7); sm->paths.push_back(p); }
            s.setPricer(pricer(c, sm)); src.note("setPricer, ", k, " paths"); break;
        }
        case 2: if (src.chance(1, 3)) { s.setPricer(nullptr); sm.reset(); src.note("setPricer none"); } break;
        default: {
            if (!sm) { REQUIRE(throwsA<std::logic_error>([&] { (void)s.solve(); }), "solved without a pricer"); break; }
            const size_t before = sm->next; double sum = 0;
            if (n == 0) { try { (void)s.solve(); } catch (const std::exception&) {} REQUIRE(sm->next == before, sm->next - before, " paths simulated, none asked for"); break; }
            for (unsigned long j = 0; j < n; ++j) sum += pathPayoff(c, sm->paths[(before + j) % sm->paths.size()]);
            const double want = std::exp(-mk.r * c.T) * sum / static_cast<double>(n), got = s.solve();
            solved = true;
            REQUIRE(sm->next - before == n, sm->next - before, " paths simulated, ", n, " asked for");
            REQUIRE(close(got, want, 1e-10, 1e-10 * mk.S), "solve gives ", got, ", expected ", want);
        }
    }
    src.nontrivial(solved);
}
