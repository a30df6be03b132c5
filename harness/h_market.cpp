// C03 market store atomicity, C04 market store semantics, C05 observers: model-based histories.
// Every history runs in a process of its own, so that it starts from a fresh store.
#include "gen.h"
#include <map>
#include <optional>
#include <set>
#include <functional>
#include "payoff/single_strike/payoff_vanilla.h"

using namespace OptionPricer;
using namespace gen;
using pbt::Src; using pbt::cat; using pbt::throwsA;

namespace {
constexpr double NaN = std::numeric_limits<double>::quiet_NaN();

struct Quote { double S, sigma; std::optional<double> c; };
bool validS(double S) { return S > 0; }
bool validSigma(double v) { return v >= 0; }
bool validC(const std::optional<double>& c) { return !c || (*c >= 0 && *c <= 1); }

double anyS(Src& s) {
    switch (s.below(6)) { case 0: case 1: case 2: return price(s); case 3: return s.pick({0.0, -0.0, -5e-324, -1.0});
        case 4: return s.flag() ? NaN : s.logreal(1e-300, 1e300); default: return s.pick({5e-324, 1e-300, 1e300, -100.0, 0.001, 1.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()}); }
}
double anySigma(Src& s) {
    switch (s.below(6)) { case 0: case 1: case 2: return s.real(0, 1); case 3: return s.pick({0.0, -0.0, 5e-324, 10.0});
        case 4: return s.flag() ? NaN : s.logreal(1e-300, 1e300); default: return s.pick({-5e-324, -0.2, -1.0, -1e300, 1.0, 100.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()}); }
}
std::optional<double> anyC(Src& s) {
    switch (s.below(6)) { case 0: return std::nullopt; case 1: case 2: return s.real(0, 1); case 3: return s.pick({0.0, 1.0, -0.0, 5e-324});
        case 4: return s.flag() ? NaN : s.logreal(1e-300, 1e300); default: return s.pick({std::numeric_limits<double>::infinity(), -5e-324, std::nextafter(1.0, 2.0), -0.01, 1.5, 2.0, 100.0}); }
}
std::string show(const std::optional<double>& c) { return c ? cat(*c) : "none"; }

struct Machine {
    Src& src;
    std::shared_ptr<MarketData> m = md();
    std::map<std::string, Quote> model;
    double r = 0.05;
    std::vector<std::pair<std::string, std::shared_ptr<const StockData>>> handles;
    std::vector<std::shared_ptr<Option>> options;
    int rejected = 0, accepted = 0, rejectedOnKnown = 0, readds = 0;

    explicit Machine(Src& s) : src(s) {}
    std::string tick() {
        if (!model.empty() && src.below(5) < 3) { auto it = model.begin(); std::advance(it, src.below(model.size())); return it->first; }
        return ticker(src);
    }
    void same(const StockData& d, const Quote& q, const std::string& what) {
        REQUIRE(d.getPrice() == q.S && d.getSigma() == q.sigma && d.getCoupon() == q.c, what, " shows (", d.getPrice(), ",", d.getSigma(), ",", show(d.getCoupon()),
                ") expected (", q.S, ",", q.sigma, ",", show(q.c), ")");
        REQUIRE(d.getPrice() > 0 && d.getSigma() >= 0 && validC(d.getCoupon()), what, " holds an invalid quote");
    }
    void invariant() {
        for (auto& [t, q] : model) {
            auto h = m->getStockData(t);
            REQUIRE(h != nullptr, "null quote");
            same(*h, q, "quote of '" + t + "'");
        }
        for (const auto& t : tickerNames())
            if (!model.count(t)) REQUIRE(throwsA<std::invalid_argument>([&] { (void)m->getStockData(t); }), "a quote for the unknown ticker '", t, "'");
        REQUIRE(model.count("NOPE") || throwsA<std::invalid_argument>([&] { (void)m->getStockData("NOPE"); }), "a quote for the unknown ticker NOPE");
        REQUIRE(m->getR() == r, "rate ", m->getR(), " expected ", r);
        REQUIRE(MarketData::getInstance().get() == m.get(), "another store instance");
        for (auto& [t, h] : handles) same(*h, model.at(t), "handle on '" + t + "'");
        for (auto& [t, q] : model) for (auto& [u, p] : model) {
            const bool eq = q.S == p.S && q.sigma == p.sigma && q.c == p.c;
            REQUIRE((*m->getStockData(t) == *m->getStockData(u)) == eq && (*m->getStockData(t) != *m->getStockData(u)) == !eq, "equality of the quotes of '", t, "' and '", u, "'");
        }
    }
    // runs op; expects success iff ok
    void act(const std::string& what, bool ok, const std::function<void()>& op, const std::function<void()>& onModel) {
        bool threw = false;
        try { op(); } catch (const std::invalid_argument&) { threw = true; }
        src.note(what, threw ? "  -> rejected" : "");
        REQUIRE(threw == !ok, what, threw ? " was rejected" : " was accepted");
        if (ok) { onModel(); ++accepted; } else ++rejected;
    }
    void step() {
        switch (src.below(12)) {
            case 0: case 1: case 2: {
                const auto t = tick(); const double S = anyS(src), v = anySigma(src); const bool two = src.flag(); const auto c = two ? std::nullopt : anyC(src);
                const bool ok = validS(S) && validSigma(v) && validC(c);
                if (model.count(t)) { ++readds; if (!ok) ++rejectedOnKnown; }
                act(cat("addStock('", t, "',", S, ",", v, two ? "" : ",", two ? "" : show(c), ")"), ok,
                    [&] { if (two) m->addStock(t, S, v); else m->addStock(t, S, v, c); }, [&] { model[t] = {S, v, c}; });
                break;
            }
            case 3: case 4: {
                const auto t = tick(); const double S = anyS(src); const bool known = model.count(t) > 0;
                if (known && !validS(S)) ++rejectedOnKnown;
                act(cat("updateStockPrice('", t, "',", S, ")"), known && validS(S), [&] { m->updateStockPrice(t, S); }, [&] { model[t].S = S; });
                break;
            }
            case 5: case 6: {
                const auto t = tick(); const double v = anySigma(src); const bool known = model.count(t) > 0;
                if (known && !validSigma(v)) ++rejectedOnKnown;
                act(cat("updateStockSigma('", t, "',", v, ")"), known && validSigma(v), [&] { m->updateStockSigma(t, v); }, [&] { model[t].sigma = v; });
                break;
            }
            case 7: case 8: {
                const auto t = tick(); const auto c = anyC(src); const bool known = model.count(t) > 0;
                if (known && !validC(c)) ++rejectedOnKnown;
                act(cat("updateStockCoupon('", t, "',", show(c), ")"), known && validC(c), [&] { m->updateStockCoupon(t, c); }, [&] { model[t].c = c; });
                break;
            }
            case 9: { const double x = src.chance(1, 8) ? src.pick({-1.0, -2.5, -1e6, 7.0, 1e6, 5e-324, -5e-324}) : src.pick({0.05, 0.0, -0.02, 0.1, 1.0}) + src.real(0, 0.01); act(cat("setR(", x, ")"), true, [&] { m->setR(x); }, [&] { r = x; }); break; }
            case 10: { const auto t = tick(); const bool known = model.count(t) > 0; std::shared_ptr<const StockData> h;
                act(cat("getStockData('", t, "')"), known, [&] { h = m->getStockData(t); }, [&] { if (handles.size() < 6) handles.push_back({t, h}); }); break; }
            default: {
                if (src.flag() && !options.empty()) { src.note("drop an option"); options.erase(options.begin() + static_cast<long>(src.below(options.size()))); break; }
                const auto t = tick(); const bool known = model.count(t) > 0; Contract c; c.ticker = t; c.kind = static_cast<int>(src.below(kKinds)); c.call = !src.flag();
                c.T = src.pick({1.0, 0.0, -1.0}); std::shared_ptr<Option> o;
                act("create " + c.str(), known && c.T >= 0, [&] { o = c.make(); }, [&] { options.push_back(o); });
                break;
            }
        }
    }
};
void history(Src& src, int maxLen) {
    Machine M(src);
    REQUIRE(M.m->getR() == 0.05, "initial rate ", M.m->getR());
    M.invariant();
    const int n = static_cast<int>(src.range(1, maxLen));
    for (int i = 0; i < n; ++i) { M.step(); M.invariant(); }
    src.label(M.rejectedOnKnown ? "rejected change of a known stock" : "no rejected change of a known stock");
    src.label(M.readds ? "stock added again" : "no stock added again");
    src.label(M.handles.empty() ? "no handle held" : "handle held");
    src.nontrivial(M.rejectedOnKnown > 0 || (M.readds > 0 && !M.handles.empty()));
}
}  // namespace

PROP(C03, histories, 24000, 400000, 1, "a change of a known stock was rejected, or a stock was added again while a handle was held") { history(src, 30); }

PROP(C03, stockData, 600000, 12000000, 0, "at least one argument is outside the domain") {
    const double S = anyS(src), v = anySigma(src); const auto c = anyC(src);
    const bool ok = validS(S) && validSigma(v) && validC(c);
    src.note("StockData(", S, ",", v, ",", show(c), ")");
    bool threw = false;
    try {
        StockData d(S, v, c);
        REQUIRE(d.getPrice() == S && d.getSigma() == v && d.getCoupon() == c, "getters");
    } catch (const std::invalid_argument&) { threw = true; }
    REQUIRE(threw == !ok, "StockData(", S, ",", v, ",", show(c), ") ", threw ? "rejected" : "accepted");
    src.nontrivial(!ok);
}

namespace {
// C04: accepted operations only, many tickers, long histories
void mapHistory(Src& src) {
    auto m = md();
    std::map<std::string, Quote> model; double r = 0.05;
    std::vector<std::pair<std::string, std::shared_ptr<const StockData>>> handles;
    const int nT = static_cast<int>(src.range(1, 40));
    auto name = [&] { const auto k = src.below(static_cast<uint64_t>(nT)); return k < 3 ? std::string(k + 1, 'A') : cat("T", k); };
    const int n = static_cast<int>(src.range(1, 60)); bool live = false;
    for (int i = 0; i < n; ++i) {
        const auto t = name(); const bool known = model.count(t) > 0;
        if (src.chance(1, 60)) { // many stocks at once
            const int many = static_cast<int>(src.chance(1, 60) ? src.range(400, 10000) : src.range(1, 400)); src.note("add ", many, " stocks");
            for (int k = 0; k < many; ++k) { const auto u = cat("BULK", k); Quote q{1.0 + k, 0.001 * k, k % 3 ? std::optional<double>(0.0001 * k) : std::nullopt}; m->addStock(u, q.S, q.sigma, q.c); model[u] = q; if (k % 50 == 7) handles.push_back({u, m->getStockData(u)}); }
        }
        switch (known ? src.below(6) : src.below(2) == 0 ? 0 : 6) {
            case 0: { Quote q{price(src), src.real(0, 2), src.flag() ? std::optional<double>(src.real(0, 1)) : std::nullopt};
                src.note(known ? "re-add " : "add ", t, " ", q.S, " ", q.sigma, " ", show(q.c));
                if (q.c) m->addStock(t, q.S, q.sigma, *q.c); else m->addStock(t, q.S, q.sigma);
                model[t] = q; break; }
            case 1: { const double S = price(src); src.note("price ", t, " ", S); m->updateStockPrice(t, S); model[t].S = S; break; }
            case 2: { const double v = src.real(0, 2); src.note("sigma ", t, " ", v); m->updateStockSigma(t, v); model[t].sigma = v; break; }
            case 3: { std::optional<double> c; if (src.flag()) c = src.real(0, 1); src.note("coupon ", t, " ", show(c)); m->updateStockCoupon(t, c); model[t].c = c; break; }
            case 4: { src.note("handle on ", t); handles.push_back({t, m->getStockData(t)}); break; }
            case 5: { r = src.pick({src.real(-0.1, 0.3), src.real(-0.1, 0.3), src.real(-5, 5), (src.flag() ? -1 : 1) * src.logreal(1e-12, 1e9)}); src.note("rate ", r); m->setR(r); break; }
            default: break;
        }
        if (src.chance(1, 12)) { src.note("every access to the store given up, then taken again"); handles.clear(); m.reset(); m = MarketData::getInstance(); } // it lives on
        for (auto& [u, q] : model) {
            auto d = m->getStockData(u);
            REQUIRE(d->getPrice() == q.S && d->getSigma() == q.sigma && d->getCoupon() == q.c, "quote of ", u, ": (", d->getPrice(), ",", d->getSigma(), ",", show(d->getCoupon()), ") expected (", q.S, ",", q.sigma, ",", show(q.c), ")");
        }
        for (auto& [u, h] : handles) { const auto& q = model.at(u);
            REQUIRE(h->getPrice() == q.S && h->getSigma() == q.sigma && h->getCoupon() == q.c, "stale handle on ", u, ": (", h->getPrice(), ",", h->getSigma(), ",", show(h->getCoupon()), ") expected (", q.S, ",", q.sigma, ",", show(q.c), ")"); live = true; }
        REQUIRE(m->getR() == r && MarketData::getInstance()->getR() == r, "rate");
        for (int k = 0; k < nT; ++k) { const auto u = k < 3 ? std::string(static_cast<size_t>(k) + 1, 'A') : cat("T", k);
            if (!model.count(u)) REQUIRE(throwsA<std::invalid_argument>([&] { (void)m->getStockData(u); }), "quote for ", u); }
    }
    src.nontrivial(live && model.size() >= 2);
    src.label(model.size() > 10 ? "more than 10 tickers" : model.size() > 1 ? "2 to 10 tickers" : "0 or 1 ticker");
}
}  // namespace
PROP(C04, mapSemantics, 16000, 300000, 1, "a handle was held across later changes and at least two tickers exist") { mapHistory(src); }
PROP(C04, histories, 16000, 300000, 1, "a change of a known stock was rejected, or a stock was added again while a handle was held") { history(src, 30); }

// ---------------------------------------------------------------- C05
namespace {
struct World;
struct Probe;
struct ProbeState { std::string id; uint64_t calls = 0; bool alive = true; int action = 0; int arg = 0; bool armed = false; };

struct World {
    Src& src; std::shared_ptr<MarketData> m = md();
    std::map<std::string, Quote> model; double r = 0.05;
    std::vector<std::shared_ptr<ProbeState>> states;                       // every observer ever created
    std::vector<std::shared_ptr<MarketDataObserver>> owner;                // strong reference per state (or null)
    std::vector<uint64_t> regs;                                            // registrations per state
    std::vector<uint64_t> minCalls, maxCalls;                              // allowed call counts
    std::vector<size_t> active;                                            // observers being told right now
    int depth = 0; bool reentrant = false, nested = false;
    std::string tA = "A", tB = "B";                                        // the two stocks
    std::string bad;
    explicit World(Src& s) : src(s) {}

    void visible(const std::string& id) { // inside a notification the store shows the new values
        auto it = model.find(id);
        if (it != model.end()) {
            auto d = m->getStockData(id);
            if (!(d->getPrice() == it->second.S && d->getSigma() == it->second.sigma && d->getCoupon() == it->second.c)) bad = "an observer of '" + id + "' was notified before the change was visible";
        }
        if (m->getR() != r) bad = "an observer was notified before the new rate was visible";
    }
    // a change is about to be made: who must / may be called
    struct Expect { std::vector<uint64_t> base; };
    void expectFor(const std::function<bool(const ProbeState&)>& sel) {
        for (size_t i = 0; i < states.size(); ++i) if (states[i]->alive && sel(*states[i])) { minCalls[i] += regs[i]; maxCalls[i] += regs[i]; }
    }
    size_t addState(const std::string& id) {
        auto s = std::make_shared<ProbeState>(); s->id = id; states.push_back(s); owner.push_back(nullptr); regs.push_back(0); minCalls.push_back(0); maxCalls.push_back(0);
        return states.size() - 1;
    }
    void drop(size_t i) {
        if (!owner[i]) return;
        // dropped in the middle of a notification: it may or may not have been called for the change under way
        if (depth > 0) minCalls[i] = std::min(minCalls[i], states[i]->calls);
        auto o = std::move(owner[i]); owner[i] = nullptr;
        o.reset();
        if (states[i]->alive && std::find(active.begin(), active.end(), i) == active.end()) bad = depth ? "the store keeps an observer alive that was dropped during a notification" : "the store keeps an observer alive";
    }
    void registerObs(size_t i) {
        m->addObserver(owner[i]); ++regs[i];
        if (depth > 0) maxCalls[i] += pendingDepthMax; // may be told about the changes under way
    }
    uint64_t pendingDepthMax = 0;
    void onUpdate(const std::shared_ptr<ProbeState>& s);
    void change(int what, const std::string& t);
    void verify(const std::string& when) {
        if (!bad.empty()) throw pbt::Fail{bad + " (" + when + ")"};
        for (size_t i = 0; i < states.size(); ++i)
            REQUIRE(states[i]->calls >= minCalls[i] && states[i]->calls <= maxCalls[i], when, ": observer ", i, " of '", states[i]->id, "' (", regs[i], " registrations) was notified ",
                    states[i]->calls, " times in total, expected ", minCalls[i], minCalls[i] == maxCalls[i] ? "" : cat("..", maxCalls[i]));
        for (size_t i = 0; i < states.size(); ++i) { minCalls[i] = maxCalls[i] = states[i]->calls; }
    }
};
struct Probe : MarketDataObserver {
    World* w; std::shared_ptr<ProbeState> st; std::vector<char> canary = std::vector<char>(32, 'c');
    Probe(World* w_, std::shared_ptr<ProbeState> s) : MarketDataObserver(s->id), w(w_), st(std::move(s)) {}
    ~Probe() override { st->alive = false; canary.assign(32, 'd'); }
    void update() override { if (canary[7] != 'c') w->bad = "notified after destruction"; auto s = st; auto* ww = w; ww->onUpdate(s); }
};
// An option type of our own, made through the library's factory: are options registered exactly once?
struct ProbeOption : Option {
    World* w; std::shared_ptr<ProbeState> st;
    ProbeOption(World* w_, std::shared_ptr<ProbeState> s, const std::string& t, std::unique_ptr<Payoff> p, double T, std::shared_ptr<IMarketData> mm)
        : Option(t, std::move(p), T, std::move(mm)), w(w_), st(std::move(s)) {}
    ~ProbeOption() override { st->alive = false; }
    double calc_price() const override { return 0; }
    void update() override { auto s = st; auto* ww = w; ww->onUpdate(s); }
};
struct ProbeFactory : OptionFactory<ProbeOption, PayoffVanilla> {
    World* w; std::shared_ptr<ProbeState> st;
    std::unique_ptr<PayoffVanilla> createSpecificPayoff(const ParameterObject& p, const PayoffType& t) override { return std::make_unique<PayoffVanilla>(t, p.getParameter<double>("K")); }
    std::shared_ptr<ProbeOption> createSpecificOption(const ParameterObject& p, std::unique_ptr<PayoffVanilla> f, const std::shared_ptr<IMarketData>& mm) override {
        return std::make_shared<ProbeOption>(w, st, p.getParameter<std::string>("ticker"), std::move(f), p.getParameter<double>("T"), mm);
    }
    std::string getType(const PayoffType&) const override { return "Probe"; }
};

void World::onUpdate(const std::shared_ptr<ProbeState>& s) {
    ++s->calls;
    if (!s->alive) bad = "notified after destruction";
    visible(s->id);
    if (!s->armed || depth > 2) return;
    s->armed = false; // each scripted reaction happens once
    size_t self = 0; while (states[self] != s) ++self;
    struct Active { std::vector<size_t>& v; Active(std::vector<size_t>& x, size_t i) : v(x) { v.push_back(i); } ~Active() { v.pop_back(); } } guard(active, self);
    reentrant = true;
    const size_t other = states.empty() ? 0 : static_cast<size_t>(s->arg) % states.size();
    switch (s->action) {
        case 1: { src.note("   observer ", self, " reacts: adds observers"); for (int k = 0; k < 6; ++k) { const auto i = addState(k % 2 ? s->id : tA); owner[i] = std::make_shared<Probe>(this, states[i]); registerObs(i); } break; }
        case 2: src.note("   observer ", self, " reacts: gives up its own last reference"); drop(self); break;
        case 3: src.note("   observer ", self, " reacts: drops observer ", other); drop(other); break;
        case 4: src.note("   observer ", self, " reacts: removeObserver()"); m->removeObserver(); break;
        case 5: { nested = true; src.note("   observer ", self, " reacts: changes a quote or the rate"); change(static_cast<int>(src.below(5)), src.flag() ? (s->id == tA ? tB : tA) : s->id); break; }
        case 6: { src.note("   observer ", self, " reacts: creates and destroys an option"); Contract c; c.ticker = tA; if (model.count(tA)) { auto o = c.make(); auto p = c.make(); o.reset(); } break; }
        default: break;
    }
}
void World::change(int what, const std::string& t) {
    const bool known = model.count(t) > 0;
    if (what != 3 && !known) return;
    // a new value: higher, lower, at the edge of what is allowed, one ulp away, or the same again (an accepted change all the same)
    const int how = static_cast<int>(src.below(7));
    auto moved = [&](double x, double higher, double lower, std::initializer_list<double> edge) { return how < 2 ? higher : how == 2 ? lower : how == 3 ? *(edge.begin() + src.below(edge.size())) : how == 4 ? std::nextafter(x, 1e9) : x; };
    if (what == 3) { r = moved(r, r + 0.001 + 0.0001 * static_cast<double>(states.size()), r - 0.0625, {0.0, -0.5, 10.0, 0.05}); src.note("setR(", r, ")"); expectFor([](const ProbeState&) { return true; }); }
    else expectFor([&](const ProbeState& p) { return p.id == t; });
    ++depth; ++pendingDepthMax;
    auto& q = model[what == 3 ? tA : t];
    try {
        if (what == 0) { q.S = moved(q.S, q.S * 1.5, q.S * 0.5, {1e-300, 1e12, 1.0}); src.note("updateStockPrice('", t, "',", q.S, ")"); m->updateStockPrice(t, q.S); }
        else if (what == 1) { q.sigma = moved(q.sigma, q.sigma + 0.125, q.sigma * 0.5, {0.0, 5.0}); src.note("updateStockSigma('", t, "',", q.sigma, ")"); m->updateStockSigma(t, q.sigma); }
        else if (what == 2) { q.c = how > 4 ? q.c : src.pick<std::optional<double>>({std::nullopt, 0.0, 1.0, 0.0625, 0.5, std::nextafter(q.c.value_or(0.25), 0.5)}); src.note("updateStockCoupon('", t, "',", show(q.c), ")"); m->updateStockCoupon(t, q.c); }
        else if (what == 3) m->setR(r);
        else { if (src.flag()) q.S = moved(q.S, q.S + 1, q.S * 0.25, {1e-300, 1e12, 1.0}); else q.sigma = moved(q.sigma, q.sigma + 0.125, q.sigma * 0.5, {0.0, 5.0}); if (src.chance(1, 4)) q.c = src.pick<std::optional<double>>({std::nullopt, 0.0, 1.0, 0.25}); src.note("addStock('", t, "') again with price ", q.S, " and volatility ", q.sigma); if (q.c) m->addStock(t, q.S, q.sigma, *q.c); else m->addStock(t, q.S, q.sigma); }
    } catch (const std::exception& e) { bad = cat("an accepted change threw ", e.what()); }
    --depth; if (depth == 0) pendingDepthMax = 0;
}

void observerHistory(Src& src, bool reactions, bool crowd = false) {
    World w(src);
    static const std::vector<std::pair<std::string, std::string>> names{{"A", "B"}, {"A", "AB"}, {"GOOGL", "GOOG"}, {"A", "a"}, {"", "A"}, {"A", "A "}, {"BA", "A"}, {"AAAAAAAAAAAAAAAAAAAAAAAA1", "AAAAAAAAAAAAAAAAAAAAAAAA2"}};
    std::tie(w.tA, w.tB) = src.pick(names);
    for (const auto& t : {w.tA, w.tB}) { const double S = price(src), v = src.pick({0.25, 0.0}); w.m->addStock(t, S, v); w.model[t] = {S, v, std::nullopt}; }
    w.verify("start");
    const std::vector<std::string> ids{w.tA, w.tB, w.tA, w.tB, "nobody", "a", "", w.tA + "x"};
    src.note("stocks '", w.tA, "' and '", w.tB, "'");
    if (crowd) {
        const int many = static_cast<int>(src.chance(1, 25) ? src.range(300, 6000) : src.range(0, 300)); src.note(many, " observers to start with");
        for (int i = 0; i < many; ++i) { const auto k = w.addState(ids[static_cast<size_t>(i) % ids.size()]); w.owner[k] = std::make_shared<Probe>(&w, w.states[k]); w.registerObs(k); }
        const auto stride = src.range(1, 7); if (src.flag()) for (size_t k = 0; k < w.owner.size(); k += static_cast<size_t>(stride)) w.drop(k);
        w.verify("crowd");
    }
    bool late = false;
    const int n = static_cast<int>(src.range(2, 25)); int changes = 0, regsN = 0, drops = 0;
    for (int i = 0; i < n; ++i) {
        std::string when = "step";
        switch (src.below(13)) {
            case 12: { if (late) break; late = true; // observers of a ticker that becomes known only now: from now on they are told
                for (size_t k = 0; k < w.states.size(); ++k) if (w.states[k]->alive && w.states[k]->id == "nobody") w.maxCalls[k] += w.regs[k];
                src.note("addStock('nobody')"); w.model["nobody"] = {7.0, 0.5, std::nullopt}; w.m->addStock("nobody", 7.0, 0.5); when = "first add"; break; }
            case 0: case 1: { const auto k = w.addState(src.pick(ids)); w.owner[k] = std::make_shared<Probe>(&w, w.states[k]); w.registerObs(k);
                if (reactions && src.flag()) { w.states[k]->action = static_cast<int>(src.range(1, 6)); w.states[k]->arg = static_cast<int>(src.below(8)); w.states[k]->armed = true; }
                src.note("observer ", k, " of '", w.states[k]->id, "' registered", w.states[k]->armed ? cat(", reaction ", w.states[k]->action) : ""); ++regsN; when = "register"; break; }
            case 2: { const auto k = w.addState(src.flag() ? w.tB : w.tA); // through the factory
                ProbeFactory f; f.w = &w; f.st = w.states[k];
                ParameterObject p; p.setParameter("ticker", w.states[k]->id); p.setParameter("T", src.pick({1.0, -1.0, 0.0, 1e-9, 250.0})); p.setParameter("K", src.pick({100.0, -5.0, 0.0, 1e9}));
                const bool ok = p.getParameter<double>("T") >= 0 && p.getParameter<double>("K") >= 0;
                std::shared_ptr<ProbeOption> o; bool threw = false;
                try { o = src.flag() ? f.createPutOption(p) : f.createCallOption(p); } catch (const std::invalid_argument&) { threw = true; }
                REQUIRE(threw == !ok, "factory");
                f.st.reset();
                if (o) { w.owner[k] = o; w.regs[k] = 1; if (reactions && src.flag()) { w.states[k]->action = static_cast<int>(src.range(2, 6)); w.states[k]->arg = static_cast<int>(src.below(8)); w.states[k]->armed = true; } } else w.states[k]->alive = false;
                src.note("option ", k, " on '", w.states[k]->id, "' created by a factory", ok ? "" : " -> rejected"); ++regsN; when = "create"; break; }
            case 3: { if (w.states.empty()) break; const auto k = src.below(w.states.size()); if (w.owner[k]) { src.note("observer ", k, " registered once more"); w.registerObs(k); } when = "re-register"; break; }
            case 4: { if (w.states.empty()) break; const auto k = src.below(w.states.size()); if (w.owner[k]) { src.note("observer ", k, " dropped"); w.drop(k); ++drops; } when = "drop"; break; }
            case 5: src.note("removeObserver()"); w.m->removeObserver(); when = "removeObserver"; break;
            case 6: { const std::string t = src.pick({w.tA, w.tB, std::string("nobody"), std::string("unknown")}); src.note("rejected update of '", t, "'"); // rejected: notifies nobody
                bool threw = false; try { switch (src.below(5)) { case 0: w.m->updateStockPrice(t, -1.0); break; case 3: w.m->addStock(t, 100.0, 0.25, 1.5); break; case 4: w.m->addStock(t, 0.0, 0.25); break; case 1: w.m->updateStockSigma(t, -1.0); break; default: w.m->updateStockCoupon(t, 2.0); } } catch (const std::invalid_argument&) { threw = true; }
                REQUIRE(threw, "accepted"); when = "rejected update"; break; }
            case 7: { const std::string t = src.pick({w.tA, w.tB, std::string("nobody"), std::string("unknown")}); src.note("notifyObserver('", t, "')");
                w.expectFor([&](const ProbeState& p) { return p.id == t; }); ++w.depth; ++w.pendingDepthMax; w.m->notifyObserver(t); --w.depth; w.pendingDepthMax = 0; when = "notifyObserver"; ++changes; break; }
            case 8: { src.note("notifyObservers()"); w.expectFor([](const ProbeState&) { return true; }); ++w.depth; ++w.pendingDepthMax; w.m->notifyObservers(); --w.depth; w.pendingDepthMax = 0; when = "notifyObservers"; ++changes; break; }
            default: { const int what = static_cast<int>(src.below(5)); const std::string t = late && src.below(3) == 0 ? std::string("nobody") : src.flag() ? w.tB : w.tA; w.change(what, t); when = what == 3 ? "setR" : cat("change of ", t); ++changes; break; }
        }
        w.verify(when);
    }
    for (size_t k = 0; k < w.owner.size(); ++k) w.drop(k);
    w.change(3, ""); w.m->notifyObservers(); w.m->removeObserver();
    w.verify("after every observer is gone");
    src.nontrivial(changes > 0 && regsN > 1 && (!reactions || w.reentrant));
    if (reactions) { src.label(w.reentrant ? "reaction during a notification" : "no reaction"); if (w.nested) src.label("nested change"); }
    if (drops) src.label("observer dropped");
}
}  // namespace
PROP(C05, histories, 16000, 300000, 1, "at least two registrations and one change") { observerHistory(src, false); }
PROP(C05, crowd, 3000, 60000, 1, "at least two registrations and one change") { observerHistory(src, src.flag(), true); }
PROP(C05, reentrant, 16000, 300000, 1, "an observer added, dropped, pruned or changed something from inside a notification") { observerHistory(src, true); }
