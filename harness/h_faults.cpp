// C34 failures: any supplied part throws at any call, or memory runs out at any allocation; the error reaches the
// caller, and the same objects go on working as if nothing had happened.
#include <cstdlib>
#include <new>
#include <set>
#include "jobs.h"
#include "payoff/single_strike/payoff_vanilla.h"

using namespace jobs;

// ---------------------------------------------------------------- memory that runs out
namespace {
thread_local long gLeft = -1, gCount = 0;
thread_local bool gArmed = false, gBlown = false;
void* take(std::size_t n, std::size_t align) {
    if (gArmed) { ++gCount; if (gLeft >= 0 && gLeft-- == 0) { gBlown = true; throw std::bad_alloc(); } }
    void* p = align > alignof(std::max_align_t) ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
struct Armed { Armed(long left) { gLeft = left; gCount = 0; gBlown = false; gArmed = true; } ~Armed() { gArmed = false; } };
}  // namespace
void* operator new(std::size_t n) { return take(n, 0); }
void* operator new[](std::size_t n) { return take(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return take(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return take(n, static_cast<std::size_t>(a)); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return std::malloc(n ? n : 1); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return std::malloc(n ? n : 1); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }

namespace {
// ---------------------------------------------------------------- supplied parts that fail
struct Odd { int serial; };                                                  // not a std::exception
struct Run : std::runtime_error { int serial; explicit Run(int s) : std::runtime_error("injected"), serial(s) {} };
struct Inv : std::invalid_argument { int serial; explicit Inv(int s) : std::invalid_argument("injected"), serial(s) {} };
struct Logic : std::logic_error { int serial; explicit Logic(int s) : std::logic_error("injected"), serial(s) {} };
struct Mem : std::bad_alloc { int serial; explicit Mem(int s) : serial(s) {} };
struct Range : std::out_of_range { int serial; explicit Range(int s) : std::out_of_range("injected"), serial(s) {} };
constexpr uint64_t kErrors = 6;
[[noreturn]] void raise(int type, int serial) {
    switch (type) { case 0: throw Run(serial); case 1: throw Odd{serial}; case 2: throw Inv(serial); case 3: throw Logic(serial); case 4: throw Mem(serial); default: throw Range(serial); }
}
// What surfaced: the serial of the injected error, as the type that was thrown; 0 when nothing did
struct Caught { int seen = 0; bool oom = false; std::string other; };
template <class F> Caught catching(int type, F&& f) {
    Caught c;
    try { f(); }
    catch (const Odd& e) { c.seen = type == 1 ? e.serial : -1; }
    catch (const Run& e) { c.seen = type == 0 ? e.serial : -1; }
    catch (const Inv& e) { c.seen = type == 2 ? e.serial : -1; }
    catch (const Range& e) { c.seen = type == 5 ? e.serial : -1; }
    catch (const Logic& e) { c.seen = type == 3 ? e.serial : -1; }
    catch (const Mem& e) { c.seen = type == 4 ? e.serial : -1; }
    catch (const std::bad_alloc&) { c.oom = true; }
    catch (const std::exception& e) { c.other = e.what(); if (c.other.empty()) c.other = "?"; }
    return c;
}
struct Fuse {
    long left = -1, count = 0; int serial = 0, type = 0; bool blown = false; const char* where = "";
    void operator()(const char* w) {
        ++count;
        if (left < 0 || left-- != 0) return;
        blown = true; where = w;
        raise(type, serial);
    }
};
struct FMarket : IMarketData {
    std::shared_ptr<IMarketData> in; Fuse* f;
    void addObserver(const std::shared_ptr<MarketDataObserver>& o) override { in->addObserver(o); }
    void removeObserver() override { in->removeObserver(); }
    std::shared_ptr<const StockData> getStockData(const std::string& t) const override { (*f)("market data"); return in->getStockData(t); }
    double getR() const override { (*f)("interest rate"); return in->getR(); }
    void setR(const double& r) override { in->setR(r); }
};
struct FGen : NumberGenerator {
    Job j; Fuse* f; mutable std::shared_ptr<NumberGenerator> in;
    FGen(const Job& k, Fuse* fuse) : NumberGenerator(k.steps, k.seed), j(k), f(fuse) { rewind(); }
    void rewind() const { in = generator(j); }
    double operator()(Distribution& d) const override { (*f)("generator"); return (*in)(d); }
};
struct FDisc : CIRDiscretization {
    std::shared_ptr<CIRDiscretization> in; Fuse* f;
    void update(double& V, const double& dt, const double& k, const double& th, const double& s, const double& z) const override { (*f)("variance scheme"); in->update(V, dt, k, th, s, z); }
};
struct FReg : Regression {
    std::shared_ptr<Regression> in; Fuse* f;
    Eigen::VectorXd solve(const Eigen::MatrixXd& A, const Eigen::VectorXd& y) const override { (*f)("regression"); return in->solve(A, y); }
};
struct FBas : BasisFunction {
    std::shared_ptr<BasisFunction> in; Fuse* f;
    explicit FBas(unsigned n) : BasisFunction(n) {}
    Eigen::MatrixXd generate(const Eigen::VectorXd& x) const override { (*f)("basis"); return in->generate(x); }
};
struct FInterp : Interpolation {
    std::shared_ptr<Interpolation> in; Fuse* f;
    double interpolate(const std::vector<double>& x, const std::vector<double>& y, const double& q) const override { (*f)("interpolation"); return in->interpolate(x, y, q); }
};
struct FMat : MatrixSolver {
    std::shared_ptr<MatrixSolver> in; Fuse* f;
    Eigen::VectorXd solve(const Eigen::SparseMatrix<double>& A, const Eigen::VectorXd& b) const override { (*f)("matrix solver"); return in->solve(A, b); }
};
struct FPde : ConvectionDiffusionPDE {
    std::unique_ptr<ConvectionDiffusionPDE> in; Fuse* f;
    double diffusion(const double& t, const double& x) const override { (*f)("diffusion"); return in->diffusion(t, x); }
    double convection(const double& t, const double& x) const override { (*f)("convection"); return in->convection(t, x); }
    double reaction(const double& t, const double& x) const override { (*f)("reaction"); return in->reaction(t, x); }
    double rightHandSide(const double& t, const double& x) const override { (*f)("right-hand side"); return in->rightHandSide(t, x); }
    double boundaryLeft(const double& t, const double& x) const override { (*f)("left boundary"); return in->boundaryLeft(t, x); }
    double boundaryRight(const double& t, const double& x) const override { (*f)("right boundary"); return in->boundaryRight(t, x); }
    double initialCondition(const double& x) const override { (*f)("initial condition"); return in->initialCondition(x); }
};
// The objects of one task, made in stages; a stage that failed is tried again with the same objects
struct World {
    const Job& j; Fuse& fuse; int stage = 0; bool stockGen;
    std::shared_ptr<FMarket> market; std::shared_ptr<Option> option; std::shared_ptr<FGen> gen; std::shared_ptr<StockModel> model; std::unique_ptr<MCBuilder> builder;
    std::shared_ptr<FDisc> disc; std::shared_ptr<FReg> reg; std::shared_ptr<FBas> bas; std::shared_ptr<FInterp> interp; std::shared_ptr<FMat> mat;
    Live l;
    World(const Job& job, Fuse& f, bool stock) : j(job), fuse(f), stockGen(stock) {}
    template <class T, class U> static std::shared_ptr<T> wrap(std::shared_ptr<U> in, Fuse* f) { auto w = std::make_shared<T>(); w->in = std::move(in); w->f = f; return w; }
    void parts() {
        market = wrap<FMarket>(std::shared_ptr<IMarketData>(md()), &fuse);
        option = j.c.make();
        if (j.fd) {
            if (auto i = interpolation(j.interp)) interp = wrap<FInterp>(i, &fuse);
            if (auto m = matrixSolver(j.mat)) mat = wrap<FMat>(m, &fuse);
            return;
        }
        std::shared_ptr<NumberGenerator> g;
        if (stockGen) g = generator(j); else { gen = std::make_shared<FGen>(j, &fuse); g = gen; }
        if (j.sp.kind == HESTON || j.sp.kind == BATES) { auto d = scheme(j); disc = wrap<FDisc>(d ? d : std::shared_ptr<CIRDiscretization>(std::make_shared<CIRExplicitEulerDiscretization>()), &fuse); }
        model = j.sp.make(j.mk.ticker, market, g, disc);
        builder = mc::builder(builderOf(j.c.kind));
        if (j.c.kind == American) {
            if (auto r = regression(j.reg)) reg = wrap<FReg>(r, &fuse);
            if (auto b = basisFn(j.bas, j.nb)) { bas = std::make_shared<FBas>(j.nb); bas->in = b; bas->f = &fuse; }
        }
    }
    void bind() {
        if (j.fd) return;
        builder->setOption(option); builder->setStockPriceModel(model); builder->setMarketData(market);
        if (auto* a = dynamic_cast<AmericanMCBuilder*>(builder.get())) { if (reg) a->setRegressionStrategy(reg); if (bas) a->setBasisFunctionStrategy(bas); }
    }
    void assemble() {
        if (j.fd) {
            auto o = std::dynamic_pointer_cast<EuropeanOption>(option);
            auto pde = std::make_unique<FPde>(); pde->f = &fuse; pde->in = std::make_unique<BlackScholesPDE>(o, market);
            if (j.scheme == 0) l.fdm = std::make_unique<EulerExplicitFDM>(j.X, j.J, j.c.T, j.N, std::move(pde), o, market, interp);
            else if (j.scheme == 1) l.fdm = std::make_unique<EulerImplicitFDM>(j.X, j.J, j.c.T, j.N, std::move(pde), o, market, interp, mat);
            else l.fdm = std::make_unique<CrankNicolsonFDMSolver>(j.X, j.J, j.c.T, j.N, std::move(pde), o, market, interp, mat);
            return;
        }
        if (!j.viaSolver) { l.pricer = builder->build(); return; }
        if (!l.solver) l.solver = std::make_unique<MCSolver>(3);
        l.solver->setPricer(builder->build());
    }
    std::array<double, 2> go() {
        if (stage == 0) { parts(); stage = 1; }
        if (stage == 1) { bind(); stage = 2; }
        if (stage == 2) { assemble(); stage = 3; }
        const double a = l.run(j, 0); return {a, l.run(j, 1)};
    }
};
bool sameBits(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
}  // namespace

PROP(C34, pricing, 120000, 2400000, 0, "at least one failure struck") {
    Job j = job(src);
    if (j.c.kind == American) j.paths = {std::min<size_t>(j.paths[0], 30), std::min<size_t>(j.paths[1], 30)};
    // The backward simulation is for the library's own generator, which cannot be rewound: prices that no draw changes
    const bool stockGen = !j.fd && j.sp.kind == GBM && src.chance(1, 3);
    if (stockGen) { j.mk.sigma = 0; j.gen = 0; }
    const bool memory = src.chance(1, 3);
    src.note(j.str(), memory ? " memory runs out" : " parts fail", stockGen ? " own generator" : "");
    src.label(j.fd ? "finite differences" : kindName(j.c.kind)); src.label(memory ? "memory" : "parts");
    j.mk.apply();
    std::array<double, 2> want; long trips;
    { Fuse f; World w(j, f, stockGen); if (memory) { Armed a(-1); want = w.go(); trips = gCount; } else { want = w.go(); trips = f.count; } }
    Fuse f; f.type = static_cast<int>(src.below(kErrors));
    World w(j, f, stockGen);
    const int tries = static_cast<int>(src.range(1, 4));
    for (int k = 0; k <= tries; ++k) {
        if (w.gen) w.gen->rewind();
        const long at = k == tries ? -1 : src.chance(1, 3) ? static_cast<long>(src.below(std::min<uint64_t>(static_cast<uint64_t>(trips) + 1, 60))) : static_cast<long>(src.below(static_cast<uint64_t>(trips) + 1));
        f.serial = k + 1; f.blown = false; f.left = memory ? -1 : at;
        std::array<double, 2> got{};
        const int stage = w.stage;
        const auto [seen, oom, other] = catching(f.type, [&] { if (memory) { Armed a(at); got = w.go(); } else got = w.go(); });
        f.left = -1;
        const bool blown = memory ? gBlown : f.blown;
        if (at >= 0) src.note("failure at ", at, blown ? memory ? " of the allocations" : cat(" in the ", f.where) : " not reached", ", stage ", stage);
        if (blown) { src.nontrivial(); if (!memory) src.label(f.where); }
        REQUIRE(other.empty(), "another error surfaced: ", other, blown ? " instead of the failure" : " without any failure");
        REQUIRE((seen != 0 || oom) == blown, blown ? "the failure was swallowed" : "a failure without a cause");
        if (blown && !memory) REQUIRE(seen == f.serial, "the error that surfaced is not the one that was thrown");
        if (blown && memory) REQUIRE(oom, "running out of memory surfaced as another error");
        if (!blown) REQUIRE(sameBits(got[0], want[0]) && sameBits(got[1], want[1]), "prices ", got[0], ", ", got[1], " after ", k, " failed attempts, ", want[0], ", ", want[1], " without");
    }
    // nothing is kept alive by a failed attempt
    std::weak_ptr<FMarket> wm = w.market; std::weak_ptr<Option> wo = w.option; std::weak_ptr<FGen> wg = w.gen; std::weak_ptr<StockModel> ws = w.model; std::weak_ptr<FReg> wr = w.reg; std::weak_ptr<FBas> wb = w.bas; std::weak_ptr<FInterp> wi = w.interp; std::weak_ptr<FMat> wx = w.mat; std::weak_ptr<FDisc> wd = w.disc;
    w.l = Live(); w.builder.reset(); w.model.reset(); w.gen.reset(); w.market.reset(); w.option.reset(); w.reg.reset(); w.bas.reset(); w.interp.reset(); w.mat.reset(); w.disc.reset();
    REQUIRE(wm.expired() && wo.expired() && wg.expired() && ws.expired() && wr.expired() && wb.expired() && wi.expired() && wx.expired() && wd.expired(), "a part is still alive after every user was released");
    md()->removeObserver();
}

namespace {
struct Sleeper : MarketDataObserver {
    int calls = 0; bool fails = false, failed = false; int serial = 0, type = 0;
    using MarketDataObserver::MarketDataObserver;
    void update() override { ++calls; if (fails) { fails = false; failed = true; raise(type, serial); } }
};
struct Quote { double S, sigma; std::optional<double> c; bool operator==(const Quote&) const = default; };
Quote read(const StockData& d) { return {d.getPrice(), d.getSigma(), d.getCoupon()}; }
}  // namespace

// Histories of the market-data store in which observers fail or memory runs out
PROP(C34, market, 200000, 4000000, 24, "at least one failure struck") {
    auto m = md();
    std::vector<std::string> names{"F1", "F2", "a ticker name too long to be held in place, and to be found again"};
    std::vector<Quote> now; std::vector<std::shared_ptr<const StockData>> held;
    for (auto& t : names) { now.push_back({src.logreal(1, 1000), src.real(0, 1), std::nullopt}); m->addStock(t, now.back().S, now.back().sigma); m->updateStockCoupon(t, std::nullopt); held.push_back(m->getStockData(t)); }
    double r = 0.03; m->setR(r);
    std::vector<std::shared_ptr<Sleeper>> obs; std::vector<bool> registered;
    for (int i = static_cast<int>(src.range(0, 9)); i > 0; --i) { obs.push_back(std::make_shared<Sleeper>(src.pick(names))); registered.push_back(false); }
    static int fresh = 0;
    int serial = 0;
    for (int n = static_cast<int>(src.range(1, 14)), k = 0; k < n; ++k) {
        const int op = static_cast<int>(src.below(8)); const size_t s = src.below(names.size());
        const std::string& t = names[s];
        const bool memory = src.chance(1, 3); const long at = memory ? static_cast<long>(src.below(5)) : -1;
        Sleeper* bad = nullptr;
        if (!memory && !obs.empty() && src.flag()) { bad = obs[src.below(obs.size())].get(); bad->fails = true; bad->failed = false; bad->serial = ++serial; bad->type = static_cast<int>(src.below(kErrors)); }
        std::vector<int> before; for (auto& o : obs) before.push_back(o->calls);
        const Quote old = now[s]; Quote next = old; const double oldR = r; double nextR = r; size_t who = obs.empty() ? 0 : src.below(obs.size());
        std::string made;
        std::function<void()> act;
        switch (op) {
            case 0: next.S = src.logreal(1, 1000); act = [&] { m->updateStockPrice(t, next.S); }; break;
            case 1: next.sigma = src.real(0, 1); act = [&] { m->updateStockSigma(t, next.sigma); }; break;
            case 2: next.c = src.flag() ? std::optional<double>(src.real(0, 1)) : std::nullopt; act = [&] { m->updateStockCoupon(t, next.c); }; break;
            case 3: next = {src.logreal(1, 1000), src.real(0, 1), src.real(0, 1)}; act = [&] { m->addStock(t, next.S, next.sigma, next.c); }; break;
            case 4: nextR = src.real(-0.05, 0.2); act = [&] { m->setR(nextR); }; break;
            case 5: if (obs.empty() || registered[who]) { if (bad) bad->fails = false; continue; } act = [&] { m->addObserver(obs[who]); }; break;
            case 6: act = [&] { m->removeObserver(); }; break;
            default: made = cat("a new ticker with a name too long to be held in place, number ", ++fresh); act = [&] { m->addStock(made, 5.0, 0.5); };
        }
        static const char* ops[] = {"price", "volatility", "coupon", "add again", "rate", "register", "prune", "new stock"};
        const auto [seen, oom, other] = catching(bad ? bad->type : 0, [&] { if (memory) { Armed a(at); act(); } else act(); });
        const bool thrown = seen != 0 || oom || !other.empty();
        REQUIRE(!oom || (memory && gBlown), "out of memory without a cause");
        REQUIRE(seen == 0 || (bad && bad->failed && seen == bad->serial), "not the error that was thrown");
        const bool struck = memory ? gBlown : bad && bad->failed;
        src.note(ops[op], " ", t, memory ? cat(" memory gone at ", at) : bad ? " an observer fails" : "", struck ? " (struck)" : ""); src.label(cat(ops[op], struck ? memory ? ": out of memory" : ": observer failed" : ""));
        REQUIRE(other.empty(), "another error: ", other);
        REQUIRE(thrown == struck, struck ? "the failure was swallowed" : "an error without a cause");
        if (struck) src.nontrivial();
        if (bad) bad->fails = false;
        // the change was made, or it was not
        const Quote q = read(*m->getStockData(t)); r = m->getR();
        if (!thrown) { REQUIRE(q == next, "the quote is not the new one"); REQUIRE(r == nextR, "the rate is not the new one"); }
        else { REQUIRE(q == old || q == next, "the quote is neither the old nor the new one"); REQUIRE(r == oldR || r == nextR, "rate ", r); }
        now[s] = q;
        for (size_t i = 0; i < names.size(); ++i) { REQUIRE(m->getStockData(names[i]) == held[i], "the stock data object was replaced"); REQUIRE(read(*held[i]) == now[i], "another quote changed, or the held one did not"); }
        if (op == 5 && !thrown) registered[who] = true;
        for (size_t i = 0; i < obs.size(); ++i) {
            const int expect = !registered[i] ? 0 : op == 4 ? 1 : op <= 3 && obs[i]->getID() == t ? 1 : 0, calls = obs[i]->calls - before[i];
            if (thrown) REQUIRE(calls >= 0 && calls <= expect, "observer called ", calls, " times"); else REQUIRE(calls == expect, "observer called ", calls, " times instead of ", expect);
        }
        if (!made.empty()) {
            std::shared_ptr<const StockData> d; bool absent = false;
            try { d = m->getStockData(made); } catch (const std::invalid_argument&) { absent = true; }
            REQUIRE(absent || (d && read(*d) == (Quote{5.0, 0.5, std::nullopt})), "a half-made stock");
            if (!thrown) REQUIRE(!absent, "the new stock is missing");
        }
    }
    obs.clear(); m->removeObserver();
}

namespace {
struct Told : Option {
    int* told;
    Told(int* n, const std::string& t, std::unique_ptr<Payoff> p, double T, std::shared_ptr<IMarketData> m) : Option(t, std::move(p), T, std::move(m)), told(n) {}
    double calc_price() const override { return 0; }
    void update() override { ++*told; }
};
struct ToldFactory : OptionFactory<Told, PayoffVanilla> {
    int* told; std::weak_ptr<Told>* made;
    std::unique_ptr<PayoffVanilla> createSpecificPayoff(const ParameterObject& p, const PayoffType& t) override { return std::make_unique<PayoffVanilla>(t, p.getParameter<double>("K")); }
    std::shared_ptr<Told> createSpecificOption(const ParameterObject& p, std::unique_ptr<PayoffVanilla> f, const std::shared_ptr<IMarketData>& m) override {
        auto o = std::make_shared<Told>(told, p.getParameter<std::string>("ticker"), std::move(f), p.getParameter<double>("T"), m); *made = o; return o;
    }
    std::string getType(const PayoffType&) const override { return "Told"; }
};
}  // namespace
// Contracts and payoffs: creation that runs out of memory leaves nothing registered, and the same request succeeds afterwards
PROP(C34, contracts, 160000, 3200000, 24, "memory ran out while the contract was being made") {
    Job j = job(src); j.mk.apply();
    auto m = md();
    const auto p = j.c.params();
    src.note(j.c.str()); src.label(kindName(j.c.kind));
    auto twin = j.c.make();
    { Armed a(-1); auto o = create(j.c.kind, j.c.call, p); }
    const long trips = gCount;
    bool struck = false;
    std::vector<std::shared_ptr<Option>> kept; // the room for registrations runs out at another contract each time
    for (int k = static_cast<int>(src.range(1, 4)); k > 0; --k) {
        for (int i = static_cast<int>(src.range(0, 5)); i > 0; --i) kept.push_back(j.c.make());
        const long at = static_cast<long>(src.below(static_cast<uint64_t>(trips) + 2));
        std::shared_ptr<Option> o; bool oom = false;
        try { Armed a(at); o = create(j.c.kind, j.c.call, p); } catch (const std::bad_alloc&) { oom = true; }
        src.note("memory gone at ", at, " of ", trips, oom ? " (struck)" : "");
        REQUIRE(oom == gBlown, oom ? "out of memory without a cause" : "running out of memory was swallowed");
        struck = struck || oom;
        if (!oom) { REQUIRE(o && *o == *twin, "the contract differs from one made without a failure"); kept.push_back(o); }
        { // a contract of our own kind tells whether it was registered
            int told = 0; std::weak_ptr<Told> made; std::shared_ptr<Told> t; ToldFactory tf; tf.told = &told; tf.made = &made; bool oom3 = false;
            ParameterObject q; q.setParameter("ticker", j.mk.ticker); q.setParameter("T", 1.0); q.setParameter("K", 1.0);
            try { Armed a(static_cast<long>(src.below(14))); t = tf.createCallOption(q); } catch (const std::bad_alloc&) { oom3 = true; }
            REQUIRE(oom3 == gBlown, "running out of memory was swallowed when a contract was made");
            if (oom3) REQUIRE(made.expired(), "a contract that could not be made is still alive");
            m->setR(j.mk.r);
            REQUIRE(told == (oom3 ? 0 : 1), "a contract that was ", oom3 ? "not " : "", "made was notified ", told, " times of one change of the rate");
            if (oom3) src.label("own kind of contract: out of memory");
        }
        std::unique_ptr<Payoff> c; bool oom2 = false;
        try { Armed a(static_cast<long>(src.below(3))); c = twin->getPayoff().clone(); } catch (const std::bad_alloc&) { oom2 = true; }
        REQUIRE(oom2 == gBlown, "cloning swallowed running out of memory");
        if (!oom2) REQUIRE(c && *c == twin->getPayoff(), "the clone differs");
        m->updateStockPrice(j.mk.ticker, j.mk.S); m->setR(j.mk.r); // whatever was registered is notified
    }
    src.nontrivial(struck);
    auto o = create(j.c.kind, j.c.call, p);
    REQUIRE(*o == *twin, "the contract made after the failures differs");
}
