// C29 prices are a function of their inputs, whatever else is priced; C30 components may be released in any order
#include <sys/wait.h>
#include <unistd.h>
#include <array>
#include <atomic>
#include <thread>
#include <iostream>
#include <map>
#include "jobs.h"

using namespace jobs;
using pbt::close;

namespace {
// The two prices of the task in a process that does nothing else
std::array<double, 2> alone(const Job& j) {
    int fd[2]; if (pipe(fd) != 0) throw std::runtime_error("pipe");
    const pid_t pid = fork();
    if (pid == 0) {
        std::array<double, 2> r{NAN, NAN};
        try { j.mk.apply(); Parts p; Live l = build(j, p); r[0] = l.run(j, 0); r[1] = l.run(j, 1); } catch (...) { _exit(3); }
        const bool ok = write(fd[1], r.data(), sizeof r) == static_cast<ssize_t>(sizeof r);
        _exit(ok ? 0 : 4);
    }
    close(fd[1]);
    std::array<double, 2> r{NAN, NAN}; const bool ok = read(fd[0], r.data(), sizeof r) == static_cast<ssize_t>(sizeof r);
    close(fd[0]); int st; waitpid(pid, &st, 0);
    if (!ok) throw pbt::Fail{cat("the task alone ended with status ", st, ": ", j.str())};
    return r;
}
bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || close(a, b, 1e-12); }
struct Snapshot {
    double r; std::map<std::string, std::array<double, 4>> q;
    static std::array<double, 4> of(const std::string& t) { auto s = md()->getStockData(t); return {s->getPrice(), s->getSigma(), s->getCoupon().value_or(0), s->getCoupon().has_value() ? 1.0 : 0.0}; }
    void take(const std::vector<std::string>& ts) { r = md()->getR(); q.clear(); for (auto& t : ts) q[t] = of(t); }
    void check(const char* when) const {
        REQUIRE(md()->getR() == r, "the rate changed from ", r, " to ", md()->getR(), " ", when);
        for (auto& [t, v] : q) REQUIRE(of(t) == v, "the quote of ", t, " changed ", when);
    }
};
}  // namespace

// ---------------------------------------------------------------- C29
PROP(C29, isolated, 8000, 160000, 1, "two tasks overlap: one is built or run between the build and the last run of another") {
    const size_t n = static_cast<size_t>(src.range(1, 5));
    std::vector<Job> jobs; for (size_t i = 0; i < n; ++i) { jobs.push_back(job(src)); if (i && src.chance(1, 4)) { const auto keep = jobs[i]; jobs[i] = jobs[i - 1]; const double by = (src.flag() ? -1 : 1) * src.logreal(1e-10, 1e-3); // almost the same task is another task
                switch (src.below(9)) { case 0: jobs[i].c.call = !jobs[i].c.call; break; case 1: jobs[i].mk.r += 0.03; break; case 2: jobs[i].mk.sigma *= 1.3; break; case 3: jobs[i].c.K *= 1.05; break;
                    case 4: jobs[i].mk.r += by; break; case 5: jobs[i].mk.sigma *= 1 - std::fabs(by); break; case 6: jobs[i].c.K *= 1 + by; break; case 7: jobs[i].mk.S *= 1 + by; break; default: jobs[i].c.T *= 1 - std::fabs(by); } (void)keep; } }
    std::vector<std::array<double, 2>> want; for (auto& j : jobs) { want.push_back(alone(j)); src.note(j.str(), " -> ", want.back()[0], ", ", want.back()[1]); src.label(j.fd ? "finite differences" : kindName(j.c.kind)); if (!j.fd) src.label(mname(j.sp.kind)); }
    const std::vector<std::string> tickers{"AAPL", "MSFT", "X"};
    for (auto& t : tickers) md()->addStock(t, src.real(1, 500), src.real(0, 1));
    std::vector<Parts> parts(n); std::vector<Live> live(n); std::vector<int> state(n, 0); Snapshot snap; size_t last = n; bool overlap = false;
    for (size_t done = 0; done < 3 * n;) {
        size_t i = src.below(n); while (state[i] == 3) i = (i + 1) % n;
        if (last < n && last != i && state[last] > 0 && state[last] < 3) overlap = true;
        last = i;
        if (src.chance(1, 4)) { const double S = src.real(1, 500); const auto t = src.pick(tickers); md()->updateStockPrice(t, S); md()->setR(src.real(-0.05, 0.2)); src.note("market moves"); }
        if (state[i] == 0) {
            if (src.flag()) jobs[i].mk.apply();
            src.note("build ", i);
            snap.take(tickers); live[i] = build(jobs[i], parts[i]); snap.check("while a task was built");
        } else {
            jobs[i].mk.apply();
            snap.take(tickers); const double got = live[i].run(jobs[i], static_cast<size_t>(state[i] - 1)), w = want[i][state[i] - 1];
            src.note("run ", state[i], " of ", i, " -> ", got);
            REQUIRE(same(got, w), "price ", got, ", in a process of its own ", w, ": ", jobs[i].str());
            snap.check("while a price was calculated");
            REQUIRE(parts[i].option->getT() == jobs[i].c.T, "the contract's maturity changed");
        }
        ++state[i]; ++done;
    }
    src.nontrivial(overlap);
}
// Splitting the paths over several calls, or pricing the same twice, gives the same paths: prices of one pricer average to the price of all its paths
PROP(C29, additive, 12000, 240000, 0, "both parts have at least two paths") {
    Job j = job(src); while (j.fd || j.c.kind == American) { j.fd = false; j.c.kind = European; j.sp = Spec(); }
    src.note(j.str()); src.label(kindName(j.c.kind)); src.nontrivial(j.paths[0] > 1 && j.paths[1] > 1);
    j.mk.apply();
    Parts a, b, c; Live la = build(j, a), lb = build(j, b);
    const double p0 = la.run(j, 0), p1 = la.run(j, 1);
    Job all = j; all.paths[0] = j.paths[0] + j.paths[1];
    const double p = lb.run(all, 0), n0 = static_cast<double>(j.paths[0]), n1 = static_cast<double>(j.paths[1]), mean = (n0 * p0 + n1 * p1) / (n0 + n1);
    REQUIRE(close(p, mean, 1e-10, 1e-12 * j.mk.S), "prices ", p0, " on ", n0, " and ", p1, " on ", n1, " paths average to ", mean, ", all at once ", p);
}

// ---------------------------------------------------------------- C30
PROP(C30, release, 40000, 800000, 64, "at least three handles released before the price is calculated") {
    const Job j = job(src);
    src.note(j.str()); src.label(j.fd ? "finite differences" : kindName(j.c.kind)); if (!j.fd) src.label(mname(j.sp.kind));
    j.mk.apply();
    double want0, want1;
    { Parts p; Live l = build(j, p); want0 = l.run(j, 0); want1 = l.run(j, 1); }
    Parts p; std::weak_ptr<FakeMarket> wfake;
    if (src.flag()) { auto f = std::make_shared<FakeMarket>(); f->r = j.mk.r; f->data[j.mk.ticker] = std::make_shared<StockData>(j.mk.S, j.mk.sigma, j.mk.c); wfake = f; p.market = f; src.note("injected market"); src.label("injected market"); }
    Live l = build(j, p);
    std::weak_ptr<Option> wo = p.option; std::weak_ptr<NumberGenerator> wg = p.gen; std::weak_ptr<CIRDiscretization> wd = p.disc; std::weak_ptr<StockModel> wm = p.model;
    std::weak_ptr<Regression> wr = p.reg; std::weak_ptr<BasisFunction> wb = p.bas; std::weak_ptr<Interpolation> wi = p.interp; std::weak_ptr<MatrixSolver> wx = p.mat;
    int released = 0;
    auto release = [&](bool all) {
        for (int k = 0; k < 10; ++k) {
            if (!all && !src.chance(2, 3)) continue;
            switch (k) { case 0: p.market.reset(); break; case 1: p.option.reset(); break; case 2: p.gen.reset(); break; case 3: p.disc.reset(); break; case 4: p.model.reset(); break;
                case 5: p.reg.reset(); break; case 6: p.bas.reset(); break; case 7: p.interp.reset(); break; case 8: p.mat.reset(); break; default: p.builder.reset(); }
            ++released; src.note("release ", k);
        }
    };
    release(false);
    src.nontrivial(released >= 3);
    double got = l.run(j, 0);
    REQUIRE(same(got, want0), "price ", got, " after handles were released, ", want0, " before");
    if (src.flag()) release(false);
    if (src.chance(1, 3)) { j.mk.apply(); md()->setR(j.mk.r); } // observers are notified, some of them gone
    got = l.run(j, 1);
    REQUIRE(same(got, want1), "price ", got, " after handles were released, ", want1, " before");
    if (l.solver && src.flag()) { // a replaced pricer is gone, the new one is used
        if (src.chance(1, 3)) { l.solver->setPricer(nullptr); release(true); src.note("pricer taken away"); REQUIRE(wm.expired() && wg.expired() && wo.expired(), "the pricer taken away still holds its model or contract"); }
        Parts p2; Job k = j; k.viaSolver = false; Live l2 = build(k, p2); l.solver->setPricer(std::move(l2.pricer)); release(true); src.note("pricer replaced"); src.label("pricer replaced");
        REQUIRE(wm.expired() && wg.expired() && wo.expired(), "the replaced pricer still holds its model or contract");
        p2 = Parts(); got = l.run(j, 0); REQUIRE(same(got, want0), "price ", got, " of the new pricer, expected ", want0);
    }
    release(true); l = Live();
    REQUIRE(wo.expired() && wg.expired() && wd.expired() && wm.expired() && wr.expired() && wb.expired() && wi.expired() && wx.expired() && wfake.expired(),
            "still alive after every user was released: ", wo.expired() ? "" : "contract ", wm.expired() ? "" : "model ", wg.expired() ? "" : "generator ", wfake.expired() ? "" : "market ", wr.expired() ? "" : "regression ", wb.expired() ? "" : "basis ", wi.expired() ? "" : "interpolation ", wx.expired() ? "" : "matrix solver ", wd.expired() ? "" : "variance scheme ");
    md()->setR(j.mk.r); md()->updateStockPrice(j.mk.ticker, j.mk.S); md()->removeObserver();
}

// Models and equations on their own, and a solver whose equation was built from another contract object
PROP(C30, components, 40000, 800000, 64, "at least one handle released before use") {
    const Job j = job(src);
    j.mk.apply();
    std::shared_ptr<IMarketData> market = md(); std::weak_ptr<FakeMarket> wfake; const bool fake = src.flag();
    if (fake) { auto f = std::make_shared<FakeMarket>(); f->r = j.mk.r; f->data[j.mk.ticker] = std::make_shared<StockData>(j.mk.S, j.mk.sigma, j.mk.c); wfake = f; market = f; }
    const int what = static_cast<int>(src.below(3));
    src.note(what == 0 ? "model " : what == 1 ? "equation " : "solver with its own equation ", j.str(), fake ? " injected market" : "");
    src.label(what == 0 ? "model" : what == 1 ? "equation" : "solver and equation");
    int released = 0; auto drop = [&](auto& h) { if (src.chance(2, 3)) { h.reset(); ++released; } };
    if (what == 0) {
        const Job q = j.fd ? Job() : j; // a GBM job when finite differences were drawn
        Spec sp = q.sp; const unsigned n = q.steps; std::shared_ptr<NumberGenerator> g = generator(q); auto d = scheme(q);
        std::weak_ptr<NumberGenerator> wg = g; std::weak_ptr<CIRDiscretization> wd = d;
        auto kept = generator(q); auto keptModel = sp.make(j.mk.ticker, market, kept, scheme(q));
        auto model = sp.make(j.mk.ticker, market, g, d);
        std::vector<std::vector<double>> want; for (int i = 0; i < 2; ++i) want.push_back(keptModel->simulatePrices(j.c.T));
        keptModel.reset();
        drop(market); drop(g); drop(d); src.nontrivial(released > 0);
        for (int i = 0; i < 2; ++i) { REQUIRE(model->simulatePrices(j.c.T) == want[i], "path ", i, " differs after handles were released"); if (i == 0) { market.reset(); g.reset(); d.reset(); } }
        REQUIRE(model->getSteps() == n && !wg.expired(), "the model lost its generator");
        model.reset();
        REQUIRE(wg.expired() && wd.expired() && wfake.expired(), "still alive after the model was released");
        return;
    }
    Contract c = j.c; c.kind = European;
    auto o = std::dynamic_pointer_cast<EuropeanOption>(c.make()), o2 = std::dynamic_pointer_cast<EuropeanOption>(c.make());
    std::weak_ptr<EuropeanOption> wo = o, wo2 = o2;
    auto pde = std::make_unique<BlackScholesPDE>(o, market);
    if (what == 1) {
        struct At { double t, x; }; std::vector<At> at; for (int i = 0; i < 3; ++i) at.push_back({src.real(0, c.T), src.real(0, 3) * j.mk.S});
        auto eval = [&] { std::vector<double> v; for (auto& a : at) for (double x : {pde->diffusion(a.t, a.x), pde->convection(a.t, a.x), pde->reaction(a.t, a.x), pde->rightHandSide(a.t, a.x), pde->boundaryLeft(a.t, a.x), pde->boundaryRight(a.t, a.x), pde->initialCondition(a.x)}) v.push_back(x); return v; };
        const auto want = eval();
        o2.reset(); drop(market); drop(o); src.nontrivial(released > 0);
        REQUIRE(eval() == want, "the equation changed after handles were released");
        market.reset(); o.reset();
        REQUIRE(eval() == want, "the equation changed after all handles were released");
        pde.reset();
        REQUIRE(wo.expired() && wfake.expired(), "still alive after the equation was released");
        return;
    }
    const double X = 3 * j.mk.S; const unsigned long J = 12, N = 12;
    auto interp = interpolation(j.interp); auto mat = matrixSolver(j.mat);
    auto make = [&](std::unique_ptr<BlackScholesPDE> e) -> std::unique_ptr<FDMSolver> {
        if (j.scheme == 0) return std::make_unique<EulerExplicitFDM>(X, J, c.T, N, std::move(e), o2, market, interp);
        if (j.scheme == 1) return std::make_unique<EulerImplicitFDM>(X, J, c.T, N, std::move(e), o2, market, interp, mat);
        return std::make_unique<CrankNicolsonFDMSolver>(X, J, c.T, N, std::move(e), o2, market, interp, mat);
    };
    const double want = make(std::make_unique<BlackScholesPDE>(o, market))->calculatePrice();
    auto s = make(std::move(pde));
    drop(market); drop(o); drop(o2); drop(interp); drop(mat); src.nontrivial(released > 0);
    REQUIRE(same(s->calculatePrice(), want), "price ", s->calculatePrice(), " after handles were released, ", want, " before");
    market.reset(); o.reset(); o2.reset(); interp.reset(); mat.reset();
    REQUIRE(same(s->calculatePrice(), want), "price changed after all handles were released");
    s.reset();
    REQUIRE(wo.expired() && wo2.expired() && wfake.expired(), "still alive after the solver was released");
}

// ---------------------------------------------------------------- C31
// Tasks that share nothing but the market run at the same time: no data race (ThreadSanitizer) and the same prices
PROP(C31, concurrent, 1500, 30000, 1, "at least two tasks overlap in time") {
    const size_t n = static_cast<size_t>(src.range(1, 6));
    static const char* names[] = {"AAPL", "MSFT", "X"};
    std::array<Market, 3> mk; const double r = src.real(-0.02, 0.15);
    for (int k = 0; k < 3; ++k) { mk[k] = market(src, 0.6); mk[k].ticker = names[k]; mk[k].r = r; mk[k].sigma = std::max(mk[k].sigma, 0.05); }
    std::vector<Job> jobs(n);
    for (auto& j : jobs) {
        j = job(src); const Market& m = mk[src.below(3)]; const double f = m.S / j.mk.S; // one market for all
        j.c.K *= f; j.c.K2 *= f; j.c.B *= f; j.X *= f; j.mk = m; j.c.ticker = m.ticker;
        if (j.fd && j.scheme == 0) j.N = static_cast<unsigned long>(m.sigma * m.sigma * j.c.T * static_cast<double>((j.J - 1) * (j.J - 1))) + 3;
        if (j.sp.kind == VG && !(1 - j.sp.theta * j.sp.nu - 0.5 * m.sigma * m.sigma * j.sp.nu > 0.02)) j.sp = Spec();
    }
    if (src.flag()) for (auto& j : jobs) { j = jobs[0]; j.seed += src.below(2); } // the same kind of task on every thread
    if (src.chance(1, 3)) for (auto& j : jobs) if (!j.fd) j.stock = false; // models the builders make up: their seeds are random, races show all the same
    std::vector<std::array<double, 2>> want; for (auto& j : jobs) { want.push_back(alone(j)); src.note(j.str()); src.label(j.fd ? "finite differences" : kindName(j.c.kind)); }
    for (auto& m : mk) m.apply();
    std::vector<Parts> parts(n); std::vector<Live> live(n); for (size_t i = 0; i < n; ++i) live[i] = build(jobs[i], parts[i]);
    std::vector<std::array<double, 2>> got(n); std::atomic<size_t> ready{0}; std::vector<std::thread> ts; std::vector<unsigned> jitter; for (size_t i = 0; i < n; ++i) jitter.push_back(static_cast<unsigned>(src.below(200)));
    for (size_t i = 0; i < n; ++i) ts.emplace_back([&, i] {
        ++ready; while (ready < n) std::this_thread::yield();
        for (volatile unsigned k = 0; k < jitter[i]; k = k + 1) {}
        got[i][0] = live[i].run(jobs[i], 0); got[i][1] = live[i].run(jobs[i], 1);
    });
    for (auto& t : ts) t.join();
    src.nontrivial(n >= 2); src.label(cat(n, " threads"));
    for (size_t i = 0; i < n; ++i) for (int k = 0; k < 2; ++k) if (jobs[i].stock) REQUIRE(same(got[i][k], want[i][k]), "price ", got[i][k], " next to other tasks, alone ", want[i][k], ": ", jobs[i].str());
}
