// A pricing task, completely described, and the objects it is built from.
#pragma once
#include <array>
#include <iostream>
#include "mc.h"
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/basis_function/monomial.h"
#include "numerical_analysis/interpolation/linear_interpolation.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"
#include "numerical_analysis/regression/lasso.h"
#include "numerical_analysis/regression/least_squares.h"
#include "numerical_analysis/regression/ridge.h"
#include "solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"
#include "solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_implicit_fdm_solver.h"

namespace jobs {
using namespace mc;
using namespace OptionPricer::PDE::OneFactor;
using namespace OptionPricer::FDM::OneFactor;
using pbt::Src; using pbt::cat;

static struct Quiet { Quiet() { std::cerr.rdbuf(nullptr); } } quiet; // stability warnings

// One pricing task, completely described
struct Job {
    Market mk; Contract c; Spec sp; bool fd = false, milstein = false, viaSolver = false, stock = true;
    int gen = 0, reg = 0, bas = 0, scheme = 0, interp = 0, mat = 0;
    unsigned steps = 4, seed = 1, nb = 3; double X = 300; unsigned long J = 12, N = 12; std::array<size_t, 2> paths{10, 10};
    std::string str() const {
        return fd ? cat("FD scheme ", scheme, " ", c.str(), " ", mk.str(), " X=", X, " J=", J, " N=", N, " interp ", interp, " matrix ", mat)
                  : cat(stock ? sp.str() : "default model", " ", c.str(), " ", mk.str(), " steps=", steps, " seed=", seed, " generator ", gen, " paths ", paths[0], "+", paths[1],
                        c.kind == American ? cat(" regression ", reg, " basis ", bas, "x", nb) : "", milstein ? " Milstein" : "", viaSolver ? " via MCSolver" : "");
    }
};
inline Job job(Src& s) {
    Job j; j.mk = market(s, 0.6); j.mk.sigma = std::max(j.mk.sigma, 0.05);
    j.fd = s.chance(1, 4);
    j.c.kind = j.fd ? European : static_cast<int>(s.below(kKinds)); j.c.call = s.flag(); j.c.ticker = j.mk.ticker;
    j.c.K = j.mk.S * s.pick({1.0, 1.1, 0.9, s.real(0.5, 1.6)}); j.c.K2 = j.c.K * s.pick({1.2, s.real(1.01, 2)}); j.c.B = j.mk.S * s.pick({1.1, 0.9, s.real(0.6, 1.5)});
    j.c.dir = s.flag() ? BarrierDirection::Down : BarrierDirection::Up; j.c.T = s.pick({1.0, 0.5, s.real(0.1, 3)});
    if (j.fd) {
        j.scheme = static_cast<int>(s.below(3)); j.interp = static_cast<int>(s.below(3)); j.mat = static_cast<int>(s.below(4));
        j.X = j.mk.S * s.pick({3.0, s.real(2, 5)}); j.J = static_cast<unsigned long>(s.range(5, 24)); j.N = static_cast<unsigned long>(s.range(3, 16));
        if (j.scheme == 0) j.N = static_cast<unsigned long>(j.mk.sigma * j.mk.sigma * j.c.T * static_cast<double>((j.J - 1) * (j.J - 1))) + 3;
        return j;
    }
    j.sp = spec(s, static_cast<int>(s.below(kModels)), j.mk.sigma);
    j.gen = j.sp.kind == GBM || j.sp.kind == HESTON ? static_cast<int>(s.below(3)) : 0;
    j.milstein = s.flag(); j.viaSolver = s.flag();
    j.steps = static_cast<unsigned>(s.range(1, 12)); j.seed = s.pick<unsigned>({1, 2, 77, s.seed32() & 0xffff});
    j.paths = {static_cast<size_t>(s.range(1, 60)), static_cast<size_t>(s.range(1, 60))};
    j.reg = static_cast<int>(s.below(4)); j.bas = static_cast<int>(s.below(5)); j.nb = static_cast<unsigned>(s.range(1, 4));
    return j;
}
inline std::shared_ptr<NumberGenerator> generator(const Job& j) {
    if (j.gen == 1) return std::make_shared<SobolGenerator>(j.steps, j.seed);
    if (j.gen == 2) return std::make_shared<FaureGenerator>(j.steps, j.seed);
    return std::make_shared<PseudoRandomNumberGenerator>(j.steps, j.seed);
}
inline std::shared_ptr<CIRDiscretization> scheme(const Job& j) {
    if (!j.milstein) return nullptr;
    return std::make_shared<CIRMilsteinDiscretization>();
}
inline std::shared_ptr<Regression> regression(int k) {
    if (k == 1) return std::make_shared<LeastSquaresRegression>();
    if (k == 2) return std::make_shared<RidgeRegression>(0.5);
    if (k == 3) return std::make_shared<LassoRegression>(0.1);
    return nullptr;
}
inline std::shared_ptr<BasisFunction> basisFn(int k, unsigned n) {
    switch (k) { case 1: return std::make_shared<MonomialBasisFunction>(n); case 2: return std::make_shared<LegendreBasisFunction>(n);
        case 3: return std::make_shared<LaguerreBasisFunction>(n); case 4: return std::make_shared<ChebyshevBasisFunction>(n); default: return nullptr; }
}
inline std::shared_ptr<Interpolation> interpolation(int k) {
    if (k == 1) return std::make_shared<LinearInterpolation>();
    if (k == 2) return std::make_shared<QuadraticInterpolation>();
    return nullptr;
}
inline std::shared_ptr<MatrixSolver> matrixSolver(int k) {
    switch (k) { case 1: return std::make_shared<ThomasAlgorithm>(); case 2: return std::make_shared<LUDecompositionSolver>(); case 3: return std::make_shared<PartialPivotingLUSolver>(); default: return nullptr; }
}
// Everything a task is made of; any handle may be released once the task is built
struct Parts {
    std::shared_ptr<IMarketData> market; std::shared_ptr<Option> option; std::shared_ptr<NumberGenerator> gen; std::shared_ptr<CIRDiscretization> disc; std::shared_ptr<StockModel> model;
    std::shared_ptr<Regression> reg; std::shared_ptr<BasisFunction> bas; std::shared_ptr<Interpolation> interp; std::shared_ptr<MatrixSolver> mat; std::unique_ptr<MCBuilder> builder;
};
struct Live {
    std::unique_ptr<MCPricer> pricer; std::unique_ptr<MCSolver> solver; std::unique_ptr<FDMSolver> fdm;
    double run(const Job& j, size_t k) {
        if (fdm) return fdm->calculatePrice();
        if (solver) { solver->setN(j.paths[k]); return solver->solve(); }
        return pricer->calculatePrice(j.paths[k]);
    }
};
inline Live build(const Job& j, Parts& p) {
    Live l;
    if (!p.market) p.market = md();
    p.option = j.c.make();
    if (j.fd) {
        auto o = std::dynamic_pointer_cast<EuropeanOption>(p.option);
        p.interp = interpolation(j.interp); p.mat = matrixSolver(j.mat);
        auto pde = std::make_unique<BlackScholesPDE>(o, p.market);
        if (j.scheme == 0) l.fdm = std::make_unique<EulerExplicitFDM>(j.X, j.J, j.c.T, j.N, std::move(pde), o, p.market, p.interp);
        else if (j.scheme == 1) l.fdm = std::make_unique<EulerImplicitFDM>(j.X, j.J, j.c.T, j.N, std::move(pde), o, p.market, p.interp, p.mat);
        else l.fdm = std::make_unique<CrankNicolsonFDMSolver>(j.X, j.J, j.c.T, j.N, std::move(pde), o, p.market, p.interp, p.mat);
        return l;
    }
    if (j.stock) { p.gen = generator(j); p.disc = scheme(j); p.model = j.sp.make(j.mk.ticker, p.market, p.gen, p.disc); }
    p.builder = builder(builderOf(j.c.kind));
    p.builder->setOption(p.option); if (p.model) p.builder->setStockPriceModel(p.model); p.builder->setMarketData(p.market);
    if (j.c.kind == American) {
        p.reg = regression(j.reg); p.bas = basisFn(j.bas, j.nb);
        auto* a = dynamic_cast<AmericanMCBuilder*>(p.builder.get());
        if (p.reg) a->setRegressionStrategy(p.reg);
        if (p.bas) a->setBasisFunctionStrategy(p.bas);
    }
    l.pricer = p.builder->build();
    if (j.viaSolver) { l.solver = std::make_unique<MCSolver>(3); l.solver->setPricer(std::move(l.pricer)); }
    return l;
}
}  // namespace jobs
