#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (python3 tools/make_docs.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [dict(zip(('name', 'meaning', 'where'), s)) for s in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), technique, note))


OPT, PAY = 'src/option/', 'src/payoff/'
MC, MOD, RND, NUM, FD = 'src/solver/monte_carlo/', 'src/model/', 'src/random/', 'src/numerical_analysis/', 'src/solver/finite_difference_method/'

prop('C01', 'Payoffs equal their textbook formulas for every spot, strike and side',
     'A vanilla payoff is max(S-K,0) or max(K-S,0); a digital pays 1 strictly in the money and 0 otherwise; a double digital pays 1 exactly when the spot is in the closed band between its strikes; a floating-strike lookback pays S minus the minimum or the maximum minus S. '
     'Payoffs are never negative, are monotone in the spot as their side implies, and a contract of any of the ten kinds reports exactly the value of its payoff.',
     ['inputs'], 'all payoff kinds and sides, all finite non-negative strikes and spots including spots equal to or one ulp from a strike, zero and extreme magnitudes; all ten contract kinds',
     'The unit tests look at three or four spots for one strike; nothing samples ties, one-ulp neighbours or extreme magnitudes, and path-dependent contracts are not tested at all.',
     [PAY + 'single_strike/payoff_vanilla.cpp', PAY + 'single_strike/payoff_digital.cpp', PAY + 'double_strikes/payoff_double_digital.cpp', PAY + 'payoff_floating_strike_lookback.cpp', OPT + 'base_option.cpp'],
     [('payoff formulas', PAY + 'single_strike/*, double_strikes/*, payoff_floating_strike_lookback.cpp'), ('delegation from option to payoff', OPT + 'base_option.cpp')],
     'property-based testing against reference formulas', 'Randomised over strikes, spots (ties, ulp neighbours, extremes), sides and contract kinds, under ASan/UBSan; oracle is a three-line formula.')
prop('C02', 'Payoffs have value identity: validation, equality and cloning',
     'A payoff is accepted exactly when its strikes are non-negative numbers and its side fits its kind, and rejected with an invalid-argument error otherwise. '
     'Two payoffs are equal exactly when kind, side and strikes agree, inequality is the negation, and both are symmetric. A clone is equal, independent of the original\'s lifetime, and pays the same for every spot.',
     ['inputs'], 'all pairs of payoffs (equal, differing in one field, unrelated) and all strikes including zero, negative, -0.0 and NaN',
     'Unit tests compare a few hand-picked pairs and two invalid strikes; NaN, mixed kinds and one-ulp differences are not sampled.',
     [PAY + 'base_payoff.cpp', PAY + 'single_strike/base_payoff_single_strike.cpp', PAY + 'double_strikes/base_payoff_double_strikes.cpp'],
     [('constructor validation', PAY + '*/base_payoff_*.cpp'), ('comparison and clone', PAY + '**')],
     'property-based testing of equality, clone and rejection laws', 'Randomised pairs mutated in one field; rejection judged on the exception type.')
prop('C03', 'Rejected market-data changes leave the store exactly as it was',
     'A stock is stored only if its price is positive, its volatility non-negative and its coupon, when present, within [0,1] (NaN never qualifies); any other add or update, and any operation on an unknown ticker, is rejected with an invalid-argument error. '
     'A rejected operation changes nothing: every quote, the rate and every handle obtained earlier still show the values of the last accepted operation.',
     ['histories', 'inputs'], 'all histories of adding, re-adding, updating price / volatility / coupon, rate changes, lookups and option creation, with valid and invalid values interleaved',
     'The tests perform one invalid update per fixture and only look at whether it throws; no test reads the store after a rejection, and none runs a history.',
     ['src/market_data/market_data.cpp', 'src/market_data/stock_data.cpp', 'include/market_data/market_data.h'],
     [('validate before commit', 'src/market_data/stock_data.cpp'), ('lookup failure throws', 'src/market_data/market_data.cpp')],
     'stateful model-based testing', 'Histories of up to 30 operations in a fresh process each, compared after every step with a map of accepted quotes.',
     state=[('stock map', 'ticker to quote', 'include/market_data/market_data.h'), ('rate', 'risk-free rate, 0.05 initially', 'src/market_data/market_data.cpp')])
prop('C04', 'The market-data store is a live map from ticker to quote',
     'Reading a ticker always returns the values of the last accepted change of that ticker, and of no other; adding a ticker again replaces its quote. '
     'A handle obtained earlier keeps showing the current values of its ticker after any later change, including re-adding, and every access point sees one and the same store.',
     ['histories'], 'all histories over many tickers (empty, similar, case-variant names) with handles held across changes',
     'Tests set and read a single ticker once; aliasing of handles and interleavings across tickers are never exercised.',
     ['src/market_data/market_data.cpp', 'include/market_data/market_data.h', 'src/market_data/stock_data.cpp'],
     [('single shared quote per ticker', 'include/market_data/market_data.h addStock'), ('update in place', 'src/market_data/market_data.cpp')],
     'stateful model-based testing', 'Map model with held handles; fresh process per history.')
prop('C05', 'Every accepted change notifies exactly the interested live observers',
     'After an accepted change of a stock, even to the value it already had, each live observer of that ticker is notified once per registration, and after a rate change each live observer is, always after the new value is readable; nobody else is called, and rejected changes notify nobody. '
     'Observers are not kept alive by registration and are never called after destruction. Observers may add, drop or prune observers, create options or make further changes from inside a notification without harming the others.',
     ['histories'], 'all histories of registration, re-registration, dropping, pruning, explicit notification, changes of quotes and rate, option creation through factories, with reactions performed inside notifications',
     'Tests use one mock observer and one change; no test drops an observer, registers twice, or reacts inside a notification.',
     ['src/market_data/market_data.cpp', 'src/market_data/market_data_observer.cpp', 'include/option/base_factory_option.h'],
     [('weak observer list', 'include/market_data/market_data.h'), ('notification by ticker', 'src/market_data/market_data.cpp'), ('registration of created options', 'include/option/base_factory_option.h')],
     'stateful model-based testing with re-entrant observers (ASan)', 'Exact call counts per observer; for observers touched in the middle of a notification the count may lie in the only sensible range.')
prop('C06', 'Factories build exactly the requested contract or reject the request',
     'For each of the ten contract kinds a factory either returns a contract with exactly the requested ticker, maturity, side, strikes, barrier level and direction, or rejects the request with an invalid-argument error. '
     'It rejects exactly when a required parameter is missing or of the wrong type, the ticker is unknown to the market, the maturity is negative or NaN, or a strike is negative or NaN; unrelated parameters are ignored and the request can be reused. '
     'A parameter set returns each value as last set, only under its own name and type.',
     ['inputs', 'configurations'], 'all contract kinds, sides, parameter sets with one defect of any kind, boundary values (zero strike, zero and tiny maturity) and overwritten parameters',
     'Only the European factory is tested, with one missing parameter, one bad strike and one bad ticker.',
     ['include/option/base_factory_option.h', 'src/option/parameter_object.cpp', 'include/option/parameter_object.h', OPT + 'single_path/', OPT + 'path_dependent/'],
     [('parameter extraction and checks', 'include/option/base_factory_option.h'), ('typed variant lookup', 'include/option/parameter_object.h'), ('maturity check', OPT + 'base_option.cpp')],
     'property-based testing with single-defect request generation', 'Every defect class per kind; the resulting contract is inspected through its public interface.')
prop('C07', 'Contracts compare by their terms and report current market data',
     'Two contracts are equal exactly when kind, side, ticker, maturity, strikes and barrier terms agree, whatever the quotes are, and inequality is the negation. Two quotes are equal exactly when price, volatility and coupon (absent, or its value) agree. '
     'A contract\'s printed report shows its own type, expiry, payoff side and strikes and the quotes and rate in force at the time of printing, and leaves the format of the stream as it was.',
     ['inputs', 'histories'], 'all pairs of contracts differing in at most one term, and all histories of quote changes between creation and printing',
     'No test compares contracts of different kinds, tickers or barriers, nor prints after an update.',
     [OPT + 'base_option.cpp', OPT + 'path_dependent/barrier_option.cpp', 'src/market_data/stock_data.cpp'],
     [('comparison', OPT + 'base_option.cpp'), ('printing', OPT + 'base_option.cpp, src/payoff/base_payoff.cpp, src/market_data/stock_data.cpp')],
     'property-based testing of comparison laws and report round trip', 'Reports are parsed back by section and field and compared with the model.')
prop('C08', 'The inverse normal distribution is accurate, odd, monotone and guarded',
     'For every probability strictly between 0 and 1 the standard normal inverse agrees with the true quantile to about nine digits, is antisymmetric about one half and non-decreasing, and an inverse of a general normal law, where offered, is its affine image. '
     'Probabilities outside the open unit interval, NaN included, are rejected for every distribution.',
     ['inputs'], 'all probabilities, concentrated at branch points, tails down to 1e-300 and ulp neighbours; all means and positive standard deviations',
     'There are no tests of the distributions at all.',
     [RND + 'distribution/standard_normal_distribution.cpp', RND + 'distribution/normal_distrib.cpp'],
     [('rational approximation by region', RND + 'distribution/standard_normal_distribution.cpp')],
     'property-based testing against a high-precision reference quantile', 'Reference quantile by safeguarded Newton on erfc; error budget derived from the stated accuracy of the approximation per region.')
prop('C09', 'Number generators are reproducible and quasi-random points are the real sequence',
     'A generator\'s stream is a function of its dimension, seed and the draws requested: equal seeds give equal streams, different pseudo-random seeds different ones, and generators made without a seed differ from each other. '
     'Pseudo-random uniforms are uniform on the unit interval and uncorrelated; quasi-random generators deliver consecutive Sobol or Faure points coordinate by coordinate, strictly inside the unit cube, with their stratification. '
     'A generator of dimension zero is rejected.',
     ['inputs', 'histories'], 'all seeds, dimensions and interleavings of draws from different distributions (Sobol up to dimension 3667 and Faure up to 1117, the tables of the underlying library)',
     'There are no tests of the generators.',
     [RND + 'number_generator/pseudo_random_generator.cpp', RND + 'number_generator/base_quasi_random_generator.cpp', RND + 'number_generator/sobol_quasi_random_generator.cpp', RND + 'number_generator/faure_quasi_random_generator.cpp', RND + 'number_generator/base_generator.cpp'],
     [('seeding', RND + 'number_generator/*'), ('coordinate cycling', RND + 'number_generator/base_quasi_random_generator.cpp')],
     'property-based testing: replay, reference sequences, stratification, statistical', 'Sequences compared with an independently driven generator and with the dyadic / b-adic balance property, which needs no library.')
prop('C10', 'Distributions sample the law their parameters name and reject bad parameters',
     'Samples of the uniform, normal, exponential, gamma and Poisson distributions follow the law of the given parameters, whichever generator and seed drives them, and inverse probabilities, where offered, invert that law. '
     'Parameters outside the law\'s domain, NaN included, are rejected when the distribution is built, and laws with no inverse say so with an error rather than returning a number.',
     ['inputs'], 'all parameters over several orders of magnitude, all seeds',
     'There are no tests of the distributions.',
     [RND + 'distribution/'],
     [('parameter checks and sampling', RND + 'distribution/*.cpp')],
     'property-based testing with goodness-of-fit oracles (two-stage)', 'Kolmogorov-Smirnov and moment tests with a confirmation stage on fresh draws; false-alarm probability per case below 1e-9.')
prop('C11', 'Simulated paths have the right shape and always follow the current market',
     'Every model returns exactly one positive finite price per simulation date, and its terminal price is the last price of such a path. Paths scale proportionally with the spot and with the exponential of the carry (rate minus yield), use the quotes and rate in force when simulated even if they changed after the model was built, and are deterministic forwards when there is no randomness.',
     ['inputs', 'histories'], 'all six models over their parameter domains, step counts, horizons, seeds and market changes between construction and simulation',
     'No model is tested.',
     [MOD],
     [('market data read per simulation', MOD + '*.cpp'), ('date loop', MOD + '*.cpp')],
     'metamorphic property-based testing', 'Same seed under scaled spot, shifted carry, market changed before or after construction, and zero volatility.')
prop('C12', 'Discounted asset prices are martingales in every model',
     'In each of the six models the expected simulated price at every date equals the forward price, spot times the exponential of (rate minus dividend yield) times the date. This holds for every admissible parameter set, including jumps of any size, asymmetric jumps and stochastic variance, up to the weak error of the time discretisation where the model needs one.',
     ['inputs', 'configurations'], 'all six models, admissible parameters, horizons and seeds (Variance Gamma where 1 - theta*nu - sigma^2*nu/2 > 0; Kou with eta1 > 1)',
     'No model is tested; a wrong compensator changes prices by amounts a single sampled test cannot separate from noise.',
     [MOD + 'gbm_model.cpp', MOD + 'merton_jump_diffusion_model.cpp', MOD + 'kou_model.cpp', MOD + 'variance_gamma_model.cpp', MOD + 'heston_model.cpp', MOD + 'bates_model.cpp'],
     [('drift compensators', MOD + '*.cpp')],
     'property-based testing with a two-stage statistical oracle', 'Mean of simulated prices against the forward with a six-sigma first stage and a larger confirmation stage.')
prop('C13', 'Simulated log-returns follow the law of the named model',
     'Log-returns over each step of the Black-Scholes, Merton, Kou and Variance Gamma models have the characteristic function of that model and are independent across steps; Heston and Bates follow their correlated price and variance recursion with the chosen variance scheme. '
     'Given the underlying draws, the path is the model\'s own formula of those draws.',
     ['inputs', 'configurations'], 'all six models, admissible parameters, step counts, horizons and seeds',
     'No model is tested.',
     [MOD],
     [('per-step recursions', MOD + '*.cpp')],
     'property-based testing: empirical characteristic functions, recorded-draw replay', 'Recording generator replays draws through an independent formula; laws judged by characteristic function with a confirmation stage.')
prop('C14', 'Backward simulation is the Brownian bridge of the model',
     'Drawing an earlier price from a later one has, on the log scale, the mean and variance of a Brownian bridge from today\'s price to the later price with the current volatility, so that prices simulated backward have the same joint law as prices simulated forward. Models with no such bridge refuse with an error.',
     ['inputs'], 'all pairs of earlier and later dates, prices, volatilities and seeds',
     'Never exercised by tests.',
     [MOD + 'gbm_model.cpp', MOD + 'base_model.cpp'],
     [('bridge formula', MOD + 'gbm_model.cpp simulatePriceBackward'), ('default refusal', MOD + 'base_model.cpp')],
     'property-based testing with recorded draws and moments', 'Exact formula per draw plus distribution of backward samples.')
prop('C15', 'Monte Carlo prices are exactly the discounted mean payoff of their paths',
     'For every contract the price equals the exponential discount at the current rate to maturity times the average, over exactly the requested number of paths, of the contract\'s payoff on the path: terminal price, arithmetic or geometric average, barrier touched at any date, running minimum or maximum. '
     'Hence on common paths knock-in plus knock-out is the vanilla, put-call parity holds between strikes, prices are monotone and convex in the strike, and averages, lookbacks and digitals are ordered as their payoffs are.',
     ['inputs', 'histories'], 'all contract kinds and sides, all sets of paths including dates exactly on a strike or barrier, all models and seeds, rate changes between calls',
     'No pricer is tested.',
     [MC + 'base_mc.cpp', MC + 'mc_single_path.cpp', MC + 'mc_asian.cpp', MC + 'mc_barrier.cpp', MC + 'mc_lookback.cpp', OPT + 'path_dependent/barrier_option.cpp'],
     [('averaging and discounting', MC + 'base_mc.cpp'), ('path functionals', MC + 'mc_*.cpp')],
     'property-based testing with scripted paths and a reference model; metamorphic relations', 'A scripted model plays back given paths, so equality is checked to 1e-11, not statistically.')
prop('C16', 'Monte Carlo prices agree with closed forms and independent simulation',
     'Built through the builder and run by the solver, Monte Carlo prices under Black-Scholes agree within sampling error with the closed form for vanilla, digital, double digital and geometric Asian contracts, and with an independent simulation for arithmetic Asian, barrier and lookback contracts. With low-discrepancy points the error stays within a fraction of plain Monte Carlo error.',
     ['inputs', 'configurations'], 'all market data, contract terms, date counts, seeds and generators, with the default or an explicit model',
     'No price is ever compared with anything in the tests.',
     [MC, MOD + 'gbm_model.cpp', RND],
     [('whole Monte Carlo pipeline', MC)],
     'property-based testing against closed forms and an independent simulator', 'Two-stage: a six-sigma deviation must repeat on six times as many fresh paths.')
prop('C17', 'American options: Longstaff-Schwartz induction is exact on its paths and bounded',
     'Given the simulated prices and the fitted continuation values, the American price is the discounted value of exercising on each path exactly where the exercise value exceeds the fitted continuation, regressing on in-the-money paths only, and never less than immediate exercise. '
     'This holds for forward and backward simulation and for every regression and basis, and under Black-Scholes the price agrees with a Bermudan tree within the bias of the regression.',
     ['inputs', 'configurations'], 'all path sets, exercise policies, dates, strikes, rates, regressions, bases and both simulation schemes',
     'The American pricer is not tested.',
     [MC + 'mc_american.cpp', MC + 'builder/mc_builder_american.cpp', MOD + 'gbm_model.cpp'],
     [('backward induction', MC + 'mc_american.cpp'), ('strategy choice', MC + 'builder/mc_builder_american.cpp')],
     'property-based testing: policy-injecting regression, reference induction, binomial tree', 'A regression and basis supplied by the harness dictate the continuation values, so the induction is compared exactly; end-to-end prices against a tree within a calibrated band.')
prop('C18', 'Builders and solver bind exactly what was set, and refuse what does not fit',
     'A builder refuses to build without a contract, refuses contracts of another kind, and each pricer it builds uses the contract, model, market data and (American) regression and basis set at that time or, when no model was given, a Black-Scholes model of that contract\'s ticker; nothing leaks from earlier builds. '
     'A solver simulates exactly the number of paths last set with the pricer last set, and refuses to solve without one.',
     ['histories', 'configurations'], 'all histories of setting, resetting and building, with several tickers and an injected market',
     'Builders and solver are not tested.',
     [MC + 'builder/', MC + 'mc_solver.cpp'],
     [('builder state', MC + 'builder/base_mc_builder.cpp'), ('kind checks', MC + 'builder/*.cpp'), ('solver', MC + 'mc_solver.cpp')],
     'stateful model-based testing', 'Histories of builder calls with scripted models; deterministic default models make values exact.')
prop('C19', 'Basis functions are the named polynomials',
     'Column k of a generated basis is the k-th monomial, Chebyshev, Legendre or Laguerre polynomial evaluated at each sample, with as many columns as requested and one row per sample, for any requested positive number of functions; zero functions are rejected.',
     ['inputs'], 'all basis families, sizes, and sample vectors including empty-size neighbours, 0, ±1 and large arguments',
     'Not tested.',
     [NUM + 'basis_function/'],
     [('recurrences', NUM + 'basis_function/*.cpp')],
     'property-based testing against explicit coefficients in extended precision', 'Tolerance scaled by the sum of absolute terms.')
prop('C20', 'Regressions return the minimiser they name',
     'Least squares returns coefficients whose residual is orthogonal to every column; ridge returns the unique minimiser of squared error plus penalty times squared coefficients; the lasso returns the soft-thresholded least-squares coefficients, which is the minimiser for orthonormal designs. Negative and NaN penalties are rejected and inputs are never modified.',
     ['inputs'], 'all well-posed designs (square, tall, nearly collinear, badly scaled) and responses, all penalties',
     'Not tested.',
     [NUM + 'regression/'],
     [('normal equations and thresholding', NUM + 'regression/*.cpp')],
     'property-based testing of optimality conditions', 'Optimality conditions and perturbation tests, scaled by conditioning.')
prop('C21', 'Interpolation reproduces nodes, low-degree polynomials and end values',
     'Both interpolations pass through every node, are constant beyond the ends of the grid, and reproduce affine functions; linear interpolation is the chord of the enclosing cell, and quadratic interpolation is the parabola through the cell and the node before it, or the chord in the two end cells. This holds for any increasing grid and any query.',
     ['inputs'], 'all increasing grids (uniform, random, geometric), values and queries, including nodes, ulp neighbours and far outside',
     'Not tested.',
     [NUM + 'interpolation/'],
     [('cell search and formulas', NUM + 'interpolation/*.cpp')],
     'property-based testing against reference formulas (ASan)', 'Newton-form reference; out-of-bounds reads are caught by ASan.')
prop('C22', 'Linear solvers solve their systems or refuse',
     'For diagonally dominant tridiagonal systems of any size all three solvers return a solution with residual at rounding level and agree with each other; for general nonsingular systems both LU solvers do. Singular systems are reported by an error where detected, and inputs are never modified.',
     ['inputs'], 'all sizes from the smallest up, tridiagonal and general sparse matrices with explicit zeros and rows needing pivoting, right-hand sides of any scale',
     'Not tested.',
     [NUM + 'linear_algebra/matrix_solver/'],
     [('elimination', NUM + 'linear_algebra/matrix_solver/*.cpp')],
     'property-based testing: residuals and differential agreement', 'Backward error against the matrix entries; differential between solvers.')
prop('C23', 'Finite-difference schemes solve the discretised equation exactly and on time',
     'Each of the explicit, implicit and Crank-Nicolson solvers returns, at the horizon, the grid of its own theta scheme for the given coefficients, source, boundary and initial values, for any number of nodes and time levels and any linear solver. In particular solutions polynomial in space and time of the scheme\'s order are reproduced to rounding, and the boundary values are those of the horizon.',
     ['inputs', 'configurations'], 'variable coefficients in time and space, sources, moving boundaries, grids from 4 nodes and 2 time levels up, within the stability limits of each scheme',
     'The finite-difference solvers are not tested.',
     [FD + 'solver/one_factor/'],
     [('time marching', FD + 'solver/one_factor/base_fdm_solver.cpp'), ('scheme coefficients and boundary terms', FD + 'solver/one_factor/*.cpp')],
     'property-based testing with manufactured solutions and a reference theta scheme', 'Exact to rounding times the growth bound of the scheme; cases whose growth bound exceeds 1e4 are skipped and counted.')
prop('C24', 'Finite-difference Black-Scholes prices and equation match the closed form',
     'The equation built from a contract and market is solved by the Black-Scholes closed form with the current volatility, rate and dividend yield, with matching payoff and boundary values. Finite-difference prices of European calls and puts converge to the closed form as the grid is refined, satisfy put-call parity and stay within arbitrage bounds at every node.',
     ['inputs', 'configurations'], 'all market data (yields, negative rates), strikes, maturities, sides, schemes, interpolations and linear solvers on grids that resolve the density',
     'The finite-difference solvers are not tested.',
     [FD + 'pde/one_factor/black_scholes_pde.cpp', FD + 'solver/one_factor/'],
     [('coefficients and boundaries', FD + 'pde/one_factor/black_scholes_pde.cpp')],
     'property-based testing: closed-form residual, closed-form price, refinement', 'Residual of the analytic solution to 1e-10; price error bands calibrated to the discretisation order with a factor two margin.')
prop('C25', 'A finite-difference solution is computed once and read at the current spot',
     'The equation is solved for the volatility, yield and rate in force when it is first solved. However solving and pricing are interleaved and repeated, the solution grid then never changes, and each price is the interpolation of that grid at the spot in force at that moment, whatever happened to other stocks. With zero time to maturity the solution is the payoff.',
     ['histories'], 'all histories of solve, price, spot moves of this and other stocks, schemes, interpolations and linear solvers (volatility, yield and rate fixed from the first solve on)',
     'The finite-difference solvers are not tested.',
     [FD + 'solver/one_factor/base_fdm_solver.cpp'],
     [('solved flag and interpolation', FD + 'solver/one_factor/base_fdm_solver.cpp')],
     'stateful model-based testing', 'Grid compared with that of a fresh solver; price with a reference interpolation.', state=[('solved', 'grid already computed', FD + 'solver/one_factor/base_fdm_solver.cpp')])
prop('C26', 'Variance schemes take truncated steps of the square-root process',
     'The Euler and Milstein variance schemes return, for every state, step and noise, the fully truncated step of the square-root process with the configured speed, level and volatility (Milstein with its second-order term): a negative state counts as zero in drift and noise. The variance stays defined over any sequence of steps.',
     ['inputs', 'histories'], 'all parameters, states including zero, step sizes and noise values, and sequences of steps',
     'Not tested.',
     [MOD + 'discretization/'],
     [('scheme formulas and truncation', MOD + 'discretization/*.cpp')],
     'property-based testing against reference formulas', 'Formula per step; histories of steps.')
prop('C27', 'Concurrent first access yields one fully built market-data store',
     'However many threads ask for the market-data store for the first time at once, all receive the same store, with its initial rate and no stocks, without a data race.',
     ['schedules'], 'all interleavings of concurrent first accesses, with varied thread counts and start jitter',
     'The test asks for the instance twice from one thread.',
     ['src/market_data/market_data.cpp'],
     [('instance lock', 'src/market_data/market_data.cpp getInstance')],
     'randomised schedule testing under ThreadSanitizer, fresh process per case', 'TSan judges happens-before, not luck, so a missing lock is reported on nearly every interleaving.', state=[('instance', 'the only store', 'include/market_data/market_data.h')])
prop('C28', 'Models accept exactly their admissible parameters and known tickers',
     'Building a stock model on an unknown ticker is rejected with an error, and so is a non-positive jump-size volatility (Merton, Bates), a jump probability outside [0,1], an up-tail rate of at most 1 or a non-positive down-tail rate (Kou), a non-positive variance rate (Variance Gamma), a correlation outside [-1,1], a negative initial variance or volatility of variance (Heston), and a non-positive initial variance, reversion speed or volatility of variance (Bates). '
     'NaN is in none of these domains. Parameters on the admissible edge of these domains are accepted.',
     ['inputs'], 'all six models with any parameters outside or on the edge of their domains, and known or unknown tickers',
     'No model is tested.',
     [MOD],
     [('constructor validation', MOD + '*.cpp')],
     'property-based testing with generated defects', 'One to four parameters are moved outside or onto the edge of its domain.')

prop('C29', 'A price depends only on its own inputs, whatever else is priced',
     'A price is a function of the contract, the market in force, the model parameters, the generator seed and the number of paths or the grid: whatever other contracts are built or priced before or in between, whatever quotes other tasks used, it is the price the same task gives in a process of its own. '
     'Building and pricing never change the market data or the contract, and pricing in two portions uses the same paths as pricing at once.',
     ['histories', 'configurations'], 'all interleavings of building and running several pricing tasks (ten contract kinds, six models, three generators, three finite-difference schemes) with market moves in between',
     'No test prices anything, let alone two things in one process.',
     [MC, MOD, RND, FD, 'src/market_data/market_data.cpp'],
     [('no hidden shared state', MC + '**, ' + MOD + '**, ' + RND + '**, ' + FD + '**')],
     'stateful differential testing against an isolated process (ASan)', 'Each task is priced once alone in a forked process; the interleaved history must reproduce it and leave every quote untouched.')
prop('C30', 'Components may be released in any order',
     'A model, equation, pricer, Monte Carlo solver or finite-difference solver keeps what it uses alive: contract, model, generator, variance scheme, market, regression, basis, interpolation, linear solver and builder handles may be released in any order after it is built, and its prices are unchanged. '
     'Once every user is released, everything is freed; a solver given a new pricer releases the old one.',
     ['histories', 'configurations'], 'all contract kinds, models, schemes and strategies, all orders of releasing handles between building, pricing and replacing pricers, with the global or an injected market',
     'Tests keep every object alive to the end of the test.',
     [MC, MOD, FD, OPT + 'base_option.cpp', 'src/market_data/market_data.cpp'],
     [('shared ownership', MC + 'builder/*.cpp, ' + MOD + 'base_model.cpp, ' + FD + 'solver/one_factor/base_fdm_solver.cpp')],
     'stateful testing of object lifetimes (ASan, weak references)', 'Random release orders; use after free is caught by ASan, retention by weak references, changed prices by comparison.')
prop('C31', 'Independent pricings may run at the same time',
     'Pricing tasks that were built beforehand and share nothing but the market data, which nobody changes meanwhile, may run on different threads at once: there is no data race and each gives the price it gives alone.',
     ['schedules', 'configurations'], 'all sets of up to six tasks of any kind (contracts, models, generators, finite-difference schemes), on one or several tickers, with varied start jitter',
     'No test starts a thread.',
     [MC, MOD, RND, FD, 'src/market_data/market_data.cpp'],
     [('no shared mutable state', MC + '**, ' + MOD + '**, ' + RND + '**, ' + FD + '**')],
     'randomised concurrent execution under ThreadSanitizer, differential', 'TSan judges happens-before; prices compared with those of an isolated process.')
prop('C32', 'Monte Carlo estimates are as accurate as their number of paths says',
     'With a pseudo-random generator successive simulated paths are independent, within one pricing and across repeated pricings: the variance of a price over N paths is the variance of one path\'s discounted payoff divided by N, and prices computed one after the other from disjoint paths, American prices included, are uncorrelated. '
     'So the usual standard error of a Monte Carlo price can be trusted.',
     ['inputs', 'configurations'], 'all six models, both variance schemes, ten contract kinds, step counts, seeds and numbers of paths, simulating whole paths, terminal prices or both, with or without a solver',
     'No test prices anything; the accuracy of an estimate only shows over thousands of pricings.',
     [MC, MOD, RND + 'number_generator/pseudo_random_generator.cpp'],
     [('fresh draws per path', MOD + '*.cpp'), ('averaging', MC + 'base_mc.cpp, mc_*.cpp')],
     'property-based testing with two-stage statistical oracles', 'Rank-bounded correlations at lags 1 to 4 and variance ratios, 5.5 sigma on the first stage confirmed at 7 sigma with eight times the data and another seed.')
prop('C33', 'Prices do not depend on the units of money and time',
     'Expressing spot, strikes, barrier and grid in another unit of money scales every price by the same factor and leaves digital prices unchanged; expressing maturity, rate, yield, volatility and model parameters in another unit of time leaves prices unchanged. No price level or maturity is special.',
     ['inputs', 'configurations'], 'ten contract kinds, six models, three generators, three finite-difference schemes, money units over twenty decades and time units over ten',
     'No test prices anything, in any unit.',
     [MC, MOD, FD, NUM],
     [('homogeneous formulas', MC + '**, ' + MOD + '*.cpp, ' + FD + '**')],
     'metamorphic property-based testing (ASan)', 'Same seed in both units; powers of two change no digit, so the comparison is nearly exact.')
prop('C34', 'A failing part surfaces its error and leaves everything usable',
     'When a part the user supplies (observer, market data source, number generator, variance scheme, basis, regression, interpolation, matrix solver, PDE coefficients) throws at any call, or memory runs out at any allocation, the error reaches the caller unchanged. A store change or a contract is then either made or not, and nothing stays alive that nobody holds. The same objects asked again give the results they would have given without the failure.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'], 'ten contract kinds, six models, three generators, three finite-difference schemes, up to four failures in a row at any call or allocation of the assembly or the pricing; store histories of up to 14 steps',
     'No test makes a part fail or runs out of memory.',
     [MC, MOD, FD, NUM, 'src/market_data/', OPT],
     [('solved flag and time march', FD + 'solver/one_factor/base_fdm_solver.cpp'), ('assembly', 'src/solver/**, ' + MC + '**'), ('notification', 'src/market_data/market_data.cpp')],
     'property-based testing with fault injection at every call and allocation (ASan)', 'The k-th call of a supplied part or the k-th operator new of the operation throws; the oracle is the same task without the failure, bit for bit.')
prop('C35', 'Long sessions hold no more memory than short ones',
     'Doing the same work again and again holds no more memory than doing it a few times. This is so for building, pricing and releasing tasks of any kind (released observers being pruned), for pricing, simulating or binding again with the same objects and with market moves in between, and for requests and updates, accepted or refused.',
     ['inputs', 'configurations', 'histories'], 'ten contract kinds, six models, three generators, three finite-difference schemes, rounds of up to eight kinds of accepted and refused requests, 32 rounds',
     'No test repeats anything or looks at memory.',
     [MC, MOD, FD, NUM, 'src/market_data/', OPT, RND],
     [('ownership', 'src/**'), ('pruning of observers', 'src/market_data/market_data.cpp')],
     'property-based testing of repeated histories with an allocation counter (ASan)', 'Bytes held after 4, 8, 16 and 32 equal rounds must not grow in proportion, so that lazily made or bounded stores are allowed.')

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p, _, _ in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    man = dict(version=1, setup_cmd='python3 setup.py', checks=[dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'] + ' --tier thorough',
               evidence_file='evidence/%s.json' % p['id'], technique=t, level='exploration', level_note=n) for p, t, n in P], not_applicable=[],
               notes='No hooks: every check drives the public interface. /repo carries only fix: commits, listed in known_findings.txt.')
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
