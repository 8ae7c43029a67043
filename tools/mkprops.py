#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here as Python so it can be reviewed as text)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

MD = ["src/market_data/market_data.cpp", "src/market_data/stock_data.cpp", "include/market_data/market_data.h"]
p("C01", "Market data is always valid and every change is all-or-nothing",
  "Whatever sequence of registrations and updates is attempted, every stock the market data serves has a price above zero, a volatility of at least zero and either no dividend yield or one in [0,1] (NaN is never accepted). A registration or update that would break this, or that names an unknown ticker, fails with std::invalid_argument and changes nothing at all: the stock it named, every other stock and the interest rate read exactly as before. An accepted change alters exactly the field it names (a registration: the whole record of that ticker) and nothing else.",
  ["histories", "inputs"], "every finite sequence of market-data operations, accepted and rejected, with every double as argument",
  "the tests make a few updates with valid values and one with an unknown ticker; they never look at the market after a rejected update, and validity is an invariant over histories",
  MD, [("validation of the record", "StockData::validate and the private setters"), ("lookup before change", "MarketData::updateStock*, addStock")],
  ["getStockData", "getR", "exceptions of addStock/updateStock*"],
  [{"name": "stocks", "meaning": "ticker -> (price, volatility, yield)", "where": "MarketData"}, {"name": "rate", "meaning": "risk-free rate", "where": "MarketData"}])
p("C02", "Every reader sees the latest accepted market data",
  "After an accepted change, every way of reading the market (a fresh look-up, a stock-data handle obtained at any earlier time, the rate, and every holder of the shared market-data instance) returns the value of the most recent accepted change for that ticker and field. This holds also when the ticker was registered again after the handle was taken: an old handle never goes stale and never becomes detached from the market.",
  ["histories"], "every sequence of registrations, re-registrations, updates and reads over any number of tickers and handles",
  "the tests read back a value right after setting it through the same object; stale handles need a history (take handle, re-register, update, read)",
  MD, [("records shared by pointer and changed in place", "MarketData::stockDataMap_, addStock"), ("single instance", "MarketData::getInstance")],
  ["handles from getStockData", "getR", "getInstance"])
p("C03", "Each accepted change notifies exactly the affected observers",
  "An accepted change of a stock's data delivers exactly one update to every live observer per registration made for that ticker and none to observers of other tickers; a change of the interest rate delivers exactly one to every live observer per registration. During the update the observer already reads the new value. A rejected change delivers no update to anyone. Asking for a notification directly (of one ticker's observers, or of all) delivers the same updates and changes no data.",
  ["histories"], "every sequence of registrations of any number of observers on any tickers, interleaved with accepted and rejected changes and with observers being destroyed",
  "the tests register one or two observers and count one notification; which observers are told after an arbitrary history, and what they see then, is not sampled",
  MD + ["src/market_data/market_data_observer.cpp"], [("notifyObserver / notifyObservers after the change", "MarketData::updateStock*, setR, addStock")],
  ["MarketDataObserver::update"])
p("C04", "Observer lifetime: registered while alive, safe to change while notified",
  "An option made by a factory is an observer of its ticker from the moment the factory returns until it is destroyed, and a failed creation registers nothing; a destroyed observer is never called. Creating, registering or destroying observers from inside a notification, or making further market changes from inside one, is safe: nothing crashes and every observer registered throughout the notification is still told exactly once.",
  ["histories", "schedules"], "every interleaving of creation, registration, destruction and nested changes inside and outside notifications",
  "no test changes the observer list from inside update(); re-entrant histories corrupt memory only for particular sizes and orders",
  MD + ["src/option/base_option.cpp", "include/option/base_factory_option.h"],
  [("weak references to observers", "MarketData::observers_"), ("registration by the factory, clean-up by the destructor", "OptionFactory::createOption, Option::initialize, Option::~Option")],
  ["MarketDataObserver::update", "OptionFactory::create*Option"])
p("C05", "One market-data instance, also under concurrent first use",
  "However many threads ask for the market-data instance for the first time at once, exactly one instance is ever created, all of them receive it, and it is completely initialised (default rate, no stocks) when they do. The instance survives its users: data written before the last holder lets go is still there for the next one.",
  ["schedules"], "every interleaving of first accesses by any number of threads",
  "the unit test compares two sequential calls in one thread",
  ["src/market_data/market_data.cpp", "include/market_data/market_data.h"], [("mutex around creation", "MarketData::getInstance")], ["getInstance", "getR"])
OPT = ["src/option/parameter_object.cpp", "include/option/base_factory_option.h", "src/option/base_option.cpp", "src/option/single_path", "src/option/path_dependent"]
p("C06", "Factories build exactly the requested contract or refuse",
  "Each factory succeeds exactly when every parameter it needs is present with the right type, the ticker is registered and no strike or maturity is negative; otherwise it throws std::invalid_argument and registers nothing. The option it returns is the requested contract: the requested kind, call or put as asked, the given ticker, maturity, strike(s), barrier level and direction, and it values any underlying price accordingly.",
  ["inputs", "configurations"], "every factory, call and put, every subset and typing of parameters and every value",
  "the tests cover the European factory with three invalid inputs; the other factories and the mapping of parameters to contract terms are never exercised",
  OPT, [("typed parameter look-up", "ParameterObject::getParameter"), ("payoff and option constructors validate", "PayoffSingleStrike, PayoffDoubleStrikes, Option")],
  ["create*Option", "Option::getT/getID/payoff/getPayoff", "BarrierOption::isActive"])
PAY = ["src/payoff/single_strike", "src/payoff/double_strikes", "src/payoff/base_payoff.cpp", "src/payoff/payoff_floating_strike_lookback.cpp"]
p("C07", "Payoffs have their contractual value for every price",
  "For every price and strike: a vanilla call pays max(S-K,0) and a put max(K-S,0); a digital call pays 1 exactly when S>K and a digital put exactly when S<K; a double digital pays 1 exactly when K1<=S<=K2; a floating-strike lookback pays max(S-m,0) (call) or max(M-S,0) (put) for the extreme given. Hence call minus put is S-K, payoffs are never negative, and asking a payoff for a form it does not define (one price for the floating lookback, two prices for the others) is a std::logic_error.",
  ["inputs"], "all prices, strikes and extremes, including equality",
  "tests sample a handful of prices per payoff; boundary equality and extreme magnitudes are not covered, the lookback payoff not at all",
  PAY, [("operator() of each payoff", "Payoff*::operator()")], ["Payoff::operator()", "Option::payoff"])
p("C08", "Payoff and stock-record equality is by value; clones are equal and independent",
  "Two payoffs compare equal exactly when they are of the same kind, the same call/put type and the same strikes; the relation is reflexive, symmetric and transitive and inequality is its negation. A clone equals its original, pays the same for every price, and stays valid and unchanged after the original is destroyed. Stock records compare equal exactly when price, volatility and dividend yield (including its absence) agree.",
  ["inputs", "histories"], "all pairs of payoffs / records of all kinds, all strikes",
  "tests compare a few pairs of the same kind; cross-kind and near-equal pairs are not covered",
  PAY + ["src/market_data/stock_data.cpp"], [("typeid test plus compare()", "Payoff::operator==")], ["operator==", "operator!=", "clone"])
MC = "src/solver/monte_carlo/"
p("C09", "European, digital and double-digital Monte Carlo price = discounted mean payoff",
  "For a given number of paths N, the Monte Carlo price of a single-path option is exp(-rT) times the average over exactly N simulated terminal prices of the option's payoff, with the rate r in force when pricing, the option's own maturity T and each simulated path used once. Pricing again, with another N or after market changes, is governed by the same rule with the data then in force.",
  ["inputs", "histories"], "all payoffs, rates, maturities, N and simulated price scenarios",
  "no test prices anything by Monte Carlo",
  [MC + "mc_single_path.cpp", MC + "mc_solver.cpp"], [("accumulate and discount", "SinglePathMCPricer::calculatePrice")], ["MCSolver::solve", "MCPricer::calculatePrice"])
p("C10", "Asian Monte Carlo price = discounted mean payoff of the path average",
  "The price of an arithmetic (geometric) Asian option is exp(-rT) times the average, over exactly N simulated paths, of the option's payoff at the arithmetic mean (geometric mean) of all monitoring prices of that path, the last one included and the initial price not. On the same paths the geometric call never costs more than the arithmetic call.",
  ["inputs", "histories"], "all price paths, numbers of monitoring dates, rates, maturities and N",
  "no test prices anything by Monte Carlo", [MC + "mc_asian.cpp"], [("per-path average", "AsianMCPricer::calculatePrice")], ["MCSolver::solve"])
p("C11", "Lookback Monte Carlo price uses the true path extreme",
  "The price of a lookback is exp(-rT) times the average over exactly N simulated paths of: for floating strike, S_T minus the path minimum (call) or the path maximum minus S_T (put); for fixed strike, the vanilla payoff at the path maximum (call) or minimum (put). Extremes range over all monitoring prices including the last, so a floating-strike price is never negative and a fixed-strike price is at least the European one on the same paths.",
  ["inputs", "histories"], "all price paths, numbers of dates, rates, maturities and N",
  "no test prices anything by Monte Carlo", [MC + "mc_lookback.cpp"], [("running extremes", "LookbackMCPricer::calculatePrice")], ["MCSolver::solve"])
p("C12", "Barrier Monte Carlo price: knock-in and knock-out partition every path",
  "A path hits an up (down) barrier when any monitoring price is at or above (at or below) the level; a knock-in pays the vanilla payoff of the final price on exactly the paths that hit and a knock-out on exactly those that do not, averaged over exactly N paths and discounted by exp(-rT). Hence on the same paths knock-in plus knock-out equals the European price, for every path, level and direction.",
  ["inputs", "histories"], "all price paths, barrier levels (also touched exactly, at the first or the last date), directions, N",
  "no test prices anything by Monte Carlo", [MC + "mc_barrier.cpp", "src/option/path_dependent/barrier_option.cpp"],
  [("crossing test", "BarrierMCPricer::calculatePrice, BarrierOption::isActive")], ["MCSolver::solve", "BarrierOption::isActive"])
p("C13", "American Monte Carlo price is the Longstaff-Schwartz value of its paths",
  "Working backwards from the payoff at maturity, at every earlier date each path's value is discounted by exp(-r dt) over every step, and a path that is in the money there is exercised exactly when its exercise value exceeds the continuation value estimated by regressing the discounted values of the in-the-money paths on the chosen basis of their prices; the price is the average value over exactly N paths discounted over the first step. This holds for every set of paths (including dates at which no path is in the money), for the standard and for the Brownian-bridge variant, and for whatever regression and basis the user supplied.",
  ["inputs", "configurations"], "all sets of paths, numbers of dates and paths, rates, strikes, regressions and bases",
  "no test prices an American option; the interesting cases depend on which paths are in the money at which date",
  [MC + "mc_american.cpp"], [("backward induction", "AmericanMCPricer::standardPrice / brownianBridgePrice")], ["MCPricer::calculatePrice"])
p("C14", "Pricer builders and the solver depend only on what was last set",
  "A builder produces a pricer for the option, market data, stock model (and regression/basis) most recently set, whatever was set or built before; without a stock model it uses a 52-step geometric Brownian motion on that very option's underlying, also when the builder is reused for an option on another stock. Building without an option, or solving without a pricer, is a std::logic_error; giving a builder an option of the wrong kind (or none) is a std::invalid_argument. The solver prices with the latest pricer and path count.",
  ["histories"], "every sequence of set/build/solve calls on every builder",
  "no test uses the builders; leaking state between builds needs a sequence of builds",
  [MC + "builder", MC + "mc_solver.cpp"], [("build()", "*MCBuilder::build"), ("setters", "MCBuilder::set*")], ["build", "solve"])
MO = "src/model/"
p("C15", "Geometric Brownian motion paths follow the risk-neutral dynamics",
  "A simulated path starts from the current stock price and has one price per step of length T/steps, each equal to the previous one times exp((r-c-sigma^2/2)dt + sigma sqrt(dt) z) with a fresh standard normal draw z, where r, c (zero when absent) and sigma are those in force at simulation; the price at maturity is the last price of such a path. The backward (bridge) step draws from the Brownian bridge between the initial price at time 0 and the given later price: log-mean proportional to time, log-variance sigma^2 t_j(t_{j+1}-t_j)/t_{j+1}.",
  ["inputs", "histories"], "all rates, yields, volatilities, maturities, step counts and draws; all market histories before the simulation",
  "no test simulates a path", [MO + "gbm_model.cpp", MO + "base_model.cpp"], [("simulatePrices / simulatePriceBackward", "GeometricBrownianMotionModel")], ["simulatePrices", "simulatePriceAtMaturity", "simulatePriceBackward"])
p("C16", "Jump and variance-gamma paths follow their risk-neutral dynamics",
  "Per step dt, the Merton and Kou models multiply the price by exp of compensated drift, sigma sqrt(dt) z and the sum of a Poisson(lambda dt) number of jumps (Merton: normal(muJ,sigmaJ); Kou: up exponential(eta1) with probability p, otherwise down exponential(eta2)); the variance-gamma model by exp((r-c+omega)dt + theta g + sigma sqrt(g) z) with g gamma distributed of mean dt and variance nu dt and omega = ln(1-theta nu-sigma^2 nu/2)/nu. Drift compensation is lambda(E[e^J]-1), so discounted prices are martingales. All use the market data in force at simulation, and parameters outside the model's domain (sigmaJ<=0, nu<=0, p outside [0,1], eta1<=1, eta2<=0) are refused with std::invalid_argument.",
  ["inputs", "histories"], "all parameters, market histories, step counts, jump counts and draws",
  "no test simulates a path", [MO + "merton_jump_diffusion_model.cpp", MO + "kou_model.cpp", MO + "variance_gamma_model.cpp"],
  [("simulatePrices", "MertonJumpDiffusionModel, KouModel, VarianceGammaModel")], ["simulatePrices", "simulatePriceAtMaturity", "constructors"])
p("C17", "Heston and Bates paths follow their dynamics with the chosen variance scheme",
  "Per step the price moves with drift r-c-V+/2 (Bates: also minus the jump compensator) and diffusion sqrt(V+ dt) zS, V+ being the positive part of the variance at the start of the step, corr(zS,zV)=rho, starting from v0 on every path; the variance is then advanced by the discretisation the user supplied, or by full-truncation Euler V + kappa(theta-V+)dt + sigma_v sqrt(V+ dt) zV if none, the Milstein scheme adding sigma_v^2 dt (zV^2-1)/4. Invalid parameters (rho outside [-1,1]; negative or, for Bates, non-positive v0, sigma_v; Bates kappa<=0 or sigmaJ<=0) are refused with an exception.",
  ["inputs", "configurations", "histories"], "all parameters, draws, step counts, discretisations and market histories",
  "no test simulates a path or supplies a discretisation", [MO + "heston_model.cpp", MO + "bates_model.cpp", MO + "discretization"],
  [("simulatePrices", "HestonModel, BatesModel"), ("variance update", "CIR*Discretization::update")], ["simulatePrices", "CIRDiscretization::update"])
p("C18", "A model always simulates from the market data in force now",
  "However long ago a stock model was created and whatever happened to the market since (price, volatility, yield and rate updates, rejected updates, re-registration of its ticker, changes of other tickers), the next path it simulates uses exactly the current price, volatility, dividend yield and rate of its own ticker in the market-data source it was created with (the shared instance or any other implementation of the interface, whatever the shared instance says meanwhile), and simulating changes neither the market nor any later path's law. Creating a model for an unknown ticker is refused with std::invalid_argument.",
  ["histories"], "every interleaving of market operations with simulations of all six models",
  "no test simulates; caching of any of the four inputs shows only after an update between two simulations",
  [MO + "base_model.cpp", MO], [("data read at simulation", "StockModel::stockData_, marketData_")], ["simulatePrices"])
p("C19", "Discounted stock prices are martingales under every model",
  "For every model, parameter set, maturity and number of steps, the expectation of the simulated terminal price is S exp((r-c)T) - the forward - when driven by the library's pseudo-random generator; consequently put-call parity holds for Monte Carlo prices up to sampling error.",
  ["inputs", "configurations"], "all models, parameters and seeds, up to a stated sampling error",
  "no test simulates; a wrong drift or sampler shifts the mean by a parameter-dependent amount",
  [MO, "src/random"], [("risk-neutral drift and samplers", "*Model::simulatePrices, *Distribution::operator()")], ["simulatePriceAtMaturity", "MCSolver::solve"])
RN = "src/random/"
p("C20", "Generators are reproducible from their seed and deliver coordinates in order",
  "Two generators of the same kind with the same dimension and seed deliver identical sequences, pseudo-random generators with different seeds, or created without one, deliver different ones, and the sequence depends only on seed and on the draws made. A quasi-random generator of dimension d delivers the coordinates of successive points of the d-dimensional Sobol (Faure) sequence starting at index seed, in order, d per point, each passed through the distribution's inverse distribution function.",
  ["inputs", "histories"], "all seeds, dimensions and lengths of draw sequences",
  "no test draws a number", [RN + "number_generator"], [("operator()", "PseudoRandomNumberGenerator, SobolGenerator, FaureGenerator")], ["NumberGenerator::operator()", "getDim"])
p("C21", "The normal quantile inverts the normal distribution on the whole of (0,1)",
  "For every p in (0,1) the inverse distribution function x of the standard normal satisfies |x - exact quantile| <= 1e-8 for p between 1e-12 and 1-1e-12 and within 0.02 of it beyond; it is non-decreasing in p up to that error and antisymmetric about 1/2. Any p <= 0 or p >= 1 is refused with std::invalid_argument, and the distributions without an inverse refuse with std::logic_error.",
  ["inputs"], "all doubles p", "no test calls it; a wrong digit in one coefficient or a wrong branch shows only in part of (0,1)",
  [RN + "distribution/standard_normal_distribution.cpp"], [("rational and tail approximations", "StandardNormalDistribution::inv_cdf")], ["inv_cdf"])
p("C22", "Distributions sample the law they are parameterised with",
  "Sampling a normal(mu,sigma), uniform(a,b), exponential(rate), gamma(shape,rate) or Poisson(mean) object yields values of that law: support, mean and variance are those of the parameters. Parameters outside the domain (sigma<=0, a>=b, rate<=0, shape<=0, mean<=0) are refused with std::invalid_argument.",
  ["inputs"], "all parameters, up to a stated sampling error; boundary parameters exactly", "no test samples a distribution",
  [RN + "distribution"], [("constructors and operator()", "*Distribution")], ["Distribution::operator()", "constructors"])
FD = "src/solver/finite_difference_method/"
p("C23", "Finite-difference solvers take exactly the scheme's N-1 steps",
  "Given any convection-diffusion problem, the grid returned is the result of exactly N-1 steps of size tDom/(N-1) from the initial condition on J equidistant points of [0,xDom]: explicit Euler, implicit Euler or Crank-Nicolson (the average of both) with central differences, coefficients and source taken at the step's time(s), and the problem's boundary values at the new time on both ends. This holds for all J>=3 (J>=4 with the Thomas algorithm, which needs two unknowns), N>=2, horizons, time-dependent coefficients and boundary values, and any correct linear solver supplied.",
  ["inputs", "configurations"], "all problems, grids, horizons and linear solvers",
  "no test runs a solver; step-count and boundary errors depend on rounding of tDom/(N-1) and on time-dependent data",
  [FD + "solver/one_factor"], [("time marching", "FDMSolver::solve"), ("one step", "*::calculateInnerDomain, calculateBoundaryConditions")], ["solve()"])
p("C24", "Black-Scholes PDE data are the option's own and prices converge to the formula",
  "The Black-Scholes problem of a European option has diffusion sigma^2 x^2/2, convection (r-c)x, reaction -r, no source, the option's payoff as initial condition and, with t the time to maturity, boundary values 0 and x e^{-ct}-K e^{-rt} for calls, K e^{-rt} and 0 for puts, all with the market data in force in the source the problem was given, whatever other options and problems the process holds. The finite-difference price of a call or put agrees with the Black-Scholes formula within the scheme's discretisation error, including non-zero rates and dividend yields.",
  ["inputs", "histories"], "all options, market data and times; grids fine enough for the stated error", "no test runs a solver",
  [FD + "pde/one_factor/black_scholes_pde.cpp", FD + "solver/one_factor"], [("coefficients and boundaries", "BlackScholesPDE")], ["BlackScholesPDE methods", "calculatePrice()"])
p("C25", "Finite-difference queries are repeatable and read the spot in force",
  "Solving again, or pricing any number of times in any order, returns the same grid without further time steps; each price is the interpolation of that grid at the stock price in force at the query in the market-data source the solver was given, so it follows spot updates between queries, and is the boundary value outside the grid. The interpolation supplied by the user is the one used (linear if none).",
  ["histories"], "every sequence of solve, price and market operations", "no test runs a solver", [FD + "solver/one_factor/base_fdm_solver.cpp"],
  [("solved flag and live spot", "FDMSolver::solve, calculatePrice")], ["solve()", "calculatePrice()"])
NA = "src/numerical_analysis/"
p("C26", "Linear solvers solve the system they are given",
  "For every well-conditioned system each solver (sparse LU, dense LU, and Thomas for tridiagonal diagonally dominant systems of at least 2 unknowns) returns x with Ax=b up to rounding, whatever the size, scale and sparsity pattern, and leaves A and b unchanged. A singular system given to sparse LU and a system of fewer than 2 unknowns given to Thomas are refused with an exception.",
  ["inputs"], "all systems", "no test solves a system", [NA + "linear_algebra/matrix_solver"], [("solve", "LUDecompositionSolver, PartialPivotingLUSolver, ThomasAlgorithm")], ["MatrixSolver::solve"])
p("C27", "Interpolation reproduces nodes, is clamped outside and exact on its degree",
  "On a strictly increasing grid both interpolations return the tabulated value at every node, the end values outside the grid, and between nodes the straight line through the neighbouring nodes (linear) respectively, in the interior, the parabola through the interval's two nodes and the node before (quadratic; the first and last interval are linear). Hence linear data are reproduced exactly by both and quadratic data exactly by the quadratic one in the interior.",
  ["inputs"], "all grids (any spacing and size), values and query points", "no test interpolates", [NA + "interpolation"], [("interpolate", "LinearInterpolation, QuadraticInterpolation")], ["Interpolation::interpolate"])
p("C28", "Regressions return the minimiser they are named after",
  "Least squares returns coefficients whose residual is orthogonal to every column (also for under-determined and rank-deficient systems, where it is the minimum-norm solution); ridge returns the solution of (A'A+lambda I)x=A'y; lasso returns the least-squares coefficients soft-thresholded at lambda. A negative lambda is refused with std::invalid_argument and lambda=0 gives least squares.",
  ["inputs"], "all design matrices, targets and lambdas", "no test regresses", [NA + "regression"], [("solve", "LeastSquaresRegression, RidgeRegression, LassoRegression")], ["Regression::solve"])
p("C29", "Basis functions are the named polynomials",
  "For every x and number of functions n, a basis generates one row per x with the first n polynomials of its family: monomials x^k, Chebyshev polynomials of the first kind, Legendre polynomials and Laguerre polynomials, column k being the polynomial of degree k. Zero functions are refused with std::invalid_argument.",
  ["inputs"], "all x, all n", "no test evaluates a basis", [NA + "basis_function"], [("recurrences", "*BasisFunction::generate")], ["BasisFunction::generate"])

SRC = ["src/option", "src/payoff", "src/market_data", "src/model", "src/solver"]
p("C30", "A printed contract states its own terms and the market data in force",
  "Streaming an option writes its kind, maturity, payoff type and strike(s), its ticker, that stock's current price, volatility and (only when it has one) dividend yield, and the current rate, each on one labelled line, each once, with the precision of the stream; streaming a payoff or stock record writes just its own lines. The output follows every accepted market update, is unaffected by rejected ones and by other stocks, and the stream's own formatting is left as it was.",
  ["inputs", "histories"], "all contracts, values, stream formats and market histories",
  "no test prints an option after an update, or compares all fields", ["src/option/base_option.cpp", "src/payoff", "src/market_data/stock_data.cpp"],
  [("printing", "operator<<(ostream, Option/Payoff/StockData)")], ["operator<<"])
p("C31", "Option equality means same terms on stocks with the same current data",
  "Two contracts of the same kind compare equal exactly when their maturities, payoffs (type and strikes) and the current records of their underlyings agree (contracts of different kinds may only compare equal if these agree); the ticker's name, the object, and how the data came to be do not matter. The comparison is symmetric, != is its negation, and the verdict follows market updates.",
  ["inputs", "histories"], "all pairs of live contracts after any market history", "tests compare two fresh options on one stock only",
  ["src/option/base_option.cpp", "src/payoff", "src/market_data/stock_data.cpp"], [("comparison", "Option::operator==, operator!=")], ["Option::operator==", "Option::operator!="])
p("C32", "A parameter object returns the last value set, by exact name and type",
  "getParameter<T>(name) returns the value of the last setParameter for that name if it was set with that same type, and otherwise (never set, or last set with another type) throws std::invalid_argument; hasParameter tells whether the name was ever set. Names are case-sensitive and independent of each other, values are preserved exactly, copies are independent of their original, and reading changes nothing.",
  ["inputs", "histories"], "all sequences of set, copy and get over any names, types and values", "tests set each name once",
  ["include/option/parameter_object.h"], [("typed store", "ParameterObject::setParameter, getParameter, hasParameter")], ["getParameter", "hasParameter"])
p("C33", "An answer depends only on contract, market data and request, not on history",
  "Pricing the same terms with the same method, model, seeded generator and sizes under the same stock record and rate returns the same price, and simulating returns the same paths, whatever happened before or in between: other pricings (also with the very same builder, solver, regression, basis, interpolation or matrix-solver objects), other contracts and stocks, updates away from these data and back, rejected updates, the contract being destroyed and written again, or written on another ticker with an identical record.",
  ["histories", "configurations"], "all histories and all combinations of contract, model, generator and solver", "no test prices anything twice",
  SRC, [("all pricers read the data in force", "MCSolver::solve, OneFactorFDM::calculatePrice, StockModel::simulatePrices")], ["solve()", "calculatePrice()", "simulatePrices()"])
p("C34", "Asking changes nothing: pricing, simulating, printing, comparing only read",
  "Pricing (Monte Carlo or finite difference), simulating, printing and comparing leave every stock record, the rate, every live contract's terms, activity and payoff, and every observer's registration as they were, and notify nobody; the next market update then has exactly the effect and notifies exactly the observers it would have without the query.",
  ["histories"], "every interleaving of queries with market operations and contract creation and destruction", "tests never query a whole library session",
  SRC, [("read-only use of the market", "MCSolver, OneFactorFDM, StockModel, Option::operator<<, ==")], ["getStockData", "getR", "update()", "Option::payoff"])
p("C35", "Monte Carlo prices agree with the closed formulas where one exists",
  "Under geometric Brownian motion (and Merton's jumps for path-independent claims) the Monte Carlo price of European, digital and double-digital options, of geometric Asian options with any number of dates, and of arithmetic Asian, fixed-strike lookback, knock-in/knock-out and American options with a single monitoring date equals the discounted lognormal expectation within sampling error, with pseudo-random, Sobol and Faure numbers alike, for any strike, barrier, maturity, volatility, dividend yield and (also negative) rate.",
  ["inputs", "configurations"], "all parameters and generators, up to a stated sampling error", "no test prices by Monte Carlo",
  ["src/solver/monte_carlo", "src/model", "src/random"], [("whole pricing pipeline", "MCBuilder::build, MCSolver::solve")], ["MCSolver::solve"])
p("C36", "Concurrent pricings behave as if each ran alone",
  "Any number of pricings, simulations and printings running in parallel threads, each with its own solver, components and generator but sharing the market and contracts, return exactly what each returns when run alone, without data races, as long as nobody updates the market meanwhile.",
  ["schedules", "configurations"], "all schedules of parallel pricings of shared contracts", "the tests are single-threaded",
  SRC, [("no hidden shared mutable state", "MarketData, Option, models, generators, regressions")], ["MCSolver::solve", "OneFactorFDM::calculatePrice"])
p("C37", "Nothing accumulates: a round that ends where it began can be repeated for ever",
  "Writing, pricing, printing and settling contracts, refused creations and updates, registering and dropping observers, and market updates, repeated any number of times with the same stocks, contracts and observers alive at the end of each round, do not increase the memory in use: settled contracts leave no registration, cache entry or other residue behind.",
  ["histories"], "all rounds of operations and any number of repetitions, up to a constant slack", "tests perform each operation once or twice",
  SRC, [("deregistration", "Option::~Option, MarketData::removeObserver"), ("no unbounded caches", "all pricers and models")], ["memory in use"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P))
