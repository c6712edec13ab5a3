"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

BO = "pypfopt/base_optimizer.py"; EF = "pypfopt/efficient_frontier/efficient_frontier.py"
ES = "pypfopt/efficient_frontier/efficient_semivariance.py"; EC = "pypfopt/efficient_frontier/efficient_cvar.py"
ED = "pypfopt/efficient_frontier/efficient_cdar.py"; OF = "pypfopt/objective_functions.py"
ER = "pypfopt/expected_returns.py"; RM = "pypfopt/risk_models.py"; BL = "pypfopt/black_litterman.py"
CL = "pypfopt/cla.py"; HP = "pypfopt/hierarchical_portfolio.py"; DA = "pypfopt/discrete_allocation.py"; PL = "pypfopt/plotting.py"

p("C01", "Returned weights satisfy every bound, sum and user constraint",
  "Whenever an optimisation method of EfficientFrontier, EfficientSemivariance, EfficientCVaR or EfficientCDaR returns weights, they satisfy (up to solver tolerance) the weight bounds in whichever accepted format they were given, sum to one (to zero when market_neutral is requested), and satisfy every constraint added with add_constraint (affine, or norm-type convex) or add_sector_constraints. If the constraints admit no portfolio an exception is raised and no weights are returned; if they do admit one and the problem is bounded, weights are returned.",
  ["inputs", "configurations"], "every universe, bound format (pair, pair with None, list of pairs, pair of arrays), set of added constraints, sector map, method and market_neutral flag",
  "Tests sample a handful of constraint shapes on one 20-asset data set; the space of bound formats x constraint forms x methods x sizes is unbounded.",
  [BO, EF, ES, EC, ED], [("bound mapping", BO + " _map_bounds_to_constraints"), ("add_constraint/add_sector_constraints", BO), ("weight sum", EF + " _make_weight_sum_constraint"), ("max_sharpe homogenisation", EF + " max_sharpe")],
  ["returned dict", "weights attribute", "raised exception"])
p("C02", "min_volatility and max_quadratic_utility return the true optimum",
  "EfficientFrontier.min_volatility returns a portfolio whose variance is not beaten by any portfolio satisfying the same bounds, constraints and budget. EfficientFrontier.max_quadratic_utility(risk_aversion, market_neutral) returns one whose utility w'mu - (risk_aversion/2) w'Sigma w is likewise not beaten by any feasible portfolio.",
  ["inputs", "configurations"], "every expected-return vector, PSD covariance matrix, bounds, linear and sector constraints, risk aversion > 0 and market_neutral flag",
  "Tests compare a few fixed outputs; optimality against all feasible portfolios for all inputs is a universal statement.",
  [EF, OF, BO], [("objective assembly", EF + " min_volatility / max_quadratic_utility"), ("portfolio_variance, quadratic_utility", OF)], ["returned dict"])
p("C03", "max_sharpe returns the tangency portfolio under all linear constraints",
  "EfficientFrontier.max_sharpe(risk_free_rate) returns a feasible portfolio (bounds, fully invested, every added linear constraint) whose Sharpe ratio (w'mu - rf)/sqrt(w'Sigma w) is not beaten by any other feasible portfolio with return above the risk-free rate. portfolio_performance afterwards reports the Sharpe ratio for the same risk-free rate.",
  ["inputs", "configurations"], "every mean vector with some feasible return above rf, PD covariance, bounds, linear equality/inequality constraints written in any of the accepted forms, and risk-free rate",
  "Tests check a few fixed numbers and one or two simple constraints; the variable transformation must be right for every constraint form.",
  [EF], [("variable substitution and constraint rebuild", EF + " max_sharpe")], ["returned dict", "portfolio_performance()"])
p("C04", "efficient_risk/efficient_return meet their target and are optimal",
  "EfficientFrontier.efficient_risk(target) returns a feasible portfolio with volatility at most the target and no feasible portfolio within the target has a higher return; efficient_return(target) returns a feasible portfolio with return at least the target and no feasible portfolio reaching the target has lower variance. Targets that no portfolio can meet (volatility below the minimum, return above the maximum attainable under the bounds and constraints) raise an exception instead of returning weights.",
  ["inputs", "configurations"], "every universe, bounds, constraints, market_neutral flag and target, including targets just inside and outside the attainable range",
  "Tests use a few targets on one data set; target compliance and optimality must hold for all.",
  [EF], [("target parameter + constraint", EF + " efficient_risk / efficient_return"), ("validity check", EF + " _max_return")], ["returned dict", "ValueError/OptimizationError"])
p("C05", "Extra and custom convex objectives are optimised jointly, as specified",
  "Every term added with add_objective (L2_reg, transaction_cost, ex-ante/ex-post tracking error or a user function, with its keyword arguments) is added to the quantity minimised by the optimisation method, and the result minimises the sum over the feasible set. convex_objective minimises the user's function plus all added terms subject to bounds and constraints, with the weights summing to one exactly when weights_sum_to_one is true.",
  ["inputs", "configurations"], "every method of the four convex optimisers that accepts extra objectives, every number and order of terms, every keyword argument, weights_sum_to_one on and off",
  "Tests mostly assert that adding an objective changes something or matches one stored number.",
  [BO, EF, ES, EC, ED, OF], [("add_objective / convex_objective", BO), ("objective accumulation", EF)], ["returned dict"])
p("C06", "EfficientSemivariance minimises/limits true downside semivariance",
  "For portfolio returns x_t = r_t'w the semivariance is mean over periods of min(x_t - benchmark, 0)^2. min_semivariance minimises it; max_quadratic_utility maximises w'mu/frequency - (risk_aversion/2) semivariance; efficient_risk(target) maximises return subject to sqrt(frequency * semivariance) <= target; efficient_return(target) minimises it subject to w'mu >= target - each over all portfolios meeting bounds and budget (or market-neutral).",
  ["inputs", "configurations"], "every returns matrix, benchmark, frequency, bounds, target and market_neutral flag",
  "Tests compare a few stored weights on one data set.",
  [ES], [("B matrix, p/n split", ES)], ["returned dict", "portfolio_performance()"])
p("C07", "EfficientCVaR optimises and reports the portfolio's actual CVaR",
  "CVaR at level beta is min over a of a + mean(max(-x_t - a, 0))/(1-beta) for portfolio returns x_t. min_cvar minimises it, efficient_return(target) minimises it subject to w'mu >= target, efficient_risk(target) maximises return subject to CVaR <= target, each over all feasible portfolios. portfolio_performance reports w'mu and this CVaR of the returned weights.",
  ["inputs", "configurations"], "every returns matrix, beta in [0,1), bounds, target (binding or slack) and market_neutral flag",
  "Tests compare a few stored values on one data set, almost always at a binding target.",
  [EC], [("alpha/u linear programme", EC), ("performance", EC + " portfolio_performance")], ["returned dict", "portfolio_performance()"])
p("C08", "EfficientCDaR optimises and reports the portfolio's actual CDaR",
  "With drawdowns d_t = max over s<=t of (X_s - X_t), X the uncompounded cumulative portfolio return starting at 0, CDaR at level beta is min over a of a + mean(max(d_t - a, 0))/(1-beta). min_cdar minimises it, efficient_return(target) minimises it subject to w'mu >= target, efficient_risk(target) maximises return subject to CDaR <= target, each over all feasible portfolios. portfolio_performance reports w'mu and this CDaR of the returned weights.",
  ["inputs", "configurations"], "every returns matrix, beta in [0,1), bounds, target (binding or slack) and market_neutral flag",
  "Tests compare a few stored values on one data set, almost always at a binding target.",
  [ED], [("drawdown linear programme", ED + " _add_cdar_constraints"), ("performance", ED + " portfolio_performance")], ["returned dict", "portfolio_performance()"])
p("C09", "Re-using an optimiser never yields stale or mixed-up results",
  "In any sequence of optimisation calls, add_objective and add_constraint on one convex-optimiser instance, each call that returns gives the same portfolio (same objective value, feasible) as a fresh instance given only the objectives/constraints added so far and that call's parameters, and portfolio_performance describes those weights. Changes that would make this impossible - adding an objective or constraint, switching objective or market neutrality after a solve - raise an InstantiationError and leave the last weights in place.",
  ["histories"], "every sequence of re-parameterised solves (targets, risk aversions), performance queries, illegal additions and method switches on EfficientFrontier, EfficientSemivariance, EfficientCVaR and EfficientCDaR",
  "Tests exercise one or two repeated calls with fixed parameters.",
  [BO, EF, ES, EC, ED], [("parameter update", BO + " update_parameter_value"), ("post-solve guards", BO + " _solve_cvxpy_opt_problem"), ("cached max return", EF + " efficient_return")], ["returned dicts", "exceptions", "portfolio_performance()"],
  [dict(name="_opt, _initial_objective, _initial_constraint_ids, _max_return_value, _market_neutral", meaning="solved-problem state kept between calls", where=BO)])
p("C10", "portfolio_performance equals return, risk and ratio of the weights held",
  "After any optimisation or set_weights, portfolio_performance returns exactly w'mu, the class's risk measure (sqrt(w'Sigma w); annualised semideviation for EfficientSemivariance; sample mean and covariance times frequency for HRP) and (return - risk_free_rate)/risk for the weights currently held, whatever verbose is; the module-level function gives the same for dict, list or array weights, matching dict keys by ticker. Before weights exist it raises ValueError (or equivalent) rather than returning numbers.",
  ["inputs", "configurations"], "every weights vector (short, unnormalised, sparse dict), mean, covariance, container type, risk-free rate and frequency",
  "Tests check stored numbers for single optimised portfolios.",
  [BO, EF, ES, HP, BL, CL], [("portfolio_performance", BO), ("per-class wrappers", EF)], ["returned tuple"])
p("C11", "Results follow tickers, not positions; permuting assets changes nothing",
  "For every optimiser the result maps each input ticker exactly once to its own weight, in the order of the expected-return (else covariance/returns) labels (HRPOpt.optimize: sorted by ticker). Permuting the assets of all inputs consistently (HRP, whose leaf order depends on the column order, excepted) yields the same objective value and, where the optimum is unique, the same weight per ticker; giving the same data as Series, list or array / DataFrame or array, of integers or floats, gives the same weights.",
  ["inputs"], "every optimiser (mean-variance, semivariance, CVaR, CDaR, CLA, Black-Litterman, HRP input types), universe, label type and permutation",
  "Tests use one fixed ticker order.",
  [EF, BO, CL, BL, HP], [("ticker derivation", EF + " __init__"), ("output dict", BO + " _make_output_weights")], ["returned dict"])
p("C12", "clean_weights, set_weights and saved files faithfully carry the weights",
  "clean_weights(cutoff, rounding) maps every ticker to 0 if |w| < cutoff and otherwise to w rounded to the given decimals (unrounded if None), without altering the stored weights; set_weights then clean_weights with no cutoff or rounding returns the weights that were set, matched by ticker whatever the dict order. save_weights_to_file writes exactly the default cleaned weights so that csv, json and txt files read back to the same ticker-weight map, and refuses other extensions.",
  ["inputs"], "every weights vector (negative, tiny, at the cutoff), ticker set, cutoff, rounding and supported extension in any letter case",
  "Tests use two fixed portfolios.",
  [BO], [("clean_weights/set_weights/save_weights_to_file", BO)], ["returned dict", "file contents"])
p("C13", "Return/price conversions follow their definitions and invert each other",
  "returns_from_prices gives p_t/p_{t-1} - 1 (its log(1+.) with log_returns) per cell with rows that are entirely missing dropped; prices_from_returns gives pseudo-prices starting at 1 whose successive ratios are 1 + r_t (exp(r_t) for log returns). Composing them reproduces the relative prices / the returns.",
  ["inputs"], "every price table (any size, scale, leading or interior gaps) and both log settings",
  "Tests use one data set.",
  [ER], [("returns_from_prices / prices_from_returns", ER)], ["returned DataFrame"])
p("C14", "Mean and EMA return estimators match their definitions",
  "mean_historical_return is per asset (prod(1+r))^(frequency/count) - 1 when compounding else mean(r)*frequency over that asset's available returns; ema_historical_return annualises the span-weighted exponential mean ((1+ema)^frequency - 1 or ema*frequency). return_model(method) and passing returns with returns_data=True give the same result as calling the estimator on prices, and the result is indexed by ticker, unaffected by the other assets (for the EMA: of an asset without interior gaps).",
  ["inputs", "configurations"], "every price table (with missing history), frequency, span, compounding and log_returns setting",
  "Tests check stored values for default settings on one data set.",
  [ER], [("mean_historical_return, ema_historical_return, return_model", ER)], ["returned Series"])
p("C15", "CAPM returns equal rf + beta * (market return - rf)",
  "capm_return gives for each asset rf + beta*(E[R_m]-rf), with beta = cov(asset, market)/var(market) over the return sample and E[R_m] the annualised (geometric or arithmetic) market mean; without market_prices the equal-weighted mean of the assets' returns is the market. The result is the same for price or return input and the supplied data is left untouched.",
  ["inputs", "configurations"], "every asset/market table (Series or one-column DataFrame), index alignment, frequency, rf, compounding, log setting",
  "Tests check one market series and stored values.",
  [ER], [("capm_return", ER)], ["returned Series"])
p("C16", "Sample, semi- and exponential covariance equal their definitions",
  "sample_cov is the pairwise-complete sample covariance times frequency; semicovariance is the mean over periods of the products of below-benchmark deviations times frequency; exp_cov is the span-weighted exponential mean of the products of deviations from the sample means times frequency - each symmetric, labelled by ticker on both axes, repaired only if not PSD. risk_matrix(method) and returns_data=True agree with the direct call.",
  ["inputs", "configurations"], "every price or return table, frequency, span, benchmark, log setting, fix_method and method name",
  "Tests mostly check shapes and PSD-ness on one data set.",
  [RM], [("sample_cov, semicovariance, exp_cov, risk_matrix", RM)], ["returned DataFrame"])
p("C17", "Shrinkage estimators are the stated convex combination with their target",
  "Each CovarianceShrinkage estimator returns frequency * (delta*F + (1-delta)*S), with 0<=delta<=1 stored in .delta: F is mean-variance identity (manual shrinkage, Ledoit-Wolf constant variance, OAS), Sharpe single-factor matrix, or constant-correlation matrix, S the sample covariance, and delta the estimator's published formula (or the manual value). Output is symmetric PSD, labelled by ticker; scaling all returns by c scales the result by c^2 and leaves delta unchanged.",
  ["inputs", "configurations"], "every return sample with T > 1, N >= 2, every target, frequency, price/return/log input",
  "Tests check one data set and PSD-ness.",
  [RM], [("CovarianceShrinkage", RM)], ["returned DataFrame", ".delta"])
p("C18", "PSD repair and cov/corr conversions are exact and minimal",
  "fix_nonpositive_semidefinite returns a PSD input unchanged, and otherwise a symmetric PSD matrix with the same labels: the spectral method gives the nearest PSD matrix in Frobenius norm, diag adds 1.1*|lambda_min| to the diagonal; a second application changes nothing beyond numerical noise. cov_to_corr and corr_to_cov are mutually inverse with unit diagonal and correct labels.",
  ["inputs"], "every symmetric matrix (PSD, indefinite, array or DataFrame) and every positive standard-deviation vector",
  "Tests use two or three matrices.",
  [RM], [("fix_nonpositive_semidefinite, cov_to_corr, corr_to_cov", RM)], ["returned matrix"])
p("C19", "Black-Litterman posterior equals the Bayesian formula",
  "bl_returns equals pi + tau*S*P'(P*tau*S*P' + Omega)^-1 (Q - P*pi) and bl_cov equals S + [(tau*S)^-1 + P'Omega^-1 P]^-1 (in its inversion-free form), labelled by ticker; both are unaffected by call order, repetition or the order in which views are listed. With no view surprise (Q = P*pi) the posterior is the prior, and with Omega = 0 it satisfies the views exactly.",
  ["inputs", "histories"], "every covariance, prior, picking matrix, view vector, Omega, tau; any order of bl_returns/bl_cov/bl_weights calls",
  "Tests check stored numbers for a few view sets.",
  [BL], [("bl_returns, bl_cov", BL)], ["returned Series/DataFrame"],
  [dict(name="_tau_sigma_P, _A", meaning="lazily cached intermediates", where=BL)])
p("C20", "Black-Litterman priors, views and uncertainty are built as documented",
  "Absolute views (dict or Series, any order, any subset of tickers) mean Q holds the views and each row of P selects that ticker; pi='equal' is 1/N, pi='market' is risk_aversion*S*w_mkt + rf with caps matched by ticker; default Omega is diag(tau*P*S*P') and Idzorek's is tau*(1-c)/c*p*S*p' per view (c=1 gives 0, c=0 gives no weight). market_implied_risk_aversion is (annualised mean - rf)/annualised variance of the market's returns.",
  ["inputs", "configurations"], "every view collection, market-cap mapping, confidence vector, tau, risk aversion and container type",
  "Tests use a few fixed view sets.",
  [BL], [("_parse_views, _set_Q_P, _set_pi, default_omega, idzorek_method, market_implied_*", BL)], ["Q/P/pi/omega attributes", "posterior outputs", "returned values"])
p("C21", "Black-Litterman weights and performance follow from the posterior",
  "bl_weights(risk_aversion) returns weights proportional to S^-1 * posterior returns, normalised to sum to one, hence independent of risk_aversion; for an exactly singular covariance (the linear solve fails) they are the normalised least-squares solution. portfolio_performance then reports posterior return, posterior-covariance volatility and Sharpe ratio of those weights, and optimize is the same as bl_weights.",
  ["inputs", "configurations", "histories"], "every covariance (including singular, e.g. with a cash asset), prior, views and risk aversion",
  "Tests check stored numbers; the singular branch is never checked for correctness.",
  [BL], [("bl_weights, portfolio_performance", BL)], ["returned dict", "portfolio_performance()"])
p("C22", "CLA finds the same constrained optima as a quadratic-programming solver",
  "CLA.min_volatility returns a portfolio within bounds, summing to one, with the minimum variance over all such portfolios; CLA.max_sharpe returns one with the maximum Sharpe ratio (zero risk-free rate) among portfolios on the efficient frontier. Results do not depend on which method was called before or on the format of the bounds.",
  ["inputs", "histories"], "every mean vector with distinct entries, PD covariance, feasible bounds in each accepted format, and order of calls",
  "Tests check stored weights for one data set.",
  [CL], [("_solve, max_sharpe, min_volatility", CL)], ["returned dict"])
p("C23", "CLA frontier points are all feasible, consistent and efficient",
  "Every (return, volatility, weights) triple returned by CLA.efficient_frontier has weights within bounds summing to one, return w'mu and volatility sqrt(w'Sigma w), and no feasible portfolio with at least that return has lower volatility. The points run monotonically from the maximum-return portfolio to the minimum-variance portfolio.",
  ["inputs"], "every mean vector with distinct entries, PD covariance, feasible bounds and number of points",
  "Tests check lengths and one data set.",
  [CL], [("efficient_frontier", CL)], ["returned lists", "frontier_values"])
p("C24", "HRP weights equal recursive bisection on the clustered order",
  "HRPOpt.optimize(linkage_method) returns positive weights summing to one, one per ticker, equal to recursive bisection over the quasi-diagonal leaf order of the hierarchical clustering of sqrt((1-corr)/2) distances, splitting each half by inverse cluster variance under inverse-variance weights. Rescaling all returns leaves weights unchanged, and supplying the sample covariance instead of the returns gives the same clustering and weights.",
  ["inputs", "configurations"], "every return sample or covariance matrix with positive variances, number of assets and scipy linkage method",
  "Tests compare one stored weight vector per input type.",
  [HP], [("optimize, _raw_hrp_allocation, _get_cluster_var", HP)], ["returned dict", "weights", "clusters"])
p("C25", "Greedy allocation spends exactly the budget rule: integers, no overspend",
  "For long-only weights greedy_portfolio returns positive integer share counts and leftover cash with sum(shares*price) + leftover equal to the portfolio value and leftover >= 0; when the weights sum to at most one every asset holds at least the rounded-down share of its weight, and (up to ten assets) no affordable asset remains below its target weight relative to the amount invested. It terminates and, for distinct weights, its result depends only on the weights, prices and value, not on dict or price order or earlier calls.",
  ["inputs", "histories"], "every weights dict summing to about one or less, price series, portfolio value and verbose flag",
  "Tests check a few portfolios.",
  [DA], [("greedy_portfolio", DA)], ["returned allocation and leftover"])
p("C26", "LP allocation is the true integer optimum and leaves cash non-negative",
  "For long-only weights lp_portfolio returns non-negative integer share counts keyed by ticker and leftover = value - cost >= 0 (up to the solver's integrality tolerance) such that sum |w_i*value - shares_i*price_i| + leftover is minimal over all affordable integer allocations. The result does not depend on the order of the weights dict or of the prices, on extra tickers in the prices, or on earlier calls on the same object.",
  ["inputs", "histories"], "every weights dict, price series (any order, superset), portfolio value, call history",
  "Tests check a few portfolios where dict and price order agree.",
  [DA], [("lp_portfolio", DA)], ["returned allocation and leftover"])
p("C27", "Long/short allocation splits the budget by the short ratio",
  "With short positions, both allocation methods allocate the long side with the portfolio value (plus the short proceeds when reinvest is set) and the short side with short_ratio times the value (short_ratio defaulting to the total short weight), each in proportion to its own side's weights; longs come back as positive and shorts as negative integers and leftover is the total unspent on both sides. get_latest_prices returns each asset's last available price.",
  ["inputs", "configurations"], "every mixed-sign weights dict, price table with gaps, value, short_ratio, reinvest flag and method",
  "Tests check a few portfolios.",
  [DA], [("short handling in greedy_portfolio and lp_portfolio", DA), ("get_latest_prices", DA)], ["returned allocation and leftover"])
p("C28", "Objective functions agree numerically and symbolically with their formulas",
  "Each function in objective_functions, given an array of weights, returns the float value of its documented formula (variance, +-return, +-Sharpe ratio, gamma*||w||^2, +-(mu - delta/2 variance), k*||w-w_prev||_1, (w-wb)'Sigma(w-wb), sum of squared deviations of active returns); given a cvxpy variable it returns an expression that takes that same value there. Container types of the data (array, Series, DataFrame) do not matter.",
  ["inputs"], "every weights vector, data, parameter and sign setting",
  "Tests evaluate each on one or two vectors.",
  [OF], [("all functions", OF), ("_objective_value", OF)], ["returned float / cp.Expression value"])
p("C29", "nonconvex_objective solves convex problems to the same answer",
  "For convex objectives nonconvex_objective returns (within scipy tolerance) a portfolio that satisfies bounds, the sum-to-one condition when requested and the extra scipy constraints, and whose objective matches the true optimum; objective arguments (single or tuple) and the initial guess are passed through. The returned dict and the weights attribute agree.",
  ["inputs", "configurations"], "every strictly convex quadratic objective, bounds, extra linear constraints, args form, initial guess and weights_sum_to_one",
  "Tests check a few objectives on one data set.",
  [BO], [("nonconvex_objective", BO)], ["returned dict", "weights"])
p("C30", "Invalid arguments are rejected with the documented error, never accepted",
  "Documented-invalid inputs - wrong types or mismatched shapes for returns/covariances/views, risk_aversion <= 0, non-numeric targets (negative ones where only a non-negative one makes sense), rf not below every return, beta outside [0,1), tau outside (0,1], non-callable constraints, unknown method/linkage/extension names, NaN weights or prices, non-positive portfolio value, negative short_ratio - raise the documented exception type (TypeError, ValueError, NotImplementedError...) and no result is produced. The nearest valid input is accepted.",
  ["inputs"], "every otherwise valid call with one documented-invalid argument",
  "Tests try one invalid value per argument.",
  [BO, EF, ES, EC, ED, BL, DA, HP, RM, ER, PL], [("argument validation", EF)], ["exception type"])
p("C31", "Library calls never modify their inputs and are repeatable",
  "No public function or method changes the DataFrames, Series, arrays, lists or dicts passed to it, and results do not share memory with them in a way that later library calls would change them. Running the same computation again on a fresh object with the same inputs gives the same result.",
  ["inputs", "histories"], "every public entry point and input container",
  "Tests share fixtures but never compare inputs before and after.",
  [ER, RM, BL, CL, HP, DA, BO, EF], [("copying of inputs", ER)], ["inputs before/after", "results"])
p("C32", "Plots show the true data",
  "plot_efficient_frontier draws a frontier whose points are (volatility, return) of portfolios optimal for the requested parameters, plus each asset at (its volatility, its return) with its own label; plot_weights draws one bar per asset, sorted descending, with the weight's length and label; plot_covariance shows the covariance (or correlation) matrix with matching tick labels; plot_dendrogram shows the HRP clusters with leaves labelled by their tickers. Interactive frontiers of CLA show, over each point, each asset's weight there, and over the optimum its Sharpe ratio. filename saves the figure there and nothing else is written.",
  ["inputs", "configurations"], "every universe, optimiser (EfficientFrontier or CLA), parameter kind and range, interactive or not, show_assets/show_tickers",
  "Tests only check that artists exist.",
  [PL], [("plot_*", PL)], ["matplotlib axes contents", "plotly figure data", "files written"])

p("C33", "Printed reports state exactly the figures that are returned",
  "With verbose=True every portfolio_performance (all optimisers, HRP, Black-Litterman, CLA and the module function) prints the return, the risk measure and the ratio it returns, each once, percentages scaled by 100 and rounded as shown, and leaves out what it cannot compute; long-only greedy_portfolio and lp_portfolio print the funds remaining, each asset's allocated share of the invested amount next to its target weight, and the root-mean-square difference of these. With verbose=False nothing is printed, and verbose never changes the result.",
  ["inputs", "configurations", "histories"], "every weights vector and data set, verbose setting and earlier calls on the object",
  "Tests run verbose=True without reading what is printed.",
  [BO, ES, EC, ED, DA], [("portfolio_performance", BO), ("_allocation_rmse_error", DA)], ["standard output", "returned values"])

p("C34", "Warnings are given exactly when their situation arises",
  "A warning is issued whenever, and only when, the situation it describes arises: weight bounds amended to allow the shorts market neutrality needs; sector constraints added where the bounds allow shorts; extra objectives combined with max_sharpe; portfolio_performance called with another risk-free rate than max_sharpe used; a CVaR/CDaR confidence level of 0.2 or less; periods with missing returns removed; price or return data not given as a DataFrame (expected returns, CAPM, risk models, CovarianceShrinkage); returns missing after the first one, or infinite; a covariance matrix that is not positive semidefinite being amended; exp_cov with a span below 10; Black-Litterman without a prior; a dendrogram of an HRP portfolio not optimised yet; a frontier value that cannot be plotted.",
  ["inputs", "configurations", "histories"], "every input, container, bound format, sequence of calls and parameter value",
  "Tests check a few warnings on one data set each; that none is missing or spurious is a statement over all inputs.",
  [BO, EF, ES, EC, ED, ER, RM, BL, PL], [("_validate_market_neutral / _make_weight_sum_constraint", EF), ("add_sector_constraints", BO), ("_validate_beta", EC + ", " + ED), ("_check_returns", ER), ("fix_nonpositive_semidefinite", RM)], ["issued warnings"])
p("C35", "The requested solver and options are used and do not change the answer",
  "The solver and solver_options given to an optimiser (all four classes, on every call and on deep copies), the solver given to lp_portfolio (for the long and the short side) and the solver given to nonconvex_objective are the ones the problem is solved with, with every option handed over; and within solver tolerance they do not change the portfolio's objective value, nor its feasibility.",
  ["inputs", "configurations", "histories"], "every problem, solver, option set and sequence of calls",
  "Tests name a solver in a handful of calls without observing which one ran.",
  [BO, EF, DA], [("_solve_cvxpy_opt_problem, nonconvex_objective", BO), ("lp_portfolio", DA)], ["cvxpy.Problem.solve", "scipy.optimize.minimize", "returned weights"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
