import copy, io, contextlib, os, shutil, tempfile, warnings
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import gen

PROP = Prop("C31", "Sequences of 2-6 operations drawn from about 80 (estimators, risk models, Black-Litterman, all optimisers and methods, CLA, HRP, allocation, objective functions, cleaning and saving) that share "
            "one set of input containers (prices with and without gaps, returns, Series, arrays, lists, dicts; integer or float prices) and, for some, one object. After every operation all inputs and all earlier results are "
            "compared bit by bit (values, dtypes, labels, names, order) with deep copies taken before; every result is compared with that of a fresh object given pristine inputs. "
            "Non-trivial: at least two operations returned results.",
            ["repeated results compared at 1e-7 (optimisers) or 1e-12 (everything else) of their size", "operations whose solver gives up are skipped"])


def snap(x):
    if isinstance(x, pd.DataFrame):
        return ("df", x.copy(deep=True), list(x.index), list(x.columns), [str(d) for d in x.dtypes], x.index.name, x.columns.name)
    if isinstance(x, pd.Series):
        return ("se", x.copy(deep=True), list(x.index), str(x.dtype), x.name, x.index.name)
    if isinstance(x, np.ndarray):
        return ("nd", x.copy(), x.dtype.str, x.shape)
    if isinstance(x, dict):
        return ("dict", [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    return ("v", x)


def same(a, b):
    if a[0] != b[0]:
        return False
    k = a[0]
    if k == "df":
        return a[2:] == b[2:] and a[1].shape == b[1].shape and eqnan(a[1].values, b[1].values)
    if k == "se":
        return a[2:] == b[2:] and eqnan(a[1].values, b[1].values)
    if k == "nd":
        return a[2:] == b[2:] and eqnan(a[1], b[1])
    if k == "dict":
        return len(a[1]) == len(b[1]) and all(x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a[1], b[1]))
    if k in ("list", "tuple"):
        return len(a[1]) == len(b[1]) and all(same(x, y) for x, y in zip(a[1], b[1]))
    return a[1] is b[1] or a[1] == b[1] or (a[1] != a[1] and b[1] != b[1])


def eqnan(x, y):
    if x.dtype.kind in "fc":
        return bool(np.all((x == y) | (np.isnan(x) & np.isnan(y))))
    return bool(np.all(x == y))


def flat(x, out):
    """The numbers of a result, with their labels."""
    if isinstance(x, pd.DataFrame):
        out.append(("idx", [str(i) for i in x.index] + [str(c) for c in x.columns]))
        out.append(("num", x.values.astype(float).ravel()))
    elif isinstance(x, pd.Series):
        out.append(("idx", [str(i) for i in x.index]))
        out.append(("num", x.values.astype(float)))
    elif isinstance(x, np.ndarray):
        out.append(("num", x.astype(float).ravel()))
    elif isinstance(x, dict):
        out.append(("idx", [str(k) for k in x]))
        for v in x.values():
            flat(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            flat(v, out)
    elif x is None or isinstance(x, str):
        out.append(("idx", [str(x)]))
    else:
        out.append(("num", np.array([float(x)])))
    return out


def agree(a, b, tol):
    a, b = flat(a, []), flat(b, [])
    if len(a) != len(b):
        return False
    for (k, x), (l, y) in zip(a, b):
        if k != l:
            return False
        if k == "idx":
            if x != y:
                return False
        else:
            if x.shape != y.shape:
                return False
            s = max(1e-3, np.nanmax(np.abs(x))) if x.size and not np.all(np.isnan(x)) else 1.0
            if not np.all((np.abs(x - y) <= tol * s) | (np.isnan(x) & np.isnan(y)) | (x == y)):
                return False
    return True


# ------------------------------------------------------------------ inputs

def inputs(case):
    """Every input container, built from the case alone."""
    n, tick = case["n"], list(case["tick"])
    T = case["ret"]["T"]
    idx = gen.make_index(case["dates"], T)
    R = gen.build_returns(case["ret"]) + np.outer((np.arange(T) * 7) % 5 - 2, 1 + np.arange(n)) * 1e-3
    P = np.cumprod(1 + np.clip(R, -0.5, 1.0), axis=0) * 100
    if case["intp"]:
        P = np.rint(P * 10)
    Pd = pd.DataFrame(P.astype(int) if case["intp"] else P, index=idx, columns=tick)
    Pg = Pd.astype(float)
    for i, k in enumerate(case["lead"]):
        Pg.iloc[:k, i] = np.nan
    if case.get("holes"):
        for i, k in enumerate(case["holes"]):
            if k:
                Pg.iloc[T - k - 1:T - (k > 1), i] = np.nan
    if case["named"]:
        Pd.index.name = Pg.index.name = "date"
        Pd.columns.name = "ticker"
    mkt = pd.DataFrame({"idx": np.cumprod(1 + R.mean(axis=1)) * 50}, index=idx)
    mu = np.array(case["mu"]) / 1000.0 + 0.06 + np.arange(n) * 1.3e-3
    mu = np.abs(mu) + 0.01
    S = gen.build_cov(case["cov"])
    w = np.array(case["w"])
    A = S.copy()
    A[0, 0] = -0.02
    Rg = pd.DataFrame(R, index=idx, columns=tick)
    for i, k in enumerate(case["lead"]):
        Rg.iloc[:k, i] = np.nan
    d = dict(Rg=Rg, Pn=Pd.values.copy(), P=Pd, Pg=Pg, R=pd.DataFrame(R, index=idx, columns=tick), Rn=R.copy(), mkt=mkt, mktr=mkt.pct_change().iloc[1:], mkts=mkt["idx"].copy(),
             mu=pd.Series(mu, index=tick, name="mu" if case["named"] else None), mul=[float(x) for x in mu], mua=mu.copy(), S=pd.DataFrame(S, index=tick, columns=tick), Sa=S.copy(),
             bad=pd.DataFrame(A, index=tick, columns=tick), bada=A.copy(), w={tick[i]: float(w[i]) for i in case["order"]}, wa=w.copy(), wl=[float(x) for x in w],
             ws={t: float(x) * (-1 if i == 1 else 1) for i, (t, x) in enumerate(zip(tick, w))}, prices=pd.Series(5.0 + 3 * np.arange(n), index=tick),
             caps={tick[i]: 1e9 * (i + 1) for i in case["order"]}, capss=pd.Series({t: 2e9 * (i + 1) for i, t in enumerate(tick)}), views={tick[-1]: 0.1, tick[0]: 0.03}, viewss=pd.Series({tick[0]: 0.02, tick[1]: 0.1}),
             Q=np.array([0.05, 0.02]), Pm=np.vstack([np.eye(n)[0] - np.eye(n)[1], np.eye(n)[-1]]), Qd=pd.DataFrame([0.05, 0.02]), Pd=pd.DataFrame(np.vstack([np.eye(n)[0], np.eye(n)[-1]])), omega=np.diag([0.01, 0.02]),
             conf=[0.3, 0.7], confa=np.array([0.4, 0.6]), pi=mu.copy(), sec={t: "ab"[i % 2] for i, t in enumerate(tick)}, lower={"a": 0.05}, upper={"a": 0.99}, bounds=[(0, 1)] * n, boundsl=[[0.0, 1.0] for _ in range(n)],
             boundsa=np.array([[0.0, 1.0]] * n), lb=np.zeros(n), ub=np.ones(n), prev=np.full(n, 1.0 / n), bench=R.mean(axis=1), cons=[{"type": "ineq", "fun": pos}], opts={"max_iter": 500}, guess=np.full(n, 1.0 / n), sd=np.sqrt(np.diag(S)),
             corr=pd.DataFrame(S / np.sqrt(np.outer(np.diag(S), np.diag(S))), index=tick, columns=tick))
    if n == 2:
        d["lb"], d["ub"] = 0.0, 1.0
    return d


def pos(w):
    return w[0] + 0.5


def quiet(f, x):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(x)


OPS = {}


def op(name, f, tol=1e-12):
    OPS[name] = (f, tol)


def setup():
    import cvxpy as cp
    from pypfopt import (BlackLittermanModel, CLA, CovarianceShrinkage, DiscreteAllocation, EfficientFrontier, HRPOpt, base_optimizer, black_litterman as bl,
                         expected_returns as er, objective_functions as of, risk_models as rm)
    from pypfopt.discrete_allocation import get_latest_prices
    from pypfopt.efficient_frontier import EfficientCDaR, EfficientCVaR, EfficientSemivariance
    if OPS:
        return
    for p in ("P", "Pg"):
        op("mean " + p, lambda d, c, p=p: er.mean_historical_return(d[p]))
        op("mean log " + p, lambda d, c, p=p: er.mean_historical_return(d[p], log_returns=True, compounding=False))
        op("ema " + p, lambda d, c, p=p: er.ema_historical_return(d[p], span=20))
        op("capm " + p, lambda d, c, p=p: er.capm_return(d[p]))
        op("rfp " + p, lambda d, c, p=p: er.returns_from_prices(d[p]))
        op("rfp log " + p, lambda d, c, p=p: er.returns_from_prices(d[p], log_returns=True))
        op("sample_cov " + p, lambda d, c, p=p: rm.sample_cov(d[p]))
        op("semicov " + p, lambda d, c, p=p: rm.semicovariance(d[p], benchmark=0.001))
        op("exp_cov " + p, lambda d, c, p=p: rm.exp_cov(d[p], span=20))
        op("lw " + p, lambda d, c, p=p: CovarianceShrinkage(d[p]).ledoit_wolf())
        op("latest " + p, lambda d, c, p=p: get_latest_prices(d[p]))
    for p in ("R", "Rg"):
        op("mean " + p, lambda d, c, p=p: er.mean_historical_return(d[p], returns_data=True))
        op("mean arith " + p, lambda d, c, p=p: er.mean_historical_return(d[p], returns_data=True, compounding=False, frequency=12))
        op("ema " + p, lambda d, c, p=p: er.ema_historical_return(d[p], returns_data=True, compounding=False))
        op("ema geo " + p, lambda d, c, p=p: er.ema_historical_return(d[p], returns_data=True, span=10))
        op("capm " + p, lambda d, c, p=p: er.capm_return(d[p], returns_data=True))
        op("sample_cov " + p, lambda d, c, p=p: rm.sample_cov(d[p], returns_data=True))
        op("exp_cov " + p, lambda d, c, p=p: rm.exp_cov(d[p], returns_data=True))
        op("semicov " + p, lambda d, c, p=p: rm.semicovariance(d[p], returns_data=True))
        op("risk_matrix " + p, lambda d, c, p=p: rm.risk_matrix(d[p], method="semivariance", returns_data=True))
        op("shrunk " + p, lambda d, c, p=p: CovarianceShrinkage(d[p], returns_data=True).shrunk_covariance(0.3))
        op("pfr " + p, lambda d, c, p=p: er.prices_from_returns(d[p]))
        op("capm mkt " + p, lambda d, c, p=p: er.capm_return(d[p], market_prices=d["mktr"], returns_data=True, compounding=False))
    op("rfp mkt", lambda d, c: er.returns_from_prices(d["mkt"]))
    op("capm mkts", lambda d, c: er.capm_return(d["P"], market_prices=d["mkts"].to_frame(), log_returns=True))
    op("sample_cov Pn", lambda d, c: quiet(rm.sample_cov, d["Pn"]))
    op("mean Pn", lambda d, c: quiet(er.mean_historical_return, d["Pn"]))
    op("lw Pn", lambda d, c: quiet(lambda x: CovarianceShrinkage(x).ledoit_wolf(), d["Pn"]))
    op("capm mkt", lambda d, c: er.capm_return(d["P"], market_prices=d["mkt"]))
    op("capm mkt R", lambda d, c: er.capm_return(d["R"], market_prices=d["mktr"], returns_data=True))
    op("return_model", lambda d, c: er.return_model(d["P"], method="capm_return", market_prices=d["mkt"], risk_free_rate=0.01))
    op("pfr log", lambda d, c: er.prices_from_returns(d["R"], log_returns=True))
    for m in ("shrunk_covariance", "oracle_approximating"):
        op("shrink " + m, lambda d, c, m=m: getattr(shared(c, "cs", lambda: CovarianceShrinkage(d["P"])), m)())
    for m in ("constant_variance", "single_factor", "constant_correlation"):
        op("shrink " + m, lambda d, c, m=m: shared(c, "cs", lambda: CovarianceShrinkage(d["P"])).ledoit_wolf(m))
        op("shrink R " + m, lambda d, c, m=m: CovarianceShrinkage(d["R"], returns_data=True).ledoit_wolf(m))
    op("fix", lambda d, c: rm.fix_nonpositive_semidefinite(d["bad"]))
    op("fix diag", lambda d, c: rm.fix_nonpositive_semidefinite(d["bad"], fix_method="diag"))
    op("fix array", lambda d, c: rm.fix_nonpositive_semidefinite(d["bada"]))
    op("fix psd", lambda d, c: rm.fix_nonpositive_semidefinite(d["S"]))
    op("cov_to_corr", lambda d, c: rm.cov_to_corr(d["S"]))
    op("corr_to_cov", lambda d, c: rm.corr_to_cov(d["corr"], d["sd"]))
    # Black-Litterman
    op("prior", lambda d, c: bl.market_implied_prior_returns(d["caps"], 2.5, d["S"]))
    op("prior series", lambda d, c: bl.market_implied_prior_returns(d["capss"], 2.5, d["S"], risk_free_rate=0.01))
    op("delta", lambda d, c: bl.market_implied_risk_aversion(d["mkts"]))
    op("delta frame", lambda d, c: bl.market_implied_risk_aversion(d["mkt"]))
    BLS = dict(plain=lambda d: BlackLittermanModel(d["S"], pi=d["mu"], absolute_views=d["views"]), series=lambda d: BlackLittermanModel(d["S"], pi=d["pi"], absolute_views=d["viewss"], omega=d["omega"]),
               market=lambda d: BlackLittermanModel(d["S"], pi="market", market_caps=d["caps"], Q=d["Q"], P=d["Pm"]), idz=lambda d: BlackLittermanModel(d["S"], pi=d["mu"], Q=d["Qd"], P=d["Pd"], omega="idzorek", view_confidences=d["conf"]),
               idza=lambda d: BlackLittermanModel(d["Sa"], pi="equal", Q=d["Q"], P=d["Pm"], omega="idzorek", view_confidences=d["confa"]))
    for k, mk in BLS.items():
        op("bl rets " + k, lambda d, c, k=k, mk=mk: shared(c, "bl" + k, lambda: mk(d)).bl_returns(), 1e-10)
        op("bl cov " + k, lambda d, c, k=k, mk=mk: shared(c, "bl" + k, lambda: mk(d)).bl_cov(), 1e-10)
        op("bl weights " + k, lambda d, c, k=k, mk=mk: shared(c, "bl" + k, lambda: mk(d)).bl_weights(), 1e-6)
    op("bl perf", lambda d, c: perf(BLS["plain"](d), "bl_weights"), 1e-6)

    # optimisers
    def perf(o, m, *a, **k):
        r = getattr(o, m)(*a, **k)
        return r, o.portfolio_performance()
    kw = dict(solver="CLARABEL")
    op("ef minvol", lambda d, c: perf(EfficientFrontier(d["mu"], d["S"], weight_bounds=d["bounds"], **kw), "min_volatility"), 1e-7)
    op("ef minvol arrays", lambda d, c: perf(EfficientFrontier(d["mua"], d["Sa"], weight_bounds=(d["lb"], d["ub"]), solver_options=d["opts"], **kw), "min_volatility"), 1e-7)
    op("ef sharpe", lambda d, c: perf(EfficientFrontier(d["mul"], d["S"], weight_bounds=d["boundsl"], **kw), "max_sharpe", risk_free_rate=0.0), 1e-6)
    op("ef utility", lambda d, c: perf(EfficientFrontier(d["mu"], d["Sa"], weight_bounds=d["boundsa"], **kw), "max_quadratic_utility", risk_aversion=2), 1e-6)
    op("ef return", lambda d, c: perf(EfficientFrontier(d["mu"], d["S"], **kw), "efficient_return", float(d["mua"].mean())), 1e-6)
    op("ef risk", lambda d, c: perf(EfficientFrontier(d["mu"], d["S"], **kw), "efficient_risk", float(d["sd"].max())), 1e-5)

    def sectors(d, c):
        o = EfficientFrontier(d["mu"], d["S"], **kw)
        o.add_sector_constraints(d["sec"], d["lower"], d["upper"])
        o.add_objective(of.L2_reg, gamma=0.1)
        o.add_objective(of.transaction_cost, w_prev=d["prev"], k=0.002)
        return perf(o, "min_volatility")
    op("ef sectors", sectors, 1e-7)

    def te(d, c):
        o = EfficientFrontier(d["mu"], d["S"], **kw)
        o.add_objective(of.ex_post_tracking_error, historic_returns=d["R"], benchmark_returns=d["bench"])
        return o.convex_objective(of.ex_ante_tracking_error, cov_matrix=d["S"], benchmark_weights=d["prev"])
    op("ef custom", te, 1e-4)
    op("ef nonconvex", lambda d, c: EfficientFrontier(d["mu"], d["S"]).nonconvex_objective(of.portfolio_variance, (d["S"],), constraints=d["cons"], initial_guess=d["guess"]), 1e-6)
    op("sv", lambda d, c: perf(EfficientSemivariance(d["mu"], d["R"], **kw), "min_semivariance"), 1e-4)
    op("sv array", lambda d, c: perf(EfficientSemivariance(d["mua"], d["Rn"], benchmark=0.001, **kw), "max_quadratic_utility"), 1e-4)
    op("cvar", lambda d, c: EfficientCVaR(d["mu"], d["R"], beta=0.5, **kw).min_cvar(), 1e-4)
    op("cdar", lambda d, c: EfficientCDaR(d["mu"], d["R"], beta=0.5, **kw).min_cdar(), 1e-4)
    op("cdar array", lambda d, c: EfficientCDaR(d["mul"], d["Rn"], beta=0.5, weight_bounds=d["bounds"], **kw).min_cdar(), 1e-4)
    op("cla minvol", lambda d, c: perf(shared(c, "cla", lambda: CLA(d["mu"], d["S"])), "min_volatility"), 1e-9)
    op("cla sharpe", lambda d, c: perf(shared(c, "cla", lambda: CLA(d["mu"], d["S"])), "max_sharpe"), 1e-9)
    op("cla lists", lambda d, c: perf(CLA(d["mul"], d["Sa"], weight_bounds=d["bounds"]), "max_sharpe"), 1e-9)
    op("cla frontier", lambda d, c: shared(c, "cla", lambda: CLA(d["mu"], d["S"])).efficient_frontier(points=40), 1e-9)
    for l in ("single", "ward", "average"):
        op("hrp " + l, lambda d, c, l=l: perf(shared(c, "hrp", lambda: HRPOpt(d["R"])), "optimize", linkage_method=l), 1e-10)
        op("hrp cov " + l, lambda d, c, l=l: shared(c, "hrpc", lambda: HRPOpt(cov_matrix=d["S"])).optimize(linkage_method=l), 1e-10)
    # allocation
    da = lambda d, c: shared(c, "da", lambda: DiscreteAllocation(d["w"], d["prices"], total_portfolio_value=300))
    das = lambda d, c: shared(c, "das", lambda: DiscreteAllocation(d["ws"], d["prices"], total_portfolio_value=300, short_ratio=0.3))
    op("greedy", lambda d, c: da(d, c).greedy_portfolio())

    def lp(d, c):
        """Solutions may tie, so only the objective (deviation plus leftover) is compared, at the solver's gap."""
        o = da(d, c)
        x, left = o.lp_portfolio()
        return 1 + sum(abs(d["w"][t] * 300 - x.get(t, 0) * d["prices"][t]) for t in d["w"]) / 300 + left / 300
    op("lp", lp, 3e-3)
    op("greedy short", lambda d, c: das(d, c).greedy_portfolio(reinvest=True))
    op("greedy short no reinvest", lambda d, c: das(d, c).greedy_portfolio())
    # functions
    op("performance", lambda d, c: base_optimizer.portfolio_performance(d["w"], d["mu"], d["S"]))
    op("performance list", lambda d, c: base_optimizer.portfolio_performance(d["wl"], d["mua"], d["Sa"]))
    for nm, f in dict(var=lambda d: of.portfolio_variance(d["wa"], d["S"]), ret=lambda d: of.portfolio_return(d["wa"], d["mu"]), sharpe=lambda d: of.sharpe_ratio(d["wa"], d["mu"], d["S"]), l2=lambda d: of.L2_reg(d["wa"]),
                      qu=lambda d: of.quadratic_utility(d["wa"], d["mu"], d["S"], 1), tc=lambda d: of.transaction_cost(d["wa"], d["prev"]), ante=lambda d: of.ex_ante_tracking_error(d["wa"], d["S"], d["prev"]),
                      post=lambda d: of.ex_post_tracking_error(d["wa"], d["R"], d["bench"])).items():
        op("of " + nm, lambda d, c, f=f: f(d), 1e-11)

    def weights(d, c):
        o = shared(c, "hold", lambda: EfficientFrontier(d["mu"], d["S"]))
        o.set_weights(d["w"])
        r = o.clean_weights(cutoff=0.1, rounding=2)
        return r, o.clean_weights(), o.portfolio_performance()
    op("set/clean", weights)

    def save(d, c):
        o = EfficientFrontier(d["mu"], d["S"])
        o.set_weights(d["w"])
        tmp = tempfile.mkdtemp(prefix="verif_c31_")
        try:
            o.save_weights_to_file(os.path.join(tmp, "w.json"))
            return open(os.path.join(tmp, "w.json")).read()
        finally:
            shutil.rmtree(tmp)
    op("save", save)


def shared(c, name, make):
    if c is None:
        return make()
    if name not in c:
        c[name] = make()
    return c[name]


@st.composite
def g(draw):
    n = draw(st.integers(2, 5))
    v = gen.ints(draw, n, 0, 9)
    v[0] += 1
    s = float(sum(v))
    setup()
    return dict(n=n, tick=list(draw(gen.tickers(n))), ret=draw(gen.returns_case(n, 12, 16)), mu=gen.mu_ints(draw, n, 0, 300), cov=draw(gen.cov_case(n, ("pd", "diag", "factor"))), w=[x / s for x in v],
                order=draw(st.permutations(list(range(n)))), dates=draw(gen.dates(10)), intp=draw(st.integers(0, 3)) == 0, named=draw(st.booleans()), lead=gen.ints(draw, n, 0, 3), holes=gen.ints(draw, n, 0, 3) if draw(st.booleans()) else None,
                ops=draw(st.lists(st.sampled_from(sorted(OPS)), min_size=2, max_size=6)))


def run(name, d, c):
    import cvxpy as cp
    from pypfopt import exceptions
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return True, OPS[name][0](d, c)
    except (exceptions.OptimizationError, cp.error.SolverError):
        return False, None


@PROP.sub("histories", g(), quick=2000)
def histories(case, rec):
    rec.lib = True
    setup()
    d, cache = inputs(case), {}
    before = {k: snap(v) for k, v in d.items()}
    done = []
    for step, name in enumerate(case["ops"]):
        if "ws" in d and name.startswith("greedy short") and not min(case["w"]) >= 0:
            continue
        if name.startswith("greedy short") and (case["w"][1] == 0 or sum(x for i, x in enumerate(case["w"]) if i != 1) == 0):
            continue
        ok, r = run(name, d, cache)
        for k, v in d.items():
            if not same(before[k], snap(v)):
                raise Violation("operation %d of %s changed its input %r:\n%s\nwas\n%s" % (step, case["ops"], k, brief(v), brief(before[k][1])))
        for s, nm, r0, sn in done:
            if not same(sn, snap(r0)):
                raise Violation("operation %d of %s changed the result of operation %d (%s):\n%s\nwas\n%s" % (step, case["ops"], s, nm, brief(r0), brief(sn[1])))
        if not ok:
            continue
        done.append((step, name, r, snap(r)))
        ok2, fresh = run(name, inputs(case), None)
        if not ok2:
            continue
        if not agree(r, fresh, OPS[name][1]):
            raise Violation("operation %d of %s gives %s, a fresh object with the same inputs %s" % (step, case["ops"], brief(r), brief(fresh)))
    rec.label(*[o for o in case["ops"]])
    rec.nt(len(done) > 1)


def brief(x):
    return str(x)[:400]
