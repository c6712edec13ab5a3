"""Warnings: each is given exactly when the situation it describes arises."""
import math, re, warnings
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import bl, est, gen

PROP = Prop("C34", "Optimisers of all four classes (bounds with and without shorts in several formats, market neutrality, repeated calls, sector constraints, extra objectives, risk-free rates after max_sharpe, "
            "confidence levels, missing returns), every estimator (prices or returns, frames, arrays and lists, gaps at the start or inside, infinite returns, spans), matrices with eigenvalues of either sign, "
            "Black-Litterman priors and covariance containers, dendrograms and frontier plots with unreachable values. The topics warned about are compared with those whose situation holds. "
            "Non-trivial: at least one warning is due.",
            ["a warning is recognised by key words of its message and must be a UserWarning or RuntimeWarning", "situations too close to call (eigenvalues within 1e-9 of zero) are left undecided",
             "a performance call that leaves the risk-free rate at its default after max_sharpe may or may not warn"])

TOPICS = {
    "neutral": r"neutral", "sector": r"sector", "transform": r"additional objectives|transforms the optim", "rf": r"risk[_ -]?free", "beta": r"\bbeta\b|confidence.?level",
    "removed": r"(remov|drop)\w* nan", "frame": r"not (in )?a dataframe", "nan": r"returns are nan", "inf": r"returns are inf", "psd": r"positive semi-?definite|eigenvalues",
    "span": r"higher span|\bspan\b", "prior": r"no prior", "dendrogram": r"not been optimi", "point": r"could not construct", "deprecated": r"deprecat",
}
RX = {k: re.compile(v, re.I) for k, v in TOPICS.items()}


def topics(ws):
    out = {}
    for w in ws:
        for k, rx in RX.items():
            if rx.search(str(w.message)) and ("pypfopt" in w.filename or "verif" in w.filename):
                if not issubclass(w.category, (UserWarning, RuntimeWarning)):
                    continue
                out[k] = out.get(k, 0) + 1
    return out


def listen(f, *a, **k):
    """(topics warned about, result or None, exception or None)"""
    import cvxpy
    from pypfopt import exceptions
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            r, e = f(*a, **k), None
        except (exceptions.OptimizationError, exceptions.InstantiationError, cvxpy.error.SolverError, ValueError, np.linalg.LinAlgError, NotImplementedError) as x:
            r, e = None, x
    return topics(ws), r, e


def expect(got, want, what, maybe=()):
    for k in RX:
        if k in maybe:
            continue
        if k in want and k not in got:
            raise Violation("%s: no warning about '%s' although its situation holds (warned: %s)" % (what, k, sorted(got)))
        if k not in want and k in got:
            raise Violation("%s: warned about '%s' although its situation does not hold" % (what, k))


# ------------------------------------------------------------------ optimisers

NEUTRAL = {"EF": ["max_quadratic_utility", "efficient_risk", "efficient_return"], "SV": ["max_quadratic_utility", "efficient_risk", "efficient_return"],
           "CVAR": ["min_cvar", "efficient_risk", "efficient_return"], "CDAR": ["min_cdar", "efficient_risk", "efficient_return"]}
PLAIN = {"EF": ["min_volatility", "max_sharpe", "max_sharpe"], "SV": ["min_semivariance"], "CVAR": ["min_cvar"], "CDAR": ["min_cdar"]}


@st.composite
def opt_g(draw):
    kind = draw(st.sampled_from(["EF", "EF", "EF", "SV", "CVAR", "CDAR"]))
    n = draw(st.integers(2, 4))
    c = dict(kind=kind, n=n, tick=draw(gen.tickers(n)), mu=gen.ints(draw, n, 10, 400), cov=draw(gen.cov_case(n, ("pd", "diag"))), ret=draw(gen.returns_case(n, 8, 14)),
             muc=draw(st.sampled_from(["series", "array", "list"])), covc=draw(st.sampled_from(["df", "nd"])), retc=draw(st.sampled_from(["df", "nd"])),
             bfmt=draw(st.sampled_from(["default", "pair", "none", "list", "list", "arrays"])),
             lb=[draw(st.sampled_from([0.0, 0.0, 0.05, -0.3, -1.0])) for _ in range(n)],
             beta=draw(st.sampled_from([None, 0.95, 0.9, 0.8, 0.5, 0.21, 0.2, 0.2000001, 0.1999999, 0.15, 0.05, 0.01, 0, 0.0, 0.3])),
             setbeta=draw(st.sampled_from([None, None, 0.9, 0.2, 0.1])),
             sector=draw(st.integers(0, 2)) == 0, twice=draw(st.booleans()), obj=draw(st.integers(0, 1)), rf1=draw(st.sampled_from([None, 0.0, 0.001, 0.005])),
             rf2=draw(st.sampled_from([None, "same", 0.0, 0.001, 0.005, 0.02])))
    c["gaps"] = draw(gen.gaps_case(c["ret"]["T"], n))
    if draw(st.integers(0, 2)) == 0:
        c["lb"] = [abs(x) if x < 0 else x for x in c["lb"]]
        c["lb"] = [min(x, 0.05) for x in c["lb"]]
    c["method"] = draw(st.sampled_from(NEUTRAL[kind] + PLAIN[kind]))
    return c


@PROP.sub("optimisers", opt_g(), quick=2500)
def optimisers(case, rec):
    import pypfopt
    from pypfopt import objective_functions
    from pypfopt.efficient_frontier import EfficientCDaR, EfficientCVaR, EfficientSemivariance
    rec.lib = True
    k, n, m, tick = case["kind"], case["n"], case["method"], case["tick"]
    mu = gen.as_mu(gen.mu_of(case), case["muc"], tick)
    fmt, lb = case["bfmt"], list(case["lb"])
    kw = {}
    if fmt == "default":
        lb = [0.0] * n
    elif fmt == "pair":
        lb = [lb[0]] * n
        kw["weight_bounds"] = (lb[0], 1)
    elif fmt == "none":
        lb = [-1.0] * n
        kw["weight_bounds"] = (None, None)
    elif fmt == "list" or n == 2:
        kw["weight_bounds"] = [(l, 1.0) for l in lb]
    else:
        kw["weight_bounds"] = (np.array(lb), np.ones(n))
    shorts = any(l < 0 for l in lb)
    R = gen.build_returns(case["ret"])
    due = set()
    if k == "EF":
        f, a = pypfopt.EfficientFrontier, gen.as_cov(gen.build_cov(case["cov"]), case["covc"], tick)
    else:
        f = {"SV": EfficientSemivariance, "CVAR": EfficientCVaR, "CDAR": EfficientCDaR}[k]
        a = gen.passed_returns(R, case["retc"], tick, case["gaps"])
        if pd.DataFrame(a).isnull().values.any():
            due.add("removed")
        if k != "SV" and case["beta"] is not None:
            kw["beta"] = case["beta"]
            if case["beta"] <= 0.2:
                due.add("beta")
    got, o, e = listen(f, mu, a, **kw)
    if e is not None:
        raise e
    what = "%s(%s)" % (f.__name__, kw)
    expect(got, due, what)
    some = bool(due)
    labels = list(o.tickers)
    if case["sector"]:
        smap = {t: "ab"[i % 2] for i, t in enumerate(labels)}
        got, _, e = listen(o.add_sector_constraints, smap, {}, {"a": 1.0})
        if e is not None:
            raise e
        expect(got, {"sector"} if shorts else set(), what + ".add_sector_constraints")
        some |= shorts
    if case["obj"] and k == "EF":
        got, _, e = listen(o.add_objective, objective_functions.L2_reg, gamma=0.01)
        expect(got, set(), what + ".add_objective")
    args, kwargs = [], {}
    if m == "max_quadratic_utility":
        args = [2]
    elif m == "efficient_risk":
        args = [10.0]
    elif m == "efficient_return":
        args = [0.0]
    elif m == "max_sharpe" and case["rf1"] is not None:
        kwargs["risk_free_rate"] = case["rf1"]
    neutral = m in NEUTRAL[k] and case["n"] % 2 == 0
    if neutral:
        kwargs["market_neutral"] = True
    solved = None
    for call in range(2 if case["twice"] and m != "max_sharpe" else 1):
        got, w, e = listen(getattr(o, m), *args, **kwargs)
        due = set()
        if neutral and not shorts and call == 0:
            due.add("neutral")
        if m == "max_sharpe" and case["obj"]:
            due.add("transform")
        maybe = ("neutral", "transform") if e is not None else ()
        expect(got, due, "%s.%s(%s, %s), call %d" % (what, m, args, kwargs, call + 1), maybe)
        some |= bool(due)
        solved = e is None
        if not solved:
            break
    if k == "EF" and solved:
        rf2 = case["rf2"]
        rf1 = 0.0 if case["rf1"] is None else case["rf1"]
        pk = {}
        if rf2 is not None:
            pk["risk_free_rate"] = rf1 if rf2 == "same" else rf2
        due, maybe = set(), ()
        if m == "max_sharpe":
            if rf2 is None:
                maybe = ("rf",)
            elif pk["risk_free_rate"] != rf1:
                due.add("rf")
        got, _, e = listen(o.portfolio_performance, **pk)
        if e is not None:
            raise e
        expect(got, due, "%s.%s(%s), portfolio_performance(%s)" % (what, m, kwargs, pk), maybe)
        some |= bool(due)
    elif solved:
        got, _, e = listen(o.portfolio_performance)
        expect(got, set(), "%s.%s, portfolio_performance()" % (what, m))
    if k in ("CVAR", "CDAR") and case["setbeta"] is not None:
        got, _, e = listen(o.__class__, mu, a, beta=case["setbeta"])
        expect(got, ({"beta"} if case["setbeta"] <= 0.2 else set()) | ({"removed"} if pd.DataFrame(a).isnull().values.any() else set()), "%s(beta=%s)" % (k, case["setbeta"]))
        some |= case["setbeta"] <= 0.2
    rec.label(k, m, "shorts" if shorts else "long", "neutral" if neutral else "fully invested", "solved" if solved else "refused")
    rec.nt(some)


# ------------------------------------------------------------------ estimators

FUNCS = ["mean_historical_return", "ema_historical_return", "capm_return", "return_model", "sample_cov", "semicovariance", "exp_cov", "CovarianceShrinkage", "risk_matrix", "min_cov_determinant"]


@st.composite
def data_g(draw):
    c = draw(est.prices_case(nmax=4, tmin=5, tmax=14, minvalid=3))
    c.update(fn=draw(st.sampled_from(FUNCS)), sub=draw(st.integers(0, 9)), cont=draw(st.sampled_from(["df", "df", "nd", "list"])), rd=draw(st.booleans()),
             log=draw(st.booleans()), span=draw(st.sampled_from([None, 2, 5, 9, 9.5, 10, 11, 30, 500])), comp=draw(st.booleans()),
             mkt=draw(st.sampled_from([None, None, "df", "nd"])), inf=draw(st.sampled_from([None, None, None, "inf", "-inf"])), at=[draw(st.integers(0, 30)), draw(st.integers(0, 3))])
    return c


def interior_nan(R):
    for i in range(R.shape[1]):
        seen = False
        for x in R[:, i]:
            if math.isnan(x):
                if seen:
                    return True
            else:
                seen = True
    return False


@PROP.sub("estimators", data_g(), quick=2500)
def estimators(case, rec):
    from pypfopt import expected_returns, risk_models
    rec.lib = True
    fn, n, tick = case["fn"], case["n"], case["tick"]
    P = est.price_values(case)
    returns = fn in FUNCS[:4]
    if case["rd"]:
        X = np.full_like(P, np.nan)
        for t in range(len(P)):
            for i in range(n):
                X[t, i] = np.nan if math.isnan(P[t, i]) else (0.01 * ((t * 7 + i * 3) % 5 - 2) + (case["R"][t - 1][i] / 1000.0 if t else 0.0))
        if case["inf"] and returns:
            X[case["at"][0] % len(X), case["at"][1] % n] = float(case["inf"])
        R = X
    else:
        X = P
        if case["inf"] and returns:
            X[case["at"][0] % len(X), case["at"][1] % n] = 0.0
        with np.errstate(all="ignore"):
            R = np.full_like(X, np.nan)
            R[1:] = X[1:] / X[:-1] - 1
            if case["log"]:
                R[1:] = np.log(1 + R[1:])
        R = R[[t for t in range(len(R)) if not np.all(np.isnan(R[t]))]]
    if not len(R) or any(np.sum(~np.isnan(R[:, i])) < 3 for i in range(n)):
        raise Skip("too few returns")
    df = est.frame(case, X)
    data = {"df": df, "nd": X.copy(), "list": [list(map(float, r)) for r in X]}[case["cont"]]
    kw = dict(returns_data=case["rd"], log_returns=case["log"])
    due, maybe = set(), set()
    if case["cont"] != "df":
        due.add("frame")
    if returns:
        if interior_nan(R):
            due.add("nan")
        if np.any(np.isinf(R)):
            due.add("inf")
    span = case["span"]
    if fn in ("mean_historical_return", "ema_historical_return", "capm_return"):
        f = getattr(expected_returns, fn)
    elif fn == "return_model":
        f = expected_returns.return_model
        meth = ["mean_historical_return", "ema_historical_return", "capm_return"][case["sub"] % 3]
        kw["method"] = meth
        fn = meth
    elif fn == "risk_matrix":
        f = risk_models.risk_matrix
        meth = ["sample_cov", "semicovariance", "exp_cov", "ledoit_wolf", "oracle_approximating", "ledoit_wolf_single_factor"][case["sub"] % 6]
        kw["method"] = meth
        fn = meth
    else:
        f = getattr(risk_models, fn)
    if fn in ("mean_historical_return", "ema_historical_return", "capm_return"):
        kw["compounding"] = case["comp"]
    else:
        maybe.add("psd")        # decided in "matrices"
    if fn == "ema_historical_return" and span is not None:
        kw["span"] = max(span, 2)
    if fn == "exp_cov" and span is not None:
        kw["span"] = span
        if span < 10:
            due.add("span")
    if fn == "capm_return" and case["mkt"]:
        # a market index without gaps of its own, over the same dates
        m = np.cumprod(1 + 0.01 * (np.arange(len(X)) % 4 - 1.4)) if not case["rd"] else 0.01 * (np.arange(len(X)) % 4 - 1.4)
        if case["mkt"] == "df" and case["cont"] == "df":
            kw["market_prices"] = pd.DataFrame({"m": m}, index=df.index)
        elif case["cont"] != "df" or case["idx"] == "range":
            # an array has no dates: it is matched by position
            kw["market_prices"] = m.reshape(-1, 1) if case["mkt"] == "nd" else pd.DataFrame({"m": m})
            if case["mkt"] == "nd":
                due.add("frame")
                if case["rd"] and case["cont"] == "df":
                    maybe.add("frame")
    if fn == "min_cov_determinant":
        due.add("deprecated")
        kw["random_state"] = 1
        if np.sum(~np.isnan(R).any(axis=1)) < n + 3:
            raise Skip("too few complete periods")
    got, _, e = listen(f, data, **kw)
    what = "%s(%s, %s)" % (case["fn"], case["cont"], {a: b for a, b in kw.items() if a != "market_prices"})
    if e is not None:
        if isinstance(e, (ValueError, np.linalg.LinAlgError)) and not returns:
            raise Skip("estimator failed: %s" % e)
        raise e
    expect(got, due, what, maybe)
    rec.label(case["fn"], case["cont"], *sorted(due))
    rec.nt(bool(due))


# ------------------------------------------------------------------ matrices

@st.composite
def mat_g(draw):
    n = draw(st.integers(1, 5))
    return dict(n=n, A=[gen.ints(draw, n, -9, 9) for _ in range(n)], tick=draw(gen.tickers(n)), ridge=draw(st.sampled_from([0, 5, 20, 60, 200])),
                scale=draw(st.sampled_from([1.0, 1e-2, 1e-4])), fix=draw(st.sampled_from([None, "spectral", "diag"])), fn=draw(st.sampled_from(["fix", "fix", "fix", "c2c", "corr"])),
                cont=draw(st.sampled_from(["df", "nd"])))


@PROP.sub("matrices", mat_g(), quick=1500)
def matrices(case, rec):
    from pypfopt import risk_models
    rec.lib = True
    n = case["n"]
    A = np.array(case["A"], float)
    S = (A + A.T) / 2 + np.diag([float(case["ridge"]) / 10 + 12] * n)
    S *= case["scale"]
    M = gen.as_cov(S, case["cont"], case["tick"])
    due = set()
    if case["fn"] == "fix":
        q = np.linalg.eigvalsh(S)
        if abs(q[0]) <= 1e-9 * q[-1]:
            raise Skip("singular")
        if q[0] < 0:
            due.add("psd")
        got, _, e = listen(risk_models.fix_nonpositive_semidefinite, M, **({} if case["fix"] is None else dict(fix_method=case["fix"])))
    else:
        if min(np.diag(S)) <= 0:
            raise Skip("negative variance")
        if case["cont"] != "df":
            due.add("frame")
        if case["fn"] == "c2c":
            got, _, e = listen(risk_models.cov_to_corr, M)
        else:
            got, _, e = listen(risk_models.corr_to_cov, M, np.linspace(0.1, 0.3, n))
    if e is not None:
        raise e
    expect(got, due, "%s(%s)" % (case["fn"], case["cont"]))
    rec.label(case["fn"], case["cont"], *sorted(due))
    rec.nt(bool(due))


# ------------------------------------------------------------------ Black-Litterman

@PROP.sub("black_litterman", bl.bl_case(nmax=4, omegas=("none", "default", "diag")), quick=1000)
def black_litterman(case, rec):
    from pypfopt import black_litterman as B
    rec.lib = True
    m = bl.Model(case)
    got, o, e = listen(m.build)
    if e is not None:
        raise e
    due = set()
    if case["pi"] == "none":
        due.add("prior")
    expect(got, due, "BlackLittermanModel(pi=%s)" % case["pi"], ("frame",) if case["pi"] == "market" else ())
    got, _, e = listen(o.bl_returns)
    expect(got, set(), "bl_returns()")
    cov, kw = m.args()
    got, _, e = listen(B.market_implied_prior_returns, m.caps(), 2.5, cov)
    if e is not None:
        raise e
    with_array = case["covc"] == "nd"
    expect(got, {"frame"} if with_array else set(), "market_implied_prior_returns(%s)" % case["covc"])
    rec.label("pi=" + case["pi"], case["covc"])
    rec.nt(bool(due) or with_array)


# ------------------------------------------------------------------ plots

@st.composite
def plot_g(draw):
    n = draw(st.integers(2, 4))
    return dict(n=n, kind=draw(st.sampled_from(["dendrogram", "ef", "ef"])), tick=draw(gen.tickers(n)), mu=gen.ints(draw, n, 10, 400), cov=draw(gen.cov_case(n, ("pd", "diag"))),
                ret=draw(gen.returns_case(n, 8, 14)), opt=draw(st.booleans()), param=draw(st.sampled_from(["risk", "return", "utility"])),
                f=[draw(st.sampled_from([0.5, 0.9, 1.1, 1.3, 2.0, 0.2])) for _ in range(draw(st.integers(1, 4)))])


@PROP.sub("plots", plot_g(), quick=300)
def plots(case, rec):
    import pypfopt
    from pypfopt import plotting
    from .c32 import plt_
    rec.lib = True
    plt = plt_()
    n, tick = case["n"], case["tick"]
    S = gen.build_cov(case["cov"])
    if case["kind"] == "dendrogram":
        R = gen.build_returns(case["ret"])
        if min(R.std(axis=0)) < 1e-6 or np.isnan(np.corrcoef(R.T)).any():
            raise Skip("constant returns")
        h = pypfopt.HRPOpt(pd.DataFrame(R, columns=list(tick)))
        if case["opt"]:
            h.optimize()
        got, _, e = listen(plotting.plot_dendrogram, h)
        if e is not None:
            raise e
        expect(got, set() if case["opt"] else {"dendrogram"}, "plot_dendrogram(%s)" % ("optimised" if case["opt"] else "not optimised"))
        got, _, e = listen(plotting.plot_dendrogram, h)
        expect(got, set(), "second plot_dendrogram")
        rec.label("dendrogram", "optimised" if case["opt"] else "not optimised")
        rec.nt(not case["opt"])
        plt.close("all")
        return
    mu = gen.mu_of(case)
    ef = pypfopt.EfficientFrontier(gen.as_mu(mu, "series", tick), gen.as_cov(S, "df", tick))
    g = pypfopt.EfficientFrontier(gen.as_mu(mu, "series", tick), gen.as_cov(S, "df", tick))
    g.min_volatility()
    low = float(np.sqrt(g.weights @ S @ g.weights))
    free = 1 / math.sqrt(np.linalg.inv(S).sum())        # what the code compares with
    if case["param"] == "risk":
        rng = [low * f for f in case["f"]]
        bad = [r < free * (1 - 1e-6) for r in rng]
        edge = [free * (1 - 1e-6) <= r <= low * (1 + 1e-3) for r in rng]
    elif case["param"] == "return":
        rng = [float(max(mu)) * f for f in case["f"]]
        bad = [r > max(mu) * (1 + 1e-6) for r in rng]
        edge = [False] * len(rng)
    else:
        rng = [float(f) for f in case["f"]]
        bad = edge = [False] * len(rng)
    got, _, e = listen(plotting.plot_efficient_frontier, ef, ef_param=case["param"], ef_param_range=np.array(rng), show_assets=False)
    plt.close("all")
    if e is not None:
        raise e
    c = got.pop("point", 0)
    if not sum(bad) <= c <= sum(bad) + sum(edge):
        raise Violation("plot_efficient_frontier(%s, %s): %d warnings for %d unreachable values" % (case["param"], rng, c, sum(bad)))
    expect(got, set(), "plot_efficient_frontier(%s)" % case["param"], ("point",))
    rec.label(case["param"], "unreachable" if any(bad) else "reachable")
    rec.nt(any(bad))
