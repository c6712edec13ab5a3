import os, random, shutil, tempfile, warnings
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import gen

PROP = Prop("C30", "A table of entry points (constructors, methods and functions of every module); each case draws a universe of 2-6 assets, one entry, one documented-invalid argument with its magnitude "
            "(from 1e-9 outside the valid range upwards), checks the exception type and that weights already held are untouched, then makes the same call with a drawn valid argument, "
            "including the last valid value before the limit. Non-trivial: the invalid call was refused and the valid one returned.",
            ["where the documentation names no type, any of the types the library uses for that kind of error is accepted", "integer targets (which efficient_return refuses) are not generated"])

ENTRIES = {}


def entry(f):
    ENTRIES[f.__name__] = f
    return f


class U:
    def __init__(self, case):
        self.case = case
        n = self.n = case["n"]
        self.tick = list(case["tick"])
        self.eps = case["eps"]
        self.muv = np.array(case["mu"]) / 1000.0 + 0.05 + np.arange(n) * 1.0371e-3
        self.muv = np.abs(self.muv) + 0.01
        self.mu = pd.Series(self.muv, index=self.tick)
        self.Sv = gen.build_cov(case["cov"])
        self.S = pd.DataFrame(self.Sv, index=self.tick, columns=self.tick)
        R = gen.build_returns(case["ret"]) + np.outer(np.arange(case["ret"]["T"]) % 3 - 1, 1 + np.arange(n)) * 1e-3
        self.R = pd.DataFrame(R, columns=self.tick)
        self.P = (1 + self.R.clip(-0.5, 1)).cumprod() * 10
        self.w = {t: 1.0 / n for t in self.tick}
        self.prices = pd.Series(np.arange(1, n + 1) * 7.5, index=self.tick)

    def ef(self, **kw):
        import pypfopt
        return pypfopt.EfficientFrontier(self.mu, self.S, **kw)

    def cls(self, k):
        from pypfopt.efficient_frontier import EfficientCDaR, EfficientCVaR, EfficientSemivariance
        return dict(SV=EfficientSemivariance, CVAR=EfficientCVaR, CDAR=EfficientCDaR)[k]

    def pick(self, *opts):
        return opts[self.case["alt"] % len(opts)]


TV = (TypeError, ValueError)


def fails():
    from pypfopt import exceptions
    return (ValueError, TypeError, exceptions.OptimizationError)


# ---- constructors

@entry
def ef_init(u):
    import pypfopt
    n = u.n
    base = dict(expected_returns=u.mu, cov_matrix=u.S)
    big = np.eye(n + 1)
    bad = [(k, dict(base, **v), e) for k, v, e in [
        ("mu str", dict(expected_returns="test"), TypeError), ("mu dict", dict(expected_returns=dict(u.mu)), TypeError), ("mu tuple", dict(expected_returns=tuple(u.muv)), TypeError),
        ("mu number", dict(expected_returns=0.1), TypeError), ("cov None", dict(cov_matrix=None), ValueError), ("cov list", dict(cov_matrix=u.Sv.tolist()), TypeError),
        ("cov str", dict(cov_matrix="string"), TypeError), ("cov series", dict(cov_matrix=u.mu), TypeError), ("cov too big", dict(cov_matrix=big), ValueError),
        ("cov too big df", dict(cov_matrix=pd.DataFrame(big)), ValueError), ("mu too short", dict(expected_returns=u.mu.iloc[:-1]), ValueError), ("mu too long", dict(expected_returns=list(u.muv) + [0.1]), ValueError),
        ("cov not square", dict(cov_matrix=u.Sv[:, :-1]), ValueError)]]
    good = [base, dict(base, expected_returns=list(u.muv)), dict(base, expected_returns=u.muv), dict(base, cov_matrix=u.Sv), dict(base, expected_returns=None)]
    return lambda **k: pypfopt.EfficientFrontier(**k).min_volatility(), bad, good


def returns_init(kind):
    def f(u):
        c = u.cls(kind)
        meth = dict(SV="min_semivariance", CVAR="min_cvar", CDAR="min_cdar")[kind]
        base = dict(expected_returns=u.mu, returns=u.R)
        ta = (TypeError, AttributeError)
        bad = [(k, dict(base, **v), e) for k, v, e in [
            ("returns list", dict(returns=u.R.values.tolist()), ta), ("returns None", dict(returns=None), ta), ("returns str", dict(returns="x"), ta), ("returns dict", dict(returns={}), ta),
            ("mu str", dict(expected_returns="test"), TypeError), ("mu dict", dict(expected_returns=dict(u.mu)), TypeError), ("mu number", dict(expected_returns=3.0), TypeError),
            ("columns missing", dict(returns=u.R.iloc[:, :-1]), ValueError), ("columns extra", dict(returns=np.hstack([u.R.values, u.R.values[:, :1]])), ValueError),
            ("mu too short", dict(expected_returns=u.mu.iloc[:-1]), ValueError), ("mu too long", dict(expected_returns=list(u.muv) + [0.2]), ValueError)]]
        good = [base, dict(base, returns=u.R.values), dict(base, expected_returns=list(u.muv)), dict(base, expected_returns=None)]
        if kind != "SV":
            for b in (1, 1.0, 1 + u.eps, -u.eps, -0.05, -0.5, -1, 2, 95):
                bad.append(("beta %r" % b, dict(base, beta=b), ValueError))
            good += [dict(base, beta=b) for b in (0, 0.0, 0.5, 0.9, 1 - 1e-3)]
        return lambda **k: getattr(c(**k), meth)(), bad, good
    return f


for _k in ("SV", "CVAR", "CDAR"):
    ENTRIES["init_" + _k] = returns_init(_k)


@entry
def bounds(u):
    n = u.n
    two = [(0, 1)]
    bad = [("three", (0.0, 1, 3), TypeError), ("one", (0,), TypeError), ("too few", two * (n - 1) if n != 3 else two * 4, TypeError), ("too many", two * (n + 1), TypeError),
           ("number", 0.5, TypeError), ("string", "01", TypeError), ("array pair", np.array([0, 1]), TypeError if n != 2 else None), ("None", None, TypeError), ("set", {0, 1}, TypeError)]
    bad = [(a, dict(weight_bounds=b), e) for a, b, e in bad if e is not None]
    good = [dict(weight_bounds=b) for b in ((0, 1), [0, 1], (None, None), [(0, 1)] * n, tuple([(0, 1)] * n), np.array([[0, 1]] * n), (-1, 1))]
    if n != 2:
        good.append(dict(weight_bounds=(np.zeros(n), np.ones(n))))
    kind = u.pick("EF", "SV", "CVAR", "CDAR")
    if kind == "EF":
        return lambda **k: u.ef(**k).min_volatility(), bad, good
    return lambda **k: getattr(u.cls(kind)(u.mu, u.R, **k), dict(SV="min_semivariance", CVAR="min_cvar", CDAR="min_cdar")[kind])(), bad, good


@entry
def add_constraint(u):
    import cvxpy as cp
    o = u.ef()
    w = cp.Variable(u.n)
    bad = [(str(type(c)), dict(c=c), TypeError) for c in (42, "w >= 0.1", None, [lambda w: w >= 0], w >= 0, {"type": "eq"}, 0.5)]
    good = [dict(c=lambda w: w >= 0), dict(c=lambda w: cp.sum(w) <= 1)]
    return lambda c: (o.add_constraint(c), o.min_volatility())[1], bad, good


@entry
def nonconvex(u):
    """Objectives and constraints that are not convex are refused."""
    import cvxpy as cp
    from pypfopt import exceptions, objective_functions as of
    E = exceptions.OptimizationError
    k = 1.0 + u.eps

    def call(con=None, obj=None, cust=None):
        o = u.ef()
        if con:
            o.add_constraint(con)
        if obj:
            o.add_objective(obj)
        if cust:
            return o.convex_objective(cust)
        return o.min_volatility()
    bad = [("nonconvex constraint", dict(con=lambda w: cp.sum_squares(w) >= 0.01), E), ("abs sum", dict(con=lambda w: cp.norm(w, 1) >= 0.5), E),
           ("quotient", dict(con=lambda w: w[0] / cp.sum(w[1:]) <= k), E), ("concave objective", dict(obj=lambda w: -k * 100 * cp.sum_squares(w)), E), ("custom concave", dict(cust=lambda w: -cp.sum_squares(w)), E),
           ("product", dict(cust=lambda w: w[0] * w[1]), E), ("sqrt", dict(cust=lambda w: cp.sqrt(cp.sum(w))), E)]
    good = [dict(con=lambda w: cp.sum_squares(w) <= 1), dict(obj=lambda w: k * cp.sum_squares(w)), dict(cust=lambda w: cp.sum_squares(w)), dict(cust=lambda w: cp.norm(w, 1))]
    return call, bad, good


@entry
def solver_names(u):
    import cvxpy as cp
    from pypfopt import exceptions
    E = (cp.error.SolverError, exceptions.InstantiationError, exceptions.OptimizationError, ValueError)
    which = u.pick("convex", "scipy", "lp")
    if which == "convex":
        return lambda s: u.ef(solver=s).min_volatility(), [(s, dict(s=s), E) for s in ("ABCDEF", "clarabell", "")], [dict(s=s) for s in ("CLARABEL", "OSQP", "ECOS", None)]
    if which == "scipy":
        return lambda s: u.ef().nonconvex_objective(lambda w, _: w @ w, solver=s), [(s, dict(s=s), E) for s in ("ABCDEF", "SLSQP2")], [dict(s="SLSQP")]
    import pypfopt
    return (lambda s: pypfopt.DiscreteAllocation(u.w, u.prices, total_portfolio_value=100).lp_portfolio(solver=s), [(s, dict(s=s), E) for s in ("ABCDEF", "ECOS_BB2")],
            [dict(s="ECOS_BB"), dict(s="SCIPY")])


# ---- optimisation arguments

def held(u, kind, method, arg, bads, goods, neutral=None):
    """A method of an object which already holds weights (or not), set or from the same method; `neutral`
    gives valid values with market_neutral=True, for which the wrong types and signs are refused as well."""
    from pypfopt import exceptions
    import cvxpy as cp

    def f():
        return u.ef() if kind == "EF" else u.cls(kind)(u.mu, u.R)
    o = f()
    extra = {}
    if neutral and u.case["alt"] % 3 == 0:
        extra["market_neutral"] = True
        bads, goods = [(v, e) for v, e in bads if not isinstance(v, (int, float)) or v <= 0 or method == "max_quadratic_utility"], neutral
    if u.case["held"] and kind in ("EF", "SV"):
        o.set_weights({t: (i + 1.0) / (u.n * (u.n + 1) / 2) for i, t in enumerate(u.tick)})
    if u.case.get("solved") and method != "max_sharpe":
        try:
            getattr(o, method)(**{arg: goods[(u.case["good"] + 1) % len(goods)]}, **extra)
        except (exceptions.OptimizationError, cp.error.SolverError):
            raise Skip("first call failed")
    before = None if o.weights is None else np.array(o.weights)

    def call(v):
        try:
            return getattr(o, method)(**{arg: v}, **extra)
        finally:
            after = o.weights
            call.changed = not ((after is None and before is None) or (after is not None and before is not None and np.array_equal(after, before)))
    call.stateful = True
    return call, [(repr(v), dict(v=v), e) for v, e in bads], [dict(v=v) for v in goods]


@entry
def ef_max_sharpe(u):
    top = float(u.muv.max())
    return held(u, "EF", "max_sharpe", "risk_free_rate", [("0.02", ValueError), (None, ValueError), ([0.02], ValueError), (top, ValueError), (top + u.eps, ValueError), (top + 1, ValueError), (10, ValueError)],
                [0.0, 0, -0.01, top - 5e-3, 0.5 * top])


@entry
def ef_utility(u):
    return held(u, "EF", "max_quadratic_utility", "risk_aversion", [(0, ValueError), (0.0, ValueError), (-u.eps, ValueError), (-1, ValueError), (-5.0, ValueError)], [1, 0.01, 100, 1e-3], neutral=[1, 0.01, 100])


@entry
def sv_utility(u):
    return held(u, "SV", "max_quadratic_utility", "risk_aversion", [(0, ValueError), (0.0, ValueError), (-u.eps, ValueError), (-1, ValueError), (-5.0, ValueError)], [1, 0.01, 100, 1e-2], neutral=[1, 0.1, 100])


@entry
def ef_risk(u):
    from pypfopt import EfficientFrontier
    o = u.ef(solver="CLARABEL")
    o.min_volatility()
    lo = o.portfolio_performance()[1]
    top = float(np.sqrt(np.diag(u.Sv).max()))
    return held(u, "EF", "efficient_risk", "target_volatility", [("0.2", ValueError), (None, ValueError), ([0.2], ValueError), (-u.eps, ValueError), (-1, ValueError), (-0.2, ValueError), (lo * 0.9, fails())],
                [top * 1.001, lo * 1.05, 3, 0.999 * top + 0.001 * 2], neutral=[top, lo, 0.5 * lo])


@entry
def ef_return(u):
    top = float(u.muv.max())
    return held(u, "EF", "efficient_return", "target_return", [("0.1", ValueError), (None, ValueError), ([0.1], ValueError), (top + 1e-3 + u.eps, ValueError), (top * 2, ValueError), (float(top + 1), ValueError)],
                [0.0, top * 0.9, top - 1e-3, float(u.muv.min())], neutral=[0.0])


@entry
def sv_return(u):
    top = float(u.muv.max())
    return held(u, "SV", "efficient_return", "target_return", [("0.1", ValueError), (None, ValueError), ([0.1], ValueError), (-u.eps, ValueError), (-0.1, ValueError), (top + 1e-3 + u.eps, ValueError), (top * 2, ValueError)],
                [0.0, top * 0.9, top - 1e-3, float(u.muv.min())], neutral=[0.0])


@entry
def tail_return(u):
    top = float(u.muv.max())
    k = u.pick("CVAR", "CDAR")
    return held(u, k, "efficient_return", "target_return", [("abc", fails()), (top + 1e-2 + u.eps, fails()), (top * 2, fails())], [0.0, top * 0.9, top - 1e-3])


@entry
def unavailable(u):
    """Methods a class does not offer."""
    import pypfopt
    ops = {"SV": ["min_volatility", "max_sharpe"], "CVAR": ["min_volatility", "max_sharpe", "max_quadratic_utility", "set_weights"],
           "CDAR": ["min_volatility", "max_sharpe", "max_quadratic_utility", "set_weights"], "CLA": ["set_weights"]}
    k = u.pick(*ops)
    mk = lambda: pypfopt.CLA(u.mu, u.S) if k == "CLA" else u.cls(k)(u.mu, u.R)
    good = dict(SV="min_semivariance", CVAR="min_cvar", CDAR="min_cdar", CLA="min_volatility")[k]
    return (lambda m: getattr(mk(), m)(u.w) if m == "set_weights" else getattr(mk(), m)(), [(k + "." + m, dict(m=m), NotImplementedError) for m in ops[k]], [dict(m=good)])


@entry
def no_weights(u):
    """portfolio_performance before weights exist."""
    import pypfopt
    k = u.pick("EF", "SV", "BL", "HRP", "CLA")
    mk = dict(EF=u.ef, SV=lambda: u.cls("SV")(u.mu, u.R), BL=lambda: pypfopt.BlackLittermanModel(u.S, pi=u.mu, absolute_views={u.tick[0]: 0.1}), HRP=lambda: pypfopt.HRPOpt(u.R),
              CLA=lambda: pypfopt.CLA(u.mu, u.S))[k]
    go = dict(EF="min_volatility", SV="min_semivariance", BL="bl_weights", HRP="optimize", CLA="min_volatility")[k]

    def call(first):
        o = mk()
        if first:
            getattr(o, go)()
        return o.portfolio_performance()
    return call, [(k, dict(first=False), ValueError)], [dict(first=True)]


@entry
def performance_function(u):
    from pypfopt.base_optimizer import portfolio_performance as pp
    z = {t: 0.0 for t in u.tick}
    bad = [("None", dict(weights=None), ValueError), ("no such tickers", dict(weights={"?1": 0.5, "?2": 0.5}), ValueError), ("zero", dict(weights=z), ValueError), ("empty", dict(weights={}), ValueError)]
    good = [dict(weights=u.w), dict(weights={u.tick[0]: 1.0}), dict(weights=list(u.w.values())), dict(weights=np.array(list(u.w.values())))]
    return lambda weights: pp(weights, u.mu, u.S), bad, good


# ---- CLA, HRP

@entry
def cla_init(u):
    import pypfopt
    base = dict(expected_returns=u.mu, cov_matrix=u.S)
    bad = [("mu str", dict(base, expected_returns="test"), TypeError), ("mu dict", dict(base, expected_returns=dict(u.mu)), TypeError), ("mu number", dict(base, expected_returns=0.1), TypeError),
           ("cov str", dict(base, cov_matrix="string"), TypeError), ("cov None", dict(base, cov_matrix=None), TypeError), ("cov series", dict(base, cov_matrix=u.mu), TypeError)]
    good = [base, dict(base, expected_returns=list(u.muv)), dict(base, expected_returns=u.muv, cov_matrix=u.Sv)]
    return lambda **k: pypfopt.CLA(**k).min_volatility(), bad, good


@entry
def hrp_init(u):
    import pypfopt
    bad = [("nothing", dict(), ValueError), ("both None", dict(returns=None, cov_matrix=None), ValueError), ("array", dict(returns=u.R.values), TypeError), ("list", dict(returns=u.R.values.tolist()), TypeError),
           ("dict", dict(returns={}), TypeError), ("series", dict(returns=u.mu), TypeError)]
    good = [dict(returns=u.R), dict(cov_matrix=u.S), dict(returns=u.R, cov_matrix=u.S)]
    return lambda **k: pypfopt.HRPOpt(**k).optimize(), bad, good


@entry
def hrp_linkage(u):
    import pypfopt
    o = pypfopt.HRPOpt(u.R) if u.case["held"] else pypfopt.HRPOpt(cov_matrix=u.S)
    return (lambda m: o.optimize(linkage_method=m), [(repr(m), dict(m=m), ValueError) for m in ("blah", "", "Single", "SINGLE", "wards", "sing le", None, "k-means")],
            [dict(m=m) for m in ("single", "complete", "average", "weighted", "centroid", "median", "ward")])


# ---- Black-Litterman

@entry
def bl_views(u):
    import pypfopt
    n, t = u.n, u.tick
    Q, P = np.full(n, 0.05), np.eye(n)
    AE = (AssertionError, ValueError)
    mixed = list(t[:1 + u.case["alt"] % n])
    mixed.insert(u.case["alt"] % (len(mixed) + 1), "?fail")
    bad = [("views list", dict(absolute_views=[0.1] * n), TypeError), ("views array", dict(absolute_views=np.full(n, 0.1)), TypeError), ("views number", dict(absolute_views=0.1), TypeError),
           ("unknown ticker", dict(absolute_views={k: 0.1 for k in mixed}), ValueError), ("unknown ticker series", dict(absolute_views=pd.Series(0.1, index=mixed)), ValueError), ("only unknown", dict(absolute_views=pd.Series([0.1], index=["?x"])), ValueError),
           ("nothing", dict(), TypeError), ("Q list", dict(Q=[0.1] * n, P=P), TypeError), ("Q number", dict(Q=0.1, P=P), TypeError), ("P number", dict(Q=Q[:-1], P=1.0), TypeError), ("P list", dict(Q=Q, P=P.tolist()), TypeError),
           ("P too narrow", dict(Q=Q, P=P[:, :-1]), AE), ("P too short", dict(Q=Q, P=P[:-1]), AE), ("P missing", dict(Q=Q[:-1]), (TypeError, AssertionError, ValueError)), ("Q too short", dict(Q=Q[:-1], P=P), AE)]
    good = [dict(absolute_views={t[0]: 0.1}), dict(absolute_views=pd.Series([0.1], index=[t[-1]])), dict(Q=Q, P=P), dict(Q=Q), dict(Q=Q[:1], P=P[:1]), dict(Q=pd.Series(Q, index=t)), dict(Q=Q, P=pd.DataFrame(P))]
    return lambda **k: pypfopt.BlackLittermanModel(u.S, pi=u.mu, **k).bl_returns(), bad, good


@entry
def bl_params(u):
    import pypfopt
    n, t, e = u.n, u.tick, u.eps
    V = ValueError
    bad = [("tau 0", dict(tau=0), V), ("tau<0", dict(tau=-e), V), ("tau -1", dict(tau=-1), V), ("tau>1", dict(tau=1 + max(e, 1e-9)), V), ("tau 2", dict(tau=2), V),
           ("delta 0", dict(risk_aversion=0), V), ("delta<0", dict(risk_aversion=-e), V), ("delta -2.5", dict(risk_aversion=-2.5), V)]
    good = [dict(tau=1), dict(tau=1.0), dict(tau=1e-6), dict(tau=0.05), dict(risk_aversion=1e-6), dict(risk_aversion=30)]
    return lambda **k: pypfopt.BlackLittermanModel(u.S, pi=u.mu, absolute_views={t[0]: 0.1}, **k).bl_returns(), bad, good


@entry
def bl_pi(u):
    import pypfopt
    n, t = u.n, u.tick
    AE = (AssertionError, ValueError)
    bad = [("market without caps", dict(pi="market"), ValueError), ("list", dict(pi=[0.1] * n), TypeError), ("unknown name", dict(pi="implied"), TypeError), ("number", dict(pi=0.1), TypeError), ("dict", dict(pi=dict(u.mu)), TypeError),
           ("too short", dict(pi=u.mu.iloc[:-1]), AE), ("too long", dict(pi=np.full(n + 1, 0.1)), AE)]
    caps = {x: 1e9 * (i + 1) for i, x in enumerate(t)}
    good = [dict(pi="market", market_caps=caps), dict(pi="equal"), dict(pi=u.mu), dict(pi=u.muv), dict(pi=u.muv.reshape(-1, 1)), dict(pi="market", market_caps=pd.Series(caps))]
    return lambda **k: pypfopt.BlackLittermanModel(u.S, absolute_views={t[0]: 0.1}, **k).bl_returns(), bad, good


@entry
def bl_omega(u):
    import pypfopt
    t, e = u.tick, u.eps
    AE, V = (AssertionError, ValueError), ValueError
    views = {x: 0.02 * (i + 1) for i, x in enumerate(t[:2])}
    more = {x: 0.02 * (i + 1) for i, x in enumerate(t)}
    n, alt = u.n, u.case["alt"]

    def at(v):      # one confidence out of range among the views of all assets
        f = [(0.5, 0.2, 0.9, 1.0, 0.0, 0.7)[i % 6] for i in range(n)]
        f[alt % n] = v
        return dict(I(*f), absolute_views=more)
    c = lambda *v: u.pick(list(v), np.array(v), pd.Series(v))
    I = lambda *v: dict(omega="idzorek", view_confidences=c(*v))
    bad = [("number", dict(omega=1.0), TypeError), ("list", dict(omega=[[0.1, 0], [0, 0.1]]), TypeError), ("name", dict(omega="idzorekk"), TypeError), ("shape", dict(omega=np.eye(3)), AE), ("shape df", dict(omega=pd.DataFrame(np.eye(1))), AE),
           ("idzorek without confidences", dict(omega="idzorek"), V), ("too many", I(0.2, 0.3, 0.4), V), ("too few", I(0.2), V), ("below 0", I(0.5, -e), V), ("above 1", I(1 + max(e, 1e-9), 0.5), V), ("percent", I(50, 60), V), ("one below 0", at(-e), V), ("one above 1", at(1 + max(e, 1e-9)), V), ("one in percent", at(70.0), V)]
    good = [dict(), dict(omega="default"), dict(omega=np.eye(2) * 0.01), I(0.5, 0.5), I(0.0001, 1.0), I(0.0, 0.3), at(0.5), at(1.0), at(0)]
    return lambda **k: pypfopt.BlackLittermanModel(u.S, pi=u.mu, **dict(dict(absolute_views=views), **k)).bl_returns(), bad, good


@entry
def implied(u):
    from pypfopt import black_litterman as bl
    p = u.P.iloc[:, 0]
    good = [dict(p=p), dict(p=p.to_frame())]
    return lambda p: bl.market_implied_risk_aversion(p), [(k, dict(p=v), TypeError) for k, v in (("list", p.tolist()), ("array", p.values), ("dict", {}), ("number", 100.0), ("None", None))], good


# ---- discrete allocation

@entry
def da_init(u):
    import pypfopt
    t, e = u.tick, u.eps
    base = dict(weights=u.w, latest_prices=u.prices, total_portfolio_value=1000)
    nanw, nanp = dict(u.w), u.prices.copy()
    nanw[t[u.case["alt"] % u.n]] = float("nan")
    nanp.iloc[u.case["alt"] % u.n] = np.nan
    bad = [(k, dict(base, **v), x) for k, v, x in [
        ("weights list", dict(weights=list(u.w.values())), TypeError), ("weights series", dict(weights=pd.Series(u.w)), TypeError), ("weights array", dict(weights=np.array(list(u.w.values()))), TypeError),
        ("weights None", dict(weights=None), TypeError), ("NaN weight", dict(weights=nanw), ValueError), ("prices list", dict(latest_prices=u.prices.tolist()), TypeError), ("prices array", dict(latest_prices=u.prices.values), TypeError),
        ("prices dict", dict(latest_prices=dict(u.prices)), TypeError), ("prices None", dict(latest_prices=None), TypeError), ("NaN price", dict(latest_prices=nanp), TypeError), ("prices frame", dict(latest_prices=u.prices.to_frame()), (TypeError, ValueError)),
        ("value 0", dict(total_portfolio_value=0), ValueError), ("value<0", dict(total_portfolio_value=-e), ValueError), ("value -10000", dict(total_portfolio_value=-10000), ValueError),
        ("ratio<0", dict(short_ratio=-e), ValueError), ("ratio -0.3", dict(short_ratio=-0.3), ValueError)]]
    sh = dict(u.w)
    sh[t[0]] = -0.3
    good = [base, dict(base, total_portfolio_value=0.01), dict(base, short_ratio=0), dict(base, short_ratio=0.3), dict(base, weights=sh, short_ratio=0), dict(base, weights=sh, short_ratio=1e-6), dict(base, short_ratio=None)]
    return lambda **k: pypfopt.DiscreteAllocation(**k).greedy_portfolio(), bad, good


@entry
def latest_prices(u):
    from pypfopt.discrete_allocation import get_latest_prices
    return lambda p: get_latest_prices(p), [(str(type(v)), dict(p=v), TypeError) for v in (u.P.values, u.P.values.tolist(), u.P.iloc[:, 0], None, {"a": [1]})], [dict(p=u.P)]


# ---- estimators

@entry
def return_model(u):
    from pypfopt import expected_returns as er
    return lambda m: er.return_model(u.P, method=m), [(repr(m), dict(m=m), NotImplementedError) for m in ("fancy_new!", "", "Mean_historical_return", "mean", "ema", "capm", "james_stein")], [
        dict(m=m) for m in ("mean_historical_return", "ema_historical_return", "capm_return")]


@entry
def risk_matrix(u):
    from pypfopt import risk_models as rm
    return lambda m: rm.risk_matrix(u.P, method=m), [(repr(m), dict(m=m), NotImplementedError) for m in ("fancy_new!", "", "Sample_cov", "sample", "ledoit_wolf_", "ledoit_wolf_identity", "oas", "shrunk_covariance")], [
        dict(m=m) for m in ("sample_cov", "semicovariance", "semivariance", "exp_cov", "ledoit_wolf", "ledoit_wolf_constant_variance", "ledoit_wolf_single_factor", "ledoit_wolf_constant_correlation", "oracle_approximating")]


@entry
def fix_psd(u):
    from pypfopt import risk_models as rm
    A = u.Sv.copy()
    A[0, 0] = -0.01 - u.eps
    M = u.pick(A, pd.DataFrame(A, index=u.tick, columns=u.tick))
    return lambda m: rm.fix_nonpositive_semidefinite(M, fix_method=m), [(repr(m), dict(m=m), NotImplementedError) for m in ("blah", "", "Spectral", "diagonal", "eig")], [dict(m="spectral"), dict(m="diag")]


@entry
def shrinkage(u):
    from pypfopt.risk_models import CovarianceShrinkage
    o = CovarianceShrinkage(u.P)
    return lambda m: o.ledoit_wolf(shrinkage_target=m), [(repr(m), dict(m=m), NotImplementedError) for m in ("blah", "", "identity", "Constant_variance", "constant", "single")], [
        dict(m=m) for m in ("constant_variance", "single_factor", "constant_correlation")]


# ---- files and plots

@entry
def save(u):
    o = u.ef()
    o.set_weights(u.w)
    tmp = tempfile.mkdtemp(prefix="verif_c30_")

    def call(name):
        try:
            o.save_weights_to_file(os.path.join(tmp, name))
            return True
        finally:
            call.left = os.listdir(tmp)
            for f in call.left:
                os.remove(os.path.join(tmp, f))
    call.cleanup = lambda: shutil.rmtree(tmp)
    return call, [(x, dict(name=x), NotImplementedError) for x in ("w.xml", "w", "w.csv.gz", "w.xlsx", "w.")], [dict(name=x) for x in ("w.csv", "w.json", "w.txt", "W.TXT")]


@entry
def rounding(u):
    o = u.ef()
    o.set_weights(u.w)
    return lambda r: o.clean_weights(rounding=r), [(repr(r), dict(r=r), ValueError) for r in (0, -1, 1.3, "2", 5.0, [3])], [dict(r=r) for r in (1, 5, 16, None)]


@entry
def plot_args(u):
    import matplotlib
    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    import pypfopt
    from pypfopt import plotting

    def call(obj="EF", **kw):
        o = dict(EF=u.ef, CLA=lambda: pypfopt.CLA(u.mu, u.S), HRP=lambda: pypfopt.HRPOpt(u.R), SV=lambda: u.cls("SV")(u.mu, u.R), cov=lambda: u.S, none=lambda: None)[obj]()
        fig, ax = plt.subplots()
        try:
            return plotting.plot_efficient_frontier(o, ax=ax, points=6, showfig=False, **kw)
        finally:
            plt.close("all")
    N = NotImplementedError
    bad = [(o, dict(obj=o), N) for o in ("HRP", "cov", "none")] + [(repr(p), dict(ef_param=p), N) for p in ("blah", "volatility", "Return")]
    bad = [(a, dict(b, **({"ef_param_range": [0.05, 0.06]} if "ef_param" in b else {})), c) for a, b, c in bad]
    good = [dict(), dict(obj="CLA"), dict(ef_param="utility", ef_param_range=[1, 2, 5]), dict(ef_param="risk", ef_param_range=[1e-4, 0.9])]
    return call, bad, good


@st.composite
def g(draw, names=None):
    n = draw(st.integers(2, 6))
    # entry, argument and magnitude uniformly, independently of Hypothesis' own mutations
    pick = random.Random(draw(st.integers(0, 2**40)))
    return dict(n=n, entry=pick.choice(names or sorted(set(ENTRIES) - {"plot_args"})), tick=draw(gen.tickers(n)), mu=[abs(x) for x in gen.mu_ints(draw, n)], cov=draw(gen.cov_case(n, ("pd", "diag", "factor"))),
                ret=draw(gen.returns_case(n, 6, 10)), eps=pick.choice([1e-9, 1e-6, 1e-3, 0.01, 0.5, 3.0]), bad=pick.randrange(5040), good=pick.randrange(5040), alt=pick.randrange(12),
                held=pick.random() < 0.5, solved=pick.random() < 0.5)


@PROP.sub("arguments", g(), quick=9000)
def arguments(case, rec):
    rec.lib = True
    import cvxpy as cp
    from pypfopt import exceptions
    u = U(case)
    call, bad, good = ENTRIES[case["entry"]](u)
    label, kw, exc = bad[case["bad"] % len(bad)]
    gk = good[case["good"] % len(good)]
    exc = exc if isinstance(exc, tuple) else (exc,)
    what = "%s with invalid argument (%s)" % (case["entry"], label)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                r = call(**kw)
            except exc:
                pass
            except Exception as e:
                raise Violation("%s raised %r, expected %s" % (what, e, "/".join(x.__name__ for x in exc)))
            else:
                raise Violation("%s was accepted and gave %r" % (what, r))
            if getattr(call, "changed", False):
                raise Violation("%s: refused, but the weights held changed" % what)
            if getattr(call, "left", None):
                raise Violation("%s: refused, but wrote %r" % (what, call.left))
            try:
                r = call(**gk)
            except (exceptions.OptimizationError, cp.error.SolverError) as e:
                txt = str(e)
                if "infeasible" in txt and "inaccurate" not in txt:
                    raise Violation("%s: then the valid argument %s was refused: %r" % (what, show(gk), e))
                raise Skip("solver gave up")
            except Exception as e:
                raise Violation("%s: then the valid argument %s was refused: %r" % (what, show(gk), e))
            if r is None:
                raise Violation("%s: the valid argument %s gave no result" % (what, show(gk)))
    finally:
        getattr(call, "cleanup", lambda: None)()
    rec.label(case["entry"], label)
    rec.nt(True)


@PROP.sub("plots", g(["plot_args"]), quick=60, thorough=600)
def plots(case, rec):
    arguments(case, rec)


def show(k):
    return ", ".join("%s=%s" % (a, repr(b) if isinstance(b, (int, float, str, type(None))) else type(b).__name__) for a, b in k.items())
