import copy
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import gen, opt, util
from . import c22

PROP = Prop("C11", "Every method of the four convex optimisers, CLA, Black-Litterman and HRP on 2-6 assets with shuffled, string or integer tickers; "
            "the same problem solved again with all inputs permuted by a generated permutation, with covariances or returns labelled otherwise than the expected returns, and with every data container "
            "(Series/list/array/column, DataFrame/array, bounds formats), number type (integers, single precision) and memory layout (read-only, Fortran order, strided). Also universes of 10-24 assets. Non-trivial: the permutation is not the identity (or the "
            "containers differ) and the weights are not all equal.",
            ["objective values are evaluated in the unpermuted problem from the weights matched by ticker, 1e-6 relative; per-ticker weights are "
             "compared (1e-4) when the objective is strictly convex",
             "HRPOpt: the clustering order depends on the order of the columns by design, so only keys and containers are checked"])


# ------------------------------------------------------------------ permuting a case

def p_(v, perm):
    return [v[i] for i in perm]


def permute(case, perm):
    c = copy.deepcopy(case)
    for k in ("tick", "mu", "w0"):
        c[k] = p_(c[k], perm)
    b = c["bounds"]
    b["lb"], b["ub"] = p_(b["lb"], perm), p_(b["ub"], perm)
    if "mask" in b:
        b["mask"] = p_(b["mask"], perm)
    pcov(c["cov"], perm)
    for x in c["cons"]:
        if "a" in x:
            x["a"] = p_(x["a"], perm)
        if "v" in x:
            x["v"] = p_(x["v"], perm)
        if "i" in x:
            x["i"] = perm.index(x["i"])
    if c.get("sector"):
        c["sector"]["map"] = p_(c["sector"]["map"], perm)
    if "ret" in c:
        pret(c["ret"], perm)
    for o in c.get("objs", []):
        for k in ("prev", "bench", "c", "v"):
            if k in o:
                o[k] = p_(o[k], perm)
        if "cov" in o:
            pcov(o["cov"], perm)
        if "ret" in o:
            pret(o["ret"], perm)
    return c


def pcov(c, perm):
    c["F"], c["sd"] = p_(c["F"], perm), p_(c["sd"], perm)
    if "cash" in c:
        c["cash"] = perm.index(c["cash"])


def pret(r, perm):
    r["R"] = [p_(x, perm) for x in r["R"]]
    r["drift"] = p_(r["drift"], perm)


@st.composite
def pcase(draw, nmin=2, nmax=6, T=(6, 14)):
    kind = draw(st.sampled_from(["EF", "EF", "EF", "SV", "CVAR", "CDAR"]))
    method = draw(st.sampled_from(opt.METHODS[kind]))
    # a strictly convex extra term makes the optimum unique where the measure alone does not
    objs = (1, 1) if kind != "EF" and draw(st.booleans()) and method != "max_sharpe" else (0, 0)
    case = draw(opt.opt_case(kind, method, nonlinear=True, cov_kinds=("pd", "pd", "factor", "diag"), objs=objs, obj_kinds=("l2", "sumsq"), nmin=nmin, nmax=nmax, T=T))
    case["perm"] = draw(st.permutations(list(range(case["n"]))))
    return case


def solve(case, rec):
    m = opt.Model(case)
    if not m.in_domain():
        raise Skip("outside the domain")
    o, res, feas_tol, tol = m.attempt(rec, 2e-6, 1e-6)
    w = util.weights(o, res, m.labels, m.name)
    return m, w, tol


def unique(m):
    return m.kind == "EF" and m.method in ("min_volatility", "max_quadratic_utility", "efficient_return") or bool(m.objs)


@PROP.sub("permute", pcase(), quick=1600)
def pm(case, rec):
    rec.lib = True
    perm = case["perm"]
    n = case["n"]
    m, w, t1 = solve(case, rec)
    m2, wp, t2 = solve(permute(case, perm), rec)
    back = np.empty(n)
    back[perm] = wp            # by ticker
    tol = max(t1, t2)
    what = "%s(%s) with the assets permuted by %s" % (m.name, m.par, perm)
    feas_tol = 2e-6 if tol <= 1e-6 else 1e-5
    try:
        util.feasible(m.F, back, feas_tol * max(1.0, np.abs(back).max()), what)
    except Violation:
        # a solve that misses its constraints altogether is C01's to report
        if not m.F.violation(w)[0] <= feas_tol * max(1.0, np.abs(w).max()):
            raise Skip("infeasible in both orders")
        raise
    if m.method == "max_sharpe":
        a, b = m.sharpe(w), m.sharpe(back)
        t = 2e-6 * max(1.0, abs(a)) * (tol / 1e-6)
    else:
        a, b = m.obj(w), m.obj(back)
        t = 2 * tol * max(m.obj_scale(w), m.obj_scale(back))
    if not abs(a - b) <= t:
        raise Violation("%s: objective %.10g becomes %.10g (weights %s and %s)" % (what, a, b, np.round(w, 6), np.round(back, 6)))
    if unique(m) and tol <= 1e-6:
        lam = np.linalg.eigvalsh(m.S)[0] / np.linalg.eigvalsh(m.S)[-1] if m.kind == "EF" else 1
        if lam > 1e-2 and not np.abs(w - back).max() <= 2e-3 * max(1.0, np.abs(w).max()):
            raise Violation("%s: weights per ticker %s become %s" % (what, np.round(w, 6), np.round(back, 6)))
        rec.label("unique")
    rec.label(m.name, "muc=" + case["muc"])
    rec.nt(perm != sorted(perm) and np.ptp(w) > 1e-3)


# ------------------------------------------------------------------ containers

@st.composite
def ccase(draw, **size):
    case = draw(pcase(**size))
    case["alt"] = [draw(st.sampled_from(gen.MU_CONT)), draw(st.sampled_from(["df", "nd"])), draw(st.sampled_from(["df", "nd"]))]
    b = case["bounds"]
    fm = ["list", "nd", "tuples"] + (["arrays", "lists"] if case["n"] != 2 else [])
    case["altb"] = draw(st.sampled_from(fm + ["same"])) if b["fmt"] not in ("listnone", "arraysnan", "nonepair") else "same"
    return case


@PROP.sub("containers", ccase(), quick=1000)
def ct(case, rec):
    rec.lib = True
    alt = copy.deepcopy(case)
    if case["muc"] != "none":
        alt["muc"] = case["alt"][0]
    if case["kind"] == "EF":
        alt["covc"] = case["alt"][1]
    else:
        alt["retc"] = case["alt"][2]
    if case["altb"] != "same":
        alt["bounds"]["fmt"] = case["altb"]
    m, w, t1 = solve(case, rec)
    m2, w2, t2 = solve(alt, rec)
    if max(t1, t2) > 1e-6:
        raise Skip("solver tolerance not reached")
    if not np.abs(w - w2).max() <= 1e-5 * max(1.0, np.abs(w).max()):
        raise Violation("%s: weights %s with %s, %s with %s" % (m.name, w, [case["muc"], case["covc"], case.get("retc"), case["bounds"]["fmt"]],
                                                               w2, [alt["muc"], alt["covc"], alt.get("retc"), alt["bounds"]["fmt"]]))
    rec.label(m.name, "mu %s/%s" % (case["muc"], alt["muc"]), "bounds %s/%s" % (case["bounds"]["fmt"], alt["bounds"]["fmt"]))
    rec.nt((alt["muc"], alt["covc"], alt.get("retc"), alt["bounds"]["fmt"]) != (case["muc"], case["covc"], case.get("retc"), case["bounds"]["fmt"])
           and np.ptp(w) > 1e-3)


# ------------------------------------------------------------------ labels of the expected returns against others

@st.composite
def lcase(draw):
    n = draw(st.integers(2, 12))
    return dict(n=n, tick=draw(gen.tickers(n)), mu=draw(st.lists(st.integers(10, 400), min_size=n, max_size=n, unique=True)), cov=draw(gen.cov_case(n, ("pd", "diag"))), ret=draw(gen.returns_case(n, 6, 12)),
                kind=draw(st.sampled_from(["EF", "EF", "CLA", "CLA", "SV", "CVAR", "CDAR"])), other=draw(st.sampled_from(["range", "names", "reversed", "shuffled"])), how=draw(st.booleans()),
                order=draw(st.permutations(list(range(n)))), noname=draw(st.booleans()))


@PROP.sub("labels", lcase(), quick=600)
def lb(case, rec):
    """The covariance or the returns carry labels of their own: the result is named by the expected returns, the data is positional as with arrays."""
    import pypfopt
    from pypfopt import EfficientCDaR, EfficientCVaR, EfficientFrontier, EfficientSemivariance
    rec.lib = True
    n, tick, kind = case["n"], list(case["tick"]), case["kind"]
    mu, S, R = np.array(case["mu"]) / 1000.0, gen.build_cov(case["cov"]), gen.build_returns(case["ret"])
    lab = dict(range=list(range(n)), names=["col%d" % i for i in range(n)], reversed=tick[::-1], shuffled=[tick[i] for i in case["order"]])[case["other"]]

    def make(m, frame):
        if kind in ("EF", "CLA"):
            C = pd.DataFrame(S.copy(), index=lab, columns=lab) if frame else S.copy()
            return pypfopt.CLA(m, C) if kind == "CLA" else EfficientFrontier(m, C, solver="CLARABEL")
        D = pd.DataFrame(R.copy(), columns=lab) if frame else R.copy()
        return dict(SV=EfficientSemivariance, CVAR=EfficientCVaR, CDAR=EfficientCDaR)[kind](m, D, solver="CLARABEL")

    def solve_(o):
        f = dict(EF=["min_volatility", "max_sharpe"], CLA=["min_volatility", "max_sharpe"], SV=["min_semivariance", "max_quadratic_utility"], CVAR=["min_cvar"] * 2, CDAR=["min_cdar"] * 2)[kind][case["how"]]
        k, r = util.call(getattr(o, f))
        if k == "err":
            raise Skip("no optimum")
        return r

    a = solve_(make(pd.Series(mu, index=tick), True))
    b = solve_(make(mu.copy(), False))
    if list(a) != tick:
        raise Violation("%s with expected returns labelled %s and data labelled %s names its weights %s" % (kind, tick, lab, list(a)))
    if list(b) != list(range(n)):
        raise Violation("%s with unlabelled data names its weights %s" % (kind, list(b)))
    x, y = np.array(list(a.values()), float), np.array(list(b.values()), float)
    if case["other"] in ("range", "names") and not np.abs(x - y).max() <= 1e-9:
        raise Violation("%s: weights %s with data labelled %s, %s with arrays" % (kind, x, lab, y))
    rec.label(kind, case["other"])
    rec.nt(lab != tick and np.ptp(x) > 1e-3)


# ------------------------------------------------------------------ CLA

@st.composite
def clacase(draw, nmin=2, nmax=7):
    n = draw(st.integers(nmin, nmax))
    w0 = draw(gen.feasible_point(n, draw(st.integers(0, 2)) == 0))
    return dict(n=n, tick=draw(gen.tickers(n)), mu=draw(st.lists(st.integers(-100, 400), min_size=n, max_size=n, unique=True)),
                cov=draw(gen.cov_case(n, ("pd", "factor", "diag"))), w0=w0, slack=[draw(st.sampled_from([0.05, 0.1, 0.3, 1.0])) for _ in range(n)],
                fmt=draw(st.sampled_from(["default", "list", "arrays"])), perm=draw(st.permutations(list(range(n)))),
                muc=draw(st.sampled_from(gen.MU_CONT)), covc=draw(st.sampled_from(["df", "nd"])), cons=[],
                alt=[draw(st.sampled_from(gen.MU_CONT)), draw(st.sampled_from(["df", "nd"]))],
                method=draw(st.sampled_from(["max_sharpe", "min_volatility"])))


def cla_run(case):
    import pypfopt
    tick = case["tick"]
    lb = [w - s for w, s in zip(case["w0"], case["slack"])]
    ub = [w + s for w, s in zip(case["w0"], case["slack"])]
    kw = {}
    if case["fmt"] == "list":
        kw["weight_bounds"] = list(zip(lb, ub))
    elif case["fmt"] == "arrays":
        kw["weight_bounds"] = (np.array(lb), np.array(ub)) if case["n"] != 2 else list(zip(lb, ub))
    mu, S = c22.data(case)
    c = pypfopt.CLA(gen.as_mu(mu, case["muc"], tick), gen.as_cov(S, case["covc"], tick), **kw)
    res = getattr(c, case["method"])()
    return gen.get_weights(res, list(tick) if case["muc"] == "series" else list(range(case["n"])), "CLA." + case["method"])


@PROP.sub("cla", clacase(), quick=700)
def cl(case, rec):
    rec.lib = True
    perm = case["perm"]
    w = cla_run(case)
    alt = dict(case, jit=perm, tick=p_(case["tick"], perm), mu=p_(case["mu"], perm), w0=p_(case["w0"], perm), slack=p_(case["slack"], perm),
               cov=copy.deepcopy(case["cov"]), muc=case["alt"][0], covc=case["alt"][1])
    pcov(alt["cov"], perm)
    wp = cla_run(alt)
    back = np.empty(case["n"])
    back[perm] = wp
    if not np.abs(w - back).max() <= 1e-5:
        raise Violation("CLA.%s: weights per ticker %s become %s when the assets are permuted by %s" % (case["method"], w, back, perm))
    rec.label(case["method"], case["fmt"])
    rec.nt(perm != sorted(perm) and np.ptp(w) > 1e-3)


# ------------------------------------------------------------------ Black-Litterman

@st.composite
def blcase(draw, nmin=2, nmax=6):
    n = draw(st.integers(nmin, nmax))
    k = draw(st.integers(1, n))
    return dict(n=n, tick=draw(gen.tickers(n)), mu=gen.mu_ints(draw, n), cov=draw(gen.cov_case(n, ("pd", "factor", "diag"))),
                idx=draw(st.permutations(list(range(n))))[:k], q=[x / 100.0 for x in gen.ints(draw, k, -20, 40)],
                caps=gen.ints(draw, n, 1, 90), pi=draw(st.sampled_from(["market", "series", "equal", "array"])),
                perm=draw(st.permutations(list(range(n)))), capord=draw(st.permutations(list(range(n)))),
                viewc=draw(st.sampled_from(["dict", "series"])), tau=draw(st.sampled_from([0.05, 0.3])),
                conf=[x / 10.0 for x in gen.ints(draw, k, 1, 10)] if draw(st.booleans()) else None)


def bl_run(case, order):
    """order: the order of the covariance labels."""
    import pypfopt
    S = gen.build_cov(case["cov"])[np.ix_(order, order)]
    tick = p_(case["tick"], order)
    mu = gen.mu_of(case)[order]
    views = {case["tick"][i]: q for i, q in zip(case["idx"], case["q"])}
    kw = dict(absolute_views=pd.Series(views) if case["viewc"] == "series" else views, tau=case["tau"], risk_aversion=2)
    if case["conf"]:
        kw.update(omega="idzorek", view_confidences=list(case["conf"]))
    if case["pi"] == "market":
        kw.update(pi="market", market_caps={case["tick"][i]: case["caps"][i] for i in case["capord"]}, risk_free_rate=0.02)
    elif case["pi"] == "series":
        kw.update(pi=pd.Series(mu, index=tick))
    elif case["pi"] == "array":
        kw.update(pi=mu)
    else:
        kw.update(pi="equal")
    b = pypfopt.BlackLittermanModel(pd.DataFrame(S, index=tick, columns=tick), **kw)
    r = gen.check_series(b.bl_returns(), tick, "bl_returns")
    C = gen.check_frame(b.bl_cov(), tick, "bl_cov")
    raw = np.linalg.solve(S, r)
    # risky positions that cancel cannot be normalised
    w = gen.get_weights(b.bl_weights(), tick, "bl_weights") if abs(raw.sum()) > 1e-6 * max(np.abs(raw).sum(), 1e-9) else None
    return r, C, w


@PROP.sub("black_litterman", blcase(), quick=700)
def bl(case, rec):
    rec.lib = True
    n = case["n"]
    perm = case["perm"]
    r, C, w = bl_run(case, list(range(n)))
    r2, C2, w2 = bl_run(case, perm)
    gen.expect_close(r2, r[perm], "posterior returns by ticker after permuting", rtol=1e-8, atol=1e-10)
    gen.expect_close(C2, C[np.ix_(perm, perm)], "posterior covariance by ticker after permuting", rtol=1e-8, atol=1e-10)
    if w is not None and w2 is not None and np.abs(w).max() < 1e3:
        gen.expect_close(w2, w[perm], "weights by ticker after permuting", rtol=1e-6, atol=1e-7)
    rec.label(case["pi"], "idzorek" if case["conf"] else "default omega")
    rec.nt(perm != sorted(perm) and np.ptp(r) > 1e-6)


# ------------------------------------------------------------------ HRP

@st.composite
def hrpcase(draw, nmin=2, nmax=8):
    n = draw(st.integers(nmin, nmax))
    return dict(n=n, tick=draw(gen.tickers(n)), ret=draw(gen.returns_case(n, 8, 20)), cov=draw(gen.cov_case(n, ("pd", "factor"))),
                src=draw(st.sampled_from(["returns", "cov"])))


@PROP.sub("hrp", hrpcase(), quick=400)
def hrp(case, rec):
    """Every ticker once with its own weight; stored weights follow the input order."""
    import pypfopt
    rec.lib = True
    tick = case["tick"]
    if case["src"] == "returns":
        if gen.build_returns(case["ret"]).std(axis=0).min() < 1e-9:
            raise Skip("an asset without variance has no correlation")
        h = pypfopt.HRPOpt(pd.DataFrame(gen.build_returns(case["ret"]), columns=tick))
    else:
        h = pypfopt.HRPOpt(cov_matrix=pd.DataFrame(gen.build_cov(case["cov"]), index=tick, columns=tick))
    res = h.optimize()
    if sorted(res, key=str) != sorted(tick, key=str) or len(res) != len(tick):
        raise Violation("HRPOpt.optimize: keys %r, tickers %r" % (list(res), tick))
    if len({type(t) for t in tick}) == 1 and list(res) != sorted(tick):
        raise Violation("HRPOpt.optimize: keys %r are not sorted" % (list(res),))
    w = np.array([res[t] for t in tick], float)
    if not np.array_equal(np.asarray(h.weights, float), w):
        raise Violation("HRPOpt: stored weights %s, returned by ticker %s" % (h.weights, w))
    gen.expect_close(gen.get_weights(h.clean_weights(cutoff=0, rounding=None), tick, "clean_weights"), w, "HRPOpt.clean_weights")
    rec.label(case["src"])
    rec.nt(np.ptp(w) > 1e-3 and list(tick) != sorted(tick, key=str))


# more assets than the default index has one-digit labels
PROP.sub("wide_permute", pcase(11, 16, (20, 40)), quick=240)(pm)
PROP.sub("wide_containers", ccase(nmin=11, nmax=16, T=(20, 40)), quick=160)(ct)
PROP.sub("wide_cla", clacase(10, 16), quick=120)(cl)
PROP.sub("wide_black_litterman", blcase(10, 16), quick=200)(bl)
PROP.sub("wide_hrp", hrpcase(10, 24), quick=120)(hrp)


# ------------------------------------------------------------------ number types and memory layouts

@st.composite
def dtcase(draw):
    n = draw(st.integers(2, 6))
    T = draw(st.integers(6, 12))
    k = draw(st.integers(1, n))
    return dict(n=n, tick=draw(gen.tickers(n)), mu=gen.ints(draw, n, -10, 40), F=gen.grid(draw, n, n, -4, 4), ridge=draw(st.integers(2, 20)), R=gen.grid(draw, T, n, -7, 9),
                what=draw(st.sampled_from(["EF", "EF", "EF", "SV", "CVAR", "CDAR", "CLA", "HRP", "HRPcov", "BL", "BL", "perf", "objective"])), how=draw(st.integers(0, 5)),
                kind=draw(st.sampled_from(["int64", "int64", "int32", "float32", "readonly", "fortran", "strided", "mixed"])), frame=draw(st.booleans()), aslist=draw(st.booleans()),
                k=k, P=gen.grid(draw, k, n, -2, 2), q=gen.ints(draw, k, -10, 30), om=gen.ints(draw, k, 1, 30), w=gen.ints(draw, n, -3, 4), bounds=draw(st.sampled_from([None, [0, 1], [-1, 1], [-2, 3]])),
                ra=draw(st.sampled_from([1, 2, 5])), rf=draw(st.sampled_from([0, 0, 1, -3])))


def as_kind(x, kind):
    """The same numbers in another type or memory layout."""
    x = np.array(x, float)
    if kind in ("int64", "int32", "float32"):
        return x.astype(kind)
    if kind == "readonly":
        x.setflags(write=False)
    elif kind == "fortran":
        x = np.asfortranarray(x)
    elif kind == "strided":
        y = np.full(tuple(2 * s for s in x.shape), 7.0)
        y[tuple(slice(None, None, 2) for _ in x.shape)] = x
        x = y[tuple(slice(None, None, 2) for _ in x.shape)]
    return x


def dt_run(case, kind):
    import pypfopt
    from pypfopt import EfficientCDaR, EfficientCVaR, EfficientFrontier, EfficientSemivariance, base_optimizer, objective_functions as of
    n, tick, what, how = case["n"], list(case["tick"]), case["what"], case["how"]
    F = np.array(case["F"])
    S = as_kind(F @ F.T + case["ridge"] * np.eye(n, dtype=int), kind)
    mu, R, w = as_kind(case["mu"], kind), as_kind(case["R"], kind), as_kind(case["w"], kind)
    i = (lambda v: int(v)) if kind.startswith("int") else (lambda v: float(v))
    if case["frame"]:
        S, mu, R = pd.DataFrame(S, index=tick, columns=tick), pd.Series(mu, index=tick), pd.DataFrame(R, columns=tick)
        if kind == "mixed":       # integer and floating columns side by side
            R = R.astype({tick[0]: "int64"})
            S = S.astype({tick[-1]: "int64"})
    elif case["aslist"]:
        mu = [i(x) for x in mu]
    kw = {} if case["bounds"] is None else dict(weight_bounds=tuple(i(x) for x in case["bounds"]))
    if what == "perf":
        p = base_optimizer.portfolio_performance([i(x) for x in w] if case["aslist"] else w, mu, S, risk_free_rate=i(case["rf"]))
        return np.array(p, float)
    if what == "objective":
        T = len(case["R"])
        bench = as_kind(case["R"], kind)[:, 0]
        return np.array([of.portfolio_variance(w, S), of.portfolio_return(w, mu), of.L2_reg(w, gamma=i(2)), of.quadratic_utility(w, mu, S, i(case["ra"])), of.transaction_cost(w, as_kind(case["mu"], kind), k=i(1)),
                         of.ex_ante_tracking_error(w, S, as_kind(case["mu"], kind)), of.ex_post_tracking_error(w, R, bench), of.sharpe_ratio(w, mu, S, i(case["rf"])) if w.any() else 0.0], float)
    if what == "BL":
        b = dict(P=as_kind(case["P"], kind), Q=as_kind(case["q"], kind), omega=np.diag(as_kind(case["om"], kind)) if kind != "readonly" else as_kind(np.diag(case["om"]), kind), tau=i(1))
        if how % 3:
            b["pi"] = mu if how % 3 == 1 else "market"
        if how % 3 == 2:
            b.update(market_caps=dict(zip(tick if case["frame"] else range(n), (abs(i(x)) + i(1) for x in case["mu"]))), risk_aversion=i(case["ra"]), risk_free_rate=i(case["rf"]))
        o = pypfopt.BlackLittermanModel(S, **b)
        return np.concatenate([np.asarray(o.bl_returns(), float), np.asarray(o.bl_cov(), float).ravel()])
    if what == "HRP":
        o = pypfopt.HRPOpt(R if case["frame"] else pd.DataFrame(R))
        o.optimize()
        return np.append(np.asarray(o.weights, float), o.portfolio_performance(risk_free_rate=i(case["rf"])))
    if what == "HRPcov":
        o = pypfopt.HRPOpt(cov_matrix=S if case["frame"] else pd.DataFrame(S))
        o.optimize()
        return np.append(np.asarray(o.weights, float), o.portfolio_performance()[1])
    if what == "CLA":
        o = pypfopt.CLA(mu, S, **kw)
        (o.max_sharpe if how % 2 else o.min_volatility)()
        return np.append(np.asarray(o.weights, float), o.portfolio_performance())
    if what == "EF":
        o = EfficientFrontier(mu, S, solver="CLARABEL", **kw)
        if how == 1:
            o.add_objective(of.L2_reg, gamma=i(3))
        elif how == 2:
            o.add_objective(of.transaction_cost, w_prev=w, k=i(2))
        elif how == 5:
            o.add_constraint(lambda x: np.arange(1, n + 1).astype(kind if kind.startswith("int") else float) @ x <= i(n))
        if how in (3, 5):
            o.max_quadratic_utility(i(case["ra"]))
        elif how == 4:
            if max(case["mu"]) <= case["rf"]:
                raise Skip("no return above the risk-free rate")
            o.max_sharpe(i(case["rf"]))
        else:
            o.min_volatility()
        return np.append(np.asarray(o.weights, float), o.portfolio_performance(risk_free_rate=i(case["rf"])))
    o = dict(SV=EfficientSemivariance, CVAR=EfficientCVaR, CDAR=EfficientCDaR)[what](mu, R, solver="CLARABEL", **(dict(kw, benchmark=i(case["rf"]), frequency=12) if what == "SV" else kw))
    o.add_objective(of.L2_reg, gamma=i(2))
    if how % 2:
        o.efficient_return(float(max(0, min(case["mu"]))))
    else:
        dict(SV=lambda: o.min_semivariance(), CVAR=lambda: o.min_cvar(), CDAR=lambda: o.min_cdar())[what]()
    p = o.portfolio_performance()
    return np.append(np.asarray(o.weights, float), p[:2])


@PROP.sub("dtypes", dtcase(), quick=800)
def dt(case, rec):
    """Whole numbers given as integers, in single precision, read-only, or in another memory layout are the same data."""
    rec.lib = True
    if case["kind"] == "mixed" and not case["frame"]:
        raise Skip("columns of different types need a table")
    if case["what"] in ("HRP",) and np.array(case["R"], float).std(axis=0).min() < 1e-9:
        raise Skip("an asset without variance has no correlation")
    if case["what"] == "CLA" and len(set(case["mu"])) < case["n"]:
        raise Skip("ties")
    if case["what"] == "CLA" and case["bounds"] not in (None, [0, 1]) and case["n"] * case["bounds"][1] <= 1:
        raise Skip("bounds leave nothing to choose")
    k, a = util.call(dt_run, case, "float64")
    if k != "ok":
        raise Skip("no optimum")
    b = util.must(dt_run, "%s with %s data" % (case["what"], case["kind"]), case, case["kind"])
    t = 1e-4 if case["kind"] == "float32" else 1e-6
    if case["what"] == "CLA" and case["kind"] == "float32":
        t = 1e-3
    if not np.all(np.abs(a - b) <= t * (1 + np.abs(a).max())):
        raise Violation("%s (%d) with %s data: %s, with floats: %s" % (case["what"], case["how"], case["kind"], b, a))
    rec.label(case["what"], case["kind"], "frame" if case["frame"] else "array")
    rec.nt(np.ptp(a) > 1e-6)
