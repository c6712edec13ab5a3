import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import gen

PROP = Prop("C28", "1-7 assets; any weights (long, short, integer, zero, not summing to one), positive-(semi)definite covariances, 2-15 periods of returns, parameters at and beyond their "
            "defaults, positional or keyword, both signs; data as arrays, Series (with unrelated labels order) or DataFrames. Each function is evaluated on the array, on a cvxpy variable holding it and, "
            "the same expression, on a second vector. Also 8-20 assets with 20-80 periods. Non-trivial: the value is not zero and differs between the two vectors.",
            ["values compared with Python-loop formulas at 1e-9 of the size of their terms; a Sharpe ratio needs a positive variance"])
FUNCS = ["variance", "return", "sharpe", "l2", "utility", "tcost", "ante", "post"]


def wvec(draw, n):
    k = draw(st.integers(0, 5))
    v = gen.ints(draw, n, -12, 20)
    if k == 0:
        return [float(x) for x in v]
    if k == 1:
        v = [abs(x) for x in v]
    s = float(sum(v))
    if k <= 3 and s:
        return [x / s for x in v]
    if k == 4:
        return [0.0 if x < 5 else x / 7.0 for x in v]
    return [x / 1000.0 for x in v]


@st.composite
def g(draw, n=(1, 7), T=(2, 15)):
    n = draw(st.integers(*n))
    T = draw(st.integers(*T))
    return dict(n=n, fn=draw(st.sampled_from(FUNCS)), w=wvec(draw, n), w2=wvec(draw, n), b=wvec(draw, n), mu=gen.mu_ints(draw, n),
                cov=draw(gen.cov_case(n, ("pd", "pd", "factor", "diag", "sing", "cash"))), tick=draw(gen.tickers(n)),
                ret=draw(gen.returns_case(n, T, T)), bench=gen.ints(draw, T, -40, 40),
                par=draw(st.sampled_from([None, None, 0, 0.001, 0.5, 1, 2, 10, 0.02, 100])), neg=draw(st.sampled_from([None, True, False])),
                cont=draw(st.integers(0, 3)), kw=draw(st.booleans()), ints=draw(st.integers(0, 8)) == 0)


def quad(w, S):
    n = len(w)
    return math.fsum(w[i] * S[i][j] * w[j] for i in range(n) for j in range(n))


def dot(a, b):
    return math.fsum(x * y for x, y in zip(a, b))


def reference(case, w, mu, S, b, R, q, par, neg):
    """(value, scale)"""
    f = case["fn"]
    s = 1.0 if neg is False else -1.0
    absw = [abs(x) for x in w]
    absS = np.abs(S)
    if f == "variance":
        return quad(w, S), quad(absw, absS)
    if f == "return":
        return s * dot(w, mu), dot(absw, np.abs(mu))
    if f == "sharpe":
        rf = 0.0 if par is None else par
        v = quad(w, S)
        if v <= 1e-9 * quad(absw, absS) or v <= 1e-14:
            raise Skip("no variance")
        return s * (dot(w, mu) - rf) / math.sqrt(v), (dot(absw, np.abs(mu)) + abs(rf)) / math.sqrt(v) * quad(absw, absS) / v
    if f == "l2":
        gm = 1 if par is None else par
        return gm * dot(w, w), abs(gm) * dot(w, w)
    if f == "utility":
        d = 1 if par is None else par
        return s * (dot(w, mu) - 0.5 * d * quad(w, S)), dot(absw, np.abs(mu)) + d * quad(absw, absS)
    if f == "tcost":
        k = 0.001 if par is None else par
        v = k * math.fsum(abs(x - y) for x, y in zip(w, b))
        return v, k * (sum(absw) + sum(map(abs, b)))
    if f == "ante":
        d = [x - y for x, y in zip(w, b)]
        e = [abs(x) + abs(y) for x, y in zip(w, b)]
        return quad(d, S), quad(e, absS)
    x = [dot(w, r) - z for r, z in zip(R, q)]
    m = math.fsum(x) / len(x)
    a = max(dot(absw, np.abs(r)) + abs(z) for r, z in zip(R, q))
    return math.fsum((y - m) ** 2 for y in x), len(x) * a * a


def args(case, mu, S, b, R, q):
    tick, c = case["tick"], case["cont"]
    df = lambda M: pd.DataFrame(M.copy(), index=tick, columns=tick) if c & 1 else M.copy()
    se = lambda v, idx: pd.Series(np.array(v, float), index=idx) if c & 2 else np.array(v, float)
    T = len(R)
    idx = pd.date_range("2020-01-01", periods=T)
    f, par, neg = case["fn"], case["par"], case["neg"]
    if f == "variance":
        return [("cov_matrix", df(S))], []
    if f == "return":
        pos, opt = [("expected_returns", se(mu, tick))], []
    elif f == "sharpe":
        pos, opt = [("expected_returns", se(mu, tick)), ("cov_matrix", df(S))], [("risk_free_rate", par)]
    elif f == "l2":
        return [], [("gamma", par)]
    elif f == "utility":
        pos, opt = [("expected_returns", se(mu, tick)), ("cov_matrix", df(S)), ("risk_aversion", 1 if par is None else par)], []
    elif f == "tcost":
        return [("w_prev", se(b, tick))], [("k", par)]
    elif f == "ante":
        return [("cov_matrix", df(S)), ("benchmark_weights", se(b, tick))], []
    else:
        Rc = pd.DataFrame(R.copy(), columns=tick, index=idx) if c & 1 else R.copy()
        return [("historic_returns", Rc), ("benchmark_returns", se(q, idx))], []
    return pos, opt + [("negative", neg)]


NAMES = dict(variance="portfolio_variance", sharpe="sharpe_ratio", l2="L2_reg", utility="quadratic_utility", tcost="transaction_cost",
             ante="ex_ante_tracking_error", post="ex_post_tracking_error")
NAMES["return"] = "portfolio_return"


@PROP.sub("functions", g(), quick=5000)
def functions(case, rec):
    rec.lib = True
    import cvxpy as cp
    from pypfopt import objective_functions as of
    n = case["n"]
    mu, S, R = gen.mu_of(case), gen.build_cov(case["cov"]), gen.build_returns(case["ret"])
    b, q = case["b"], [x / 500.0 for x in case["bench"]]
    w, w2 = case["w"], case["w2"]
    if case["ints"]:
        w = [float(round(x * 3)) for x in w]
    name = NAMES[case["fn"]]
    fn = getattr(of, name)
    pos, opt = args(case, mu, S, b, R, q)
    opt = [(k, v) for k, v in opt if v is not None]
    if case["kw"]:
        pa, ka = [], dict(pos + opt)
    else:
        pa, ka = [v for _, v in pos], dict(opt)
    call = lambda x: fn(x, *pa, **ka)
    want, scale = reference(case, w, mu, S, b, R, q, case["par"], case["neg"])
    arr = np.array([int(x) for x in w]) if case["ints"] else np.array(w)
    keep = arr.copy()
    got = call(arr)
    what = "%s(%s)" % (name, ", ".join("%s=%s" % (k, type(v).__name__ if isinstance(v, (np.ndarray, pd.Series, pd.DataFrame)) else v) for k, v in pos + opt))
    if isinstance(got, (np.ndarray, pd.Series, pd.DataFrame, cp.Expression)) or not isinstance(got, (float, np.floating, int, np.integer)):
        raise Violation("%s of an array returned %r" % (what, type(got)))
    tol = 1e-9 * scale + 1e-15
    if not abs(got - want) <= tol:
        raise Violation("%s of the array %s: %r, expected %r" % (what, w, float(got), want))
    if not np.array_equal(arr, keep):
        raise Violation("%s changed the weights" % what)
    v = cp.Variable(n)
    e = call(v)
    if not isinstance(e, cp.Expression):
        raise Violation("%s of a variable returned %r" % (what, type(e)))
    v.value = np.array(w)
    if e.size != 1:
        raise Violation("%s of a variable has shape %s" % (what, e.shape))
    ev = float(np.asarray(e.value).reshape(()) if np.size(e.value) == 1 and np.ndim(e.value) == 0 else np.asarray(e.value).ravel()[0])
    if not abs(ev - want) <= tol:
        raise Violation("%s of a variable at %s: %r, expected %r" % (what, w, ev, want))
    w2ok = True
    try:
        want2, scale2 = reference(case, w2, mu, S, b, R, q, case["par"], case["neg"])
    except Skip:
        w2ok = False
    if w2ok:
        v.value = np.array(w2)
        ev2 = float(np.asarray(e.value).ravel()[0])
        if not abs(ev2 - want2) <= 1e-9 * scale2 + 1e-15:
            raise Violation("%s: the expression built once has %r at %s, expected %r" % (what, ev2, w2, want2))
        got2 = call(np.array(w2))
        if not abs(got2 - want2) <= 1e-9 * scale2 + 1e-15:
            raise Violation("%s of the array %s: %r, expected %r" % (what, w2, float(got2), want2))
    rec.label(name, "containers=%d" % case["cont"], "par=%s" % case["par"], "negative=%s" % case["neg"])
    rec.nt(abs(want) > 1e-12 and w2ok and abs(want2 - want) > 1e-12)


PROP.sub("wide", g((8, 20), (20, 80)), quick=750)(functions)
