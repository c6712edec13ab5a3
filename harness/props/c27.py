import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import da, est, gen
from . import c25, c26

PROP = Prop("C27", "2-10 assets with mixed-sign distinct weights, short_ratio absent, 0, or 0.1-1.5, reinvest or not, both methods (LP up to 5 assets), verbose, other orders, earlier calls; "
            "each side is checked against the long-only rules for its own budget and against the long-only allocation of that side. "
            "get_latest_prices on price tables with gaps. Also 11-30 assets (greedy). Non-trivial: both sides hold shares (for prices: some last price is missing).",
            ["at least one positive weight; sides as for the long-only checks (greedy: identical shares; LP: minimal objective by enumeration)"])


@st.composite
def g(draw, lp=False, nmin=2, nmax=10):
    if lp:
        c = draw(da.da_case(nmin=2, nmax=5, shares=(1, 2, 3, 5), signed=True))
    else:
        c = draw(da.da_case(nmin=nmin, nmax=nmax, signed=True))
    c["ratio"] = draw(st.sampled_from([None, None, 0.3, 0.1, 1.0, 0, 0.75, 1.5]))
    c["reinvest"] = draw(st.sampled_from([None, False, True, True]))
    c["before"] = draw(st.lists(st.sampled_from(["greedy", "greedy_r"] + (["lp"] if lp else [])), max_size=1))
    c["solver"] = draw(st.sampled_from([None, "SCIPY"])) if lp else None
    return c


def sides(case):
    w = case["w"]
    V = 10000 if case["vdef"] else case["V"]
    L = [max(x, 0.0) for x in w]
    S = [max(-x, 0.0) for x in w]
    if not any(S) or not any(L):
        raise Skip("one-sided")
    ratio = sum(S) if case["ratio"] is None else case["ratio"]
    sv = V * ratio
    lv = V + (sv if case["reinvest"] else 0)
    li = [i for i, x in enumerate(w) if x >= 0]
    si = [i for i, x in enumerate(w) if x < 0]
    return V, (li, [w[i] / sum(L) for i in li], lv), (si, [-w[i] / sum(S) for i in si], sv)


def start(case):
    kw = {} if case["ratio"] is None else dict(short_ratio=case["ratio"])
    o = da.build(case, **kw)
    for b in case["before"]:
        if b == "lp":
            c26.solve(o, None)
        else:
            o.greedy_portfolio(reinvest=b == "greedy_r")
    rk = {} if case["reinvest"] is None else dict(reinvest=case["reinvest"])
    if case["verbose"]:
        rk["verbose"] = True
    return o, rk


def split(case, x, li, si, what):
    for i in li:
        if x[i] < 0:
            raise Violation("%s: %d shares of asset %d with weight %r" % (what, x[i], i, case["w"][i]))
    for i in si:
        if x[i] > 0:
            raise Violation("%s: %d shares of asset %d with weight %r" % (what, x[i], i, case["w"][i]))
    return [x[i] for i in li], [-x[i] for i in si]


@PROP.sub("greedy", g(), quick=5000)
def greedy(case, rec):
    rec.lib = True
    import pypfopt
    if len(set(case["w"])) < case["n"]:
        raise Skip("equal weights")
    V, long_, short = sides(case)
    o, kw = start(case)
    what = "greedy_portfolio(%s), short_ratio=%s, after %s" % (kw, case["ratio"], case["before"])
    res = o.greedy_portfolio(**kw)
    x, left = da.shares(res, case, what, sign=0)
    xl, xs = split(case, x, long_[0], short[0], what)
    if o.allocation != res[0]:
        raise Violation("%s: allocation attribute %r, result %r" % (what, o.allocation, res[0]))
    p = case["p"]
    budget = 0.0
    for (idx, w, val), y, name in ((long_, xl, "long"), (short, xs, "short")):
        q = [p[i] for i in idx]
        budget += val
        cost = sum(a * b for a, b in zip(y, q))
        if val <= 0:
            if any(y):
                raise Violation("%s: %s side without a budget holds %s" % (what, name, y))
            continue
        c25.check_long(case, y, val - cost, [min(a, a * (1 - 1e-12)) for a in w], q, val, what + ", %s side" % name)
        if len(set(w)) < len(w):
            continue
        d = pypfopt.DiscreteAllocation({case["tick"][i]: a for i, a in zip(idx, w)}, pd.Series(q, index=[case["tick"][i] for i in idx]), total_portfolio_value=val)
        alone = d.greedy_portfolio()[0]
        if [alone.get(case["tick"][i], 0) for i in idx] != y:
            raise Violation("%s: %s side %s, allocated on its own %s" % (what, name, y, alone))
    cost = sum(abs(a) * b for a, b in zip(x, p))
    if not abs(left - (budget - cost)) <= 1e-8 * budget:
        raise Violation("%s: leftover %r, the two sides leave %r of %r" % (what, left, budget - cost, budget))
    rec.label("ratio=%s" % case["ratio"], "reinvest=%s" % case["reinvest"], "n=%d" % case["n"], *["after " + b for b in case["before"]])
    rec.nt(any(xl) and any(xs))


@PROP.sub("lp", g(True), quick=1500)
def lp(case, rec):
    rec.lib = True
    V, long_, short = sides(case)
    p = case["p"]
    for idx, w, val in (long_, short):
        if val > 0:
            da.best_long(w, [p[i] for i in idx], val)
    o, kw = start(case)
    what = "lp_portfolio(%s), short_ratio=%s, after %s" % (kw, case["ratio"], case["before"])
    res = c26.solve(o, case["solver"], **kw)
    x, left = da.shares(res, case, what, sign=0)
    xl, xs = split(case, x, long_[0], short[0], what)
    if o.allocation != res[0]:
        raise Violation("%s: allocation attribute %r, result %r" % (what, o.allocation, res[0]))
    budget = 0.0
    for (idx, w, val), y, name in ((long_, xl, "long"), (short, xs, "short")):
        q = [p[i] for i in idx]
        budget += val
        cost = sum(a * b for a, b in zip(y, q))
        if val <= 0:
            if any(y):
                raise Violation("%s: %s side without a budget holds %s" % (what, name, y))
            continue
        c26.check_long(case, y, val - cost, w, q, val, case["solver"], what + ", %s side" % name)
    cost = sum(abs(a) * b for a, b in zip(x, p))
    if not abs(left - (budget - cost)) <= 1e-8 * budget:
        raise Violation("%s: leftover %r, the two sides leave %r of %r" % (what, left, budget - cost, budget))
    rec.label("ratio=%s" % case["ratio"], "reinvest=%s" % case["reinvest"], "solver=%s" % case["solver"], "n=%d" % case["n"])
    rec.nt(any(xl) and any(xs))


@PROP.sub("latest_prices", est.prices_case(nmax=6, tmin=1, tmax=15, minvalid=0, gaps=("none", "lead", "holes", "both", "both")), quick=1500)
def latest(case, rec):
    rec.lib = True
    import pypfopt
    from pypfopt.discrete_allocation import get_latest_prices
    P = est.price_values(case)
    got = gen.check_series(get_latest_prices(est.frame(case, P)), case["tick"], "get_latest_prices")
    for i in range(case["n"]):
        v = [x for x in P[:, i] if not math.isnan(x)]
        want = v[-1] if v else float("nan")
        if not (got[i] == want or (math.isnan(got[i]) and math.isnan(want))):
            raise Violation("get_latest_prices: %r for asset %d, expected %r" % (got[i], i, want))
    rec.label("gaps=" + case["gaps"])
    rec.nt(np.isnan(P[-1]).any())


@st.composite
def g_stale(draw):
    """Long tables with assets whose last price is any number of rows back."""
    n, T = draw(st.integers(1, 5)), draw(st.sampled_from([10, 30, 80, 300, 700]))
    last = [T - 1 - min(T - 1, draw(st.sampled_from([0, 0, 1, 2, 5, 9, 25, 70, 280, 650])) + draw(st.integers(0, 3))) for _ in range(n)]
    return dict(n=n, T=T, last=last, tick=draw(gen.tickers(n)), seed=draw(st.integers(0, 10**6)), holes=draw(st.booleans()), index=draw(st.sampled_from(["range", "dates"])))


@PROP.sub("stale_prices", g_stale(), quick=250)
def stale(case, rec):
    rec.lib = True
    from pypfopt.discrete_allocation import get_latest_prices
    n, T = case["n"], case["T"]
    R = np.random.default_rng(case["seed"])
    P = np.round(R.uniform(1, 100, (T, n)), 2)
    if case["holes"]:
        P[R.random((T, n)) < 0.3] = np.nan
    want = []
    for i, k in enumerate(case["last"]):
        P[k + 1:, i] = np.nan
        P[k, i] = round(R.uniform(1, 100), 2)
        want.append(P[k, i])
    df = pd.DataFrame(P, columns=case["tick"], index=pd.date_range("2015-01-01", periods=T) if case["index"] == "dates" else None)
    got = gen.check_series(get_latest_prices(df), case["tick"], "get_latest_prices")
    if [float(v) for v in got] != [float(v) for v in want]:
        raise Violation("get_latest_prices: %s, expected %s (last prices %s rows before the end of %d)" % (list(got), want, [T - 1 - k for k in case["last"]], T))
    rec.label("T=%d" % T, "stale by %d" % (10 * (max(T - 1 - k for k in case["last"]) // 10)))
    rec.nt(any(k < T - 1 for k in case["last"]))


PROP.sub("wide_greedy", g(nmin=11, nmax=30), quick=750)(greedy)
