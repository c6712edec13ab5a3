"""Discrete-allocation cases."""
import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from .core import Skip, Violation
from . import gen


@st.composite
def da_case(draw, nmin=1, nmax=12, shares=(0.3, 1, 3, 10, 40), signed=False, zero=True, cash=False, cheap=False):
    n = draw(st.integers(nmin, nmax))
    lo = 0 if zero else 1
    v = draw(st.lists(st.integers(lo, 60), min_size=n, max_size=n, unique=True))
    if sum(v) == 0:
        v[0] = 7
    sign = [1] * n
    if signed:
        sign = [draw(st.sampled_from([1, 1, -1])) for _ in range(n)]
        if all(s < 0 or x == 0 for s, x in zip(sign, v)):
            i = max(range(n), key=lambda k: v[k])
            sign[i] = 1
    net = sum(s * x for s, x in zip(sign, v))
    tot = float(sum(v) if not signed or net <= 0 else net)
    w = [s * x / tot for s, x in zip(sign, v)]
    if cash:
        # part of the portfolio stays in cash
        part = draw(st.sampled_from([1.0, 1.0, 1.0, 0.93, 0.7, 0.4]))
        w = [x * part for x in w]
    dec = draw(st.sampled_from([None, None, 2, 3, 5]))
    if dec is not None:
        w = [round(x, dec) for x in w]
    k = draw(st.sampled_from(shares))
    V = draw(st.sampled_from([10000, 1000.0, 517, 100000, 12345.67, 50, 2500000]))
    # prices in cents, so that the average position is about k shares
    unit = V / k / n
    p = [max(0.01, round(unit * x / 50.0, 2)) for x in gen.ints(draw, n, 5, 200)]
    if cheap:
        # prices of a fraction of a cent: of a small portfolio, or of some assets only
        mode = draw(st.sampled_from([None] * 5 + ["all", "some"]))
        if mode == "all":
            V = draw(st.sampled_from([1.0, 3.7, 25.0]))
            p = [max(1e-4, round(V / k / n * x / 50.0, 5)) for x in gen.ints(draw, n, 5, 200)]
        elif mode == "some" and cheap != "small":
            p = [q if j else max(1e-4, round(q / 2000.0, 5)) for q, j in zip(p, gen.ints(draw, n, 0, 2))]
    return dict(n=n, tick=draw(gen.tickers(n)), w=w, p=p, V=V, vdef=draw(st.booleans()) and V == 10000, order=draw(st.permutations(list(range(n)))),
                worder=draw(st.permutations(list(range(n)))), extra=draw(st.integers(0, 2)), verbose=draw(st.booleans()), k=k, dec=dec)


def build(case, w=None, V=None, order=None, worder=None, extra=None, **kw):
    """(weights dict, prices Series, DiscreteAllocation)"""
    import pypfopt
    n, tick = case["n"], case["tick"]
    w = case["w"] if w is None else w
    worder = case["worder"] if worder is None else worder
    order = case["order"] if order is None else order
    weights = {tick[i]: w[i] for i in worder}
    idx = [tick[i] for i in order]
    vals = [case["p"][i] for i in order]
    for e in range(case["extra"] if extra is None else extra):
        name = 1000 + e if isinstance(tick[0], int) else "extra%d" % e
        at = (e * 3) % (len(idx) + 1)
        idx.insert(at, name)
        vals.insert(at, 3.33 + e)
    prices = pd.Series(vals, index=idx)
    if not case["vdef"] or V is not None:
        kw["total_portfolio_value"] = case["V"] if V is None else V
    return pypfopt.DiscreteAllocation(weights, prices, **kw)


def shares(res, case, what, sign=1):
    """Validated share counts in asset order, and the leftover."""
    if not isinstance(res, tuple) or len(res) != 2 or not isinstance(res[0], dict):
        raise Violation("%s returned %r" % (what, res))
    alloc, left = res
    tick = case["tick"]
    for t, v in alloc.items():
        if t not in tick:
            raise Violation("%s: unknown ticker %r" % (what, t))
        if isinstance(v, bool) or not isinstance(v, (int, np.integer)):
            raise Violation("%s: %r shares of %r" % (what, v, t))
        if v == 0 or (sign and v < 0):
            raise Violation("%s: %r shares of %r" % (what, v, t))
    if not math.isfinite(float(left)):
        raise Violation("%s: leftover %r" % (what, left))
    return [int(alloc.get(t, 0)) for t in tick], float(left)


def floor_share(w, V, p):
    return max(0, math.floor(w * V / p - 1e-9))


def long_objective(w, p, V, x):
    cost = sum(a * b for a, b in zip(x, p))
    return sum(abs(wi * V - xi * pi) for wi, pi, xi in zip(w, p, x)) + V - cost


def best_long(w, p, V, cap=300000):
    """Exhaustive minimum over all affordable non-negative integer allocations."""
    n = len(w)
    tops = [int(math.floor(V / q * (1 + 1e-12))) for q in p]
    total = 1
    for t in tops:
        total *= t + 1
    if total > cap:
        raise Skip("too many allocations to enumerate")
    grids = np.meshgrid(*[np.arange(t + 1) for t in tops], indexing="ij")
    X = np.stack([g.ravel() for g in grids], axis=1)
    cost = X @ np.array(p)
    ok = cost <= V * (1 + 1e-12)
    X, cost = X[ok], cost[ok]
    obj = np.abs(np.array(w) * V - X * np.array(p)).sum(axis=1) + V - cost
    k = int(np.argmin(obj))
    return float(obj[k]), X[k].tolist()


def milp_long(w, p, V):
    """A good allocation for sizes beyond enumeration, from the same programme written directly for HiGHS: (objective, shares) or None."""
    from scipy.optimize import Bounds, LinearConstraint, milp
    n = len(w)
    p, w = np.array(p, float), np.array(w, float)
    # variables x (shares), u >= |w V - x p|; objective sum(u) + V - p x
    c = np.concatenate([-p, np.ones(n)])
    I = np.eye(n)
    A = np.vstack([np.hstack([np.diag(p), I]), np.hstack([np.diag(-p), I]), np.concatenate([p, np.zeros(n)])[None, :]])
    lo = np.concatenate([w * V, -w * V, [-np.inf]])
    hi = np.concatenate([np.full(2 * n, np.inf), [V]])
    r = milp(c, constraints=LinearConstraint(A, lo, hi), integrality=np.concatenate([np.ones(n), np.zeros(n)]),
             bounds=Bounds(np.zeros(2 * n), np.full(2 * n, np.inf)), options=dict(time_limit=5.0))
    if r.x is None:
        return None
    x = [max(0, int(v)) for v in np.rint(r.x[:n])]
    if not sum(a * b for a, b in zip(x, p)) <= V * (1 + 1e-12):
        return None
    return long_objective(w, p, V, x), x
