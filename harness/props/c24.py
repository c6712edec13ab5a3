import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import est, gen

PROP = Prop("C24", "Return samples of 2-9 assets (common factor or independent, some assets nearly or negatively correlated) as returns, as covariance or both; "
            "every scipy linkage method, optimize called once or repeatedly with different methods; returns rescaled. "
            "Tiny and percent units. Also 10-30 assets with 20-80 periods. Non-trivial: three or more assets and the leaf order is not the input order.",
            ["scipy's linkage is taken as the meaning of hierarchical clustering; leaf order, bisection and cluster variances are re-implemented recursively",
             "no ties between pairwise distances (tie-breaking is scipy's); the covariance input rounds correlations to 6 decimals, so gaps of 1e-4 are required there"])
METHODS = ["single", "complete", "average", "weighted", "centroid", "median", "ward"]


@st.composite
def g(draw, n=(2, 9), T=(4, 20)):
    n = draw(st.integers(*n))
    T = draw(st.integers(*T))
    c = dict(n=n, T=T, tick=draw(gen.tickers(n)), R=gen.grid(draw, T, n, -40, 40), f=gen.ints(draw, T, -40, 40),
             b=[draw(st.sampled_from([0, 0, 1, 1, -1, 2])) for _ in range(n)], vol=[draw(st.sampled_from([1, 1, 2, 3, 5, 0.5])) for _ in range(n)],
             methods=draw(st.lists(st.sampled_from([None] + METHODS), min_size=1, max_size=3)), inp=draw(st.sampled_from(["ret", "ret", "cov", "both"])),
             scale=draw(st.sampled_from([10.0, 0.1, 100.0, 0.5])), unit=draw(st.sampled_from([1, 1, 1, 1, 1e-2, 1e-4, 1e-5, 30])))
    return c


def returns(c):
    R = np.array(c["R"], float) + np.outer(c["f"], c["b"])
    return R * np.array(c["vol"]) / 1000.0 * c.get("unit", 1)


def reference(C, method, clusters):
    """(leaf order, weights) for covariance C and a linkage matrix."""
    n = len(C)

    def leaves(k):
        if k < n:
            return [k]
        return leaves(int(clusters[k - n, 0])) + leaves(int(clusters[k - n, 1]))

    order = leaves(2 * n - 2)

    def var(items):
        inv = [1.0 / C[i, i] for i in items]
        s = math.fsum(inv)
        v = [x / s for x in inv]
        return math.fsum(v[a] * v[b] * C[i, j] for a, i in enumerate(items) for b, j in enumerate(items))

    w = np.ones(n)

    def split(items):
        if len(items) < 2:
            return
        left, right = items[: len(items) // 2], items[len(items) // 2:]
        a, b = var(left), var(right)
        for i in left:
            w[i] *= b / (a + b)
        for i in right:
            w[i] *= a / (a + b)
        split(left)
        split(right)

    split(order)
    return order, w


def corr_dist(C):
    n = len(C)
    sd = np.sqrt(np.diag(C))
    return [math.sqrt(min(1.0, max(0.0, (1 - C[i, j] / (sd[i] * sd[j])) / 2))) for i in range(n) for j in range(i + 1, n)]


def make(inp, R, C, tick):
    import pypfopt
    r = pd.DataFrame(R.copy(), columns=list(tick))
    c = pd.DataFrame(C.copy(), index=list(tick), columns=list(tick))
    if inp == "ret":
        return pypfopt.HRPOpt(r)
    if inp == "cov":
        return pypfopt.HRPOpt(cov_matrix=c)
    return pypfopt.HRPOpt(returns=r, cov_matrix=c)


def by_ticker(res, tick):
    if not isinstance(res, dict) or list(res.keys()) != sorted(tick):
        raise Violation("optimize returned keys %r for the tickers %r" % (list(res), list(tick)))
    return np.array([float(res[t]) for t in tick])


def linkage(d, method):
    import scipy.cluster.hierarchy as sch
    return sch.linkage(np.array(d), method)


@PROP.sub("bisection", g(), quick=4000)
def b(case, rec):
    rec.lib = True
    R = returns(case)
    n, tick = case["n"], case["tick"]
    C = est.sample_cov(R)
    if np.diag(C).min() < 1e-8 * case.get("unit", 1) ** 2:
        raise Skip("constant returns")
    d = corr_dist(C)
    ds = sorted(d)
    gap = min([y - x for x, y in zip(ds, ds[1:])] + [1.0])
    if gap < (1e-6 if case["inp"] != "cov" else 1e-4) or ds[0] < 0.01:
        raise Skip("tied distances")
    o = make(case["inp"], R, C, tick)
    moved = False
    for m in case["methods"]:
        method = m or "single"
        what = "HRPOpt(%s).optimize(%s)" % (case["inp"], m)
        Z = linkage(d, method)
        if n > 2 and min(np.diff(np.sort(Z[:, 2]))) < 1e-4:
            rec.label("tied merge heights")
            continue
        w = by_ticker(o.optimize() if m is None else o.optimize(linkage_method=m), tick)
        got = np.asarray(o.clusters, float)
        if got.shape != Z.shape or not np.abs(np.sort(got[:, 2]) - np.sort(Z[:, 2])).max() <= (1e-7 if case["inp"] != "cov" else 2e-4):
            raise Violation("%s: merge heights %s, expected %s" % (what, got[:, 2].tolist(), Z[:, 2].tolist()))
        if not np.array_equal(got[:, [0, 1, 3]], Z[:, [0, 1, 3]]):
            raise Violation("%s: clusters %s, expected %s" % (what, got.tolist(), Z.tolist()))
        order, want = reference(C, method, Z)
        if not np.all(w > 0) or not abs(w.sum() - 1) <= 1e-9:
            raise Violation("%s: weights %s" % (what, w))
        if not np.abs(w - want).max() <= 1e-9:
            raise Violation("%s: weights %s, expected %s (leaf order %s)" % (what, w.tolist(), want.tolist(), order))
        if not np.array_equal(np.asarray(o.weights, float), w):
            raise Violation("%s: weights attribute %s, dict %s" % (what, o.weights, w))
        moved |= order != list(range(n))
        rec.label(method)
    rec.label(case["inp"], "n=%d" % n, "%d calls" % len(case["methods"]))
    rec.nt(n >= 3 and moved)


@PROP.sub("rescale", g(), quick=1500)
def s(case, rec):
    """Rescaled returns, and the covariance instead of the returns."""
    rec.lib = True
    R = returns(case)
    C = est.sample_cov(R)
    if np.diag(C).min() < 1e-8 * case.get("unit", 1) ** 2:
        raise Skip("constant returns")
    ds = sorted(corr_dist(C))
    if min([y - x for x, y in zip(ds, ds[1:])] + [1.0]) < 1e-4 or ds[0] < 0.01:
        raise Skip("tied distances")
    m = case["methods"][0] or "single"
    Z = linkage(corr_dist(C), m)
    if case["n"] > 2 and min(np.diff(np.sort(Z[:, 2]))) < 1e-4:
        raise Skip("tied merge heights")
    tick = case["tick"]
    o = make("ret", R, C, tick)
    w = by_ticker(o.optimize(m), tick)
    k = case["scale"]
    w2 = by_ticker(make("ret", R * k, C, tick).optimize(m), tick)
    if not np.abs(w - w2).max() <= 1e-8:
        raise Violation("returns scaled by %s: weights %s become %s" % (k, w.tolist(), w2.tolist()))
    o3 = make("cov", R, C * k, tick)
    w3 = by_ticker(o3.optimize(m), tick)
    if not np.abs(w - w3).max() <= 1e-8 or not np.array_equal(o.clusters[:, [0, 1, 3]], o3.clusters[:, [0, 1, 3]]):
        raise Violation("the sample covariance instead of the returns: weights %s become %s" % (w.tolist(), w3.tolist()))
    rec.label(m, "n=%d" % case["n"])
    rec.nt(case["n"] >= 3)


PROP.sub("wide", g((10, 30), (20, 80)), quick=400)(b)
