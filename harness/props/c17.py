import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import est, gen

PROP = Prop("C17", "Return samples of 2-6 assets and 3-25 periods given as prices, returns or arrays; one CovarianceShrinkage object asked for several "
            "estimators in turn, or risk_matrix by name; manual delta in [0,1]; and the returns rescaled by a factor. "
            "Also 8-16 assets, and 120-420 periods. Non-trivial: 0.01 < delta < 0.99, or the two factors differ.",
            ["delta and the matrix are recomputed by summing the published formulas term by term over (t, i, j); compared at 1e-8 of the largest variance",
             "complete data (missing returns count as zero in the data-driven estimators, which is checked for the constant-variance, "
             "single-factor and OAS estimators with leading gaps)",
             "degenerate samples where the target equals the sample matrix (delta is 0/0) are skipped"])
EST = ["shrunk", "cv", "sf", "cc", "oas"]
NAMES = {"cv": ["ledoit_wolf", "ledoit_wolf_constant_variance"], "sf": ["ledoit_wolf_single_factor"],
         "cc": ["ledoit_wolf_constant_correlation"], "oas": ["oracle_approximating"]}


@st.composite
def g(draw, **size):
    c = draw(est.prices_case(**dict(dict(nmin=2, nmax=6, tmin=4, tmax=25, gaps=("none", "none", "none", "lead")), **size)))
    if draw(st.booleans()):        # idiosyncratic noise on a strong common factor
        c["R"] = [[c["R"][t][0] + x // 6 for x in c["R"][t]] for t in range(len(c["R"]))]
    c.update(log=draw(st.booleans()), freq=draw(st.sampled_from([None, 252, 12, 1, 4, 52, 365])), inp=draw(st.sampled_from(["prices", "returns", "returns", "array"])),
             seq=draw(st.lists(st.tuples(st.sampled_from(EST), st.sampled_from([None, 0.0, 0.1, 0.2, 0.5, 1.0, 0.85, 1])), min_size=1, max_size=4)),
             via=draw(st.booleans()), scale=draw(st.sampled_from([2.0, 0.5, 10.0, 0.01, -1.0])))
    return c


def biased(X):
    T, n = X.shape
    m = X.mean(axis=0)
    return est.matrix(n, lambda i, j: math.fsum((X[t, i] - m[i]) * (X[t, j] - m[j]) for t in range(T)) / T)


def ref(name, R, arg):
    """(F, S, delta) per period, by the published formulas."""
    X = np.nan_to_num(R)
    T, n = X.shape
    if name == "shrunk":
        S = est.sample_cov(R)
        return np.trace(S) / n * np.eye(n), S, 0.2 if arg is None else arg
    Z = X - X.mean(axis=0)
    S = biased(X)
    if name in ("cv", "oas"):
        mu = np.trace(S) / n
        F = mu * np.eye(n)
        if name == "cv":
            # Ledoit & Wolf (2004): d2 = |S - mu I|^2 / n, b2 = mean |z z' - S|^2 / (n T)
            d2 = float(((S - F) ** 2).sum()) / n
            b2 = sum(float(((np.outer(z, z) - S) ** 2).sum()) for z in Z) / T / T / n
            if d2 <= 1e-14 * mu * mu:
                raise Skip("target equals the sample matrix")
            return F, S, min(b2, d2) / d2
        tr2 = float((S ** 2).sum())
        # sklearn documents the OAS formula with mean(S^2) and mu^2 (Chen et al. 2010, eq. 23, up to p -> scaled terms)
        num = tr2 / n ** 2 + mu ** 2
        den = (T + 1) * (tr2 / n ** 2 - mu ** 2 / n)
        if den <= 1e-14 * mu * mu:
            raise Skip("target equals the sample matrix")
        return F, S, min(num / den, 1.0)
    if name == "sf":
        x = Z.mean(axis=1)
        vm = float(x @ x) / T
        if vm <= 1e-16:
            raise Skip("the market factor does not move")
        b = np.array([float(Z[:, i] @ x) / T for i in range(n)])
        F = np.outer(b, b) / vm
        F[np.diag_indices(n)] = np.diag(S)
        pi = sum(((Z[t, i] * Z[t, j] - S[i, j]) ** 2) for t in range(T) for i in range(n) for j in range(n)) / T
        rho = sum((Z[t, i] ** 2 - S[i, i]) ** 2 for t in range(T) for i in range(n)) / T
        for i in range(n):
            for j in range(n):
                if i != j:
                    s = 0.0
                    for t in range(T):
                        r = (b[j] * vm * Z[t, i] + b[i] * vm * Z[t, j] - b[i] * b[j] * x[t]) / vm ** 2 * x[t] * Z[t, i] * Z[t, j] - F[i, j] * S[i, j]
                        s += r
                    rho += s / T
        g_ = float(((S - F) ** 2).sum())
        if g_ <= 1e-12 * float((S ** 2).sum()):
            raise Skip("target equals the sample matrix")
        return F, S, max(0.0, min(1.0, (pi - rho) / g_ / T))
    # constant correlation: the sample matrix is the unbiased one throughout
    S = est.sample_cov(R)
    sd = np.sqrt(np.diag(S))
    if sd.min() <= 1e-9:
        raise Skip("constant returns")
    C = S / np.outer(sd, sd)
    rbar = (C.sum() - n) / (n * (n - 1))
    F = rbar * np.outer(sd, sd)
    F[np.diag_indices(n)] = np.diag(S)
    pij = np.zeros((n, n))
    th = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            for t in range(T):
                e = Z[t, i] * Z[t, j] - S[i, j]
                pij[i, j] += e * e / T
                th[i, j] += (Z[t, i] ** 2 - S[i, i]) * e / T
    rho = np.trace(pij) + sum(rbar / 2 * (sd[j] / sd[i] * th[i, j] + sd[i] / sd[j] * th[j, i]) for i in range(n) for j in range(n) if i != j)
    g_ = float(((S - F) ** 2).sum())
    if g_ <= 1e-12 * float((S ** 2).sum()):
        raise Skip("target equals the sample matrix")
    return F, S, max(0.0, min(1.0, (pij.sum() - rho) / g_ / T))


def inputs(case, factor=None):
    P = est.price_values(case)
    keep, R = est.returns_of(P, case["log"])
    df = est.frame(case, P)
    if factor is not None:
        R = R * factor
    inp = "returns" if factor is not None else case["inp"]
    if inp == "prices":
        data = df
    elif inp == "array":
        data = P.copy()
    else:
        data = pd.DataFrame(R.copy(), index=[df.index[t] for t in keep], columns=list(case["tick"]))
    kw = {}
    if case["log"]:
        kw["log_returns"] = True
    if inp == "returns":
        kw["returns_data"] = True
    if case["freq"] is not None:
        kw["frequency"] = case["freq"]
    return data, R, kw


def run(obj, name, arg):
    if name == "shrunk":
        return obj.shrunk_covariance() if arg is None else obj.shrunk_covariance(arg)
    if name == "oas":
        return obj.oracle_approximating()
    if name == "cv" and arg is None:
        return obj.ledoit_wolf()
    return obj.ledoit_wolf({"cv": "constant_variance", "sf": "single_factor", "cc": "constant_correlation"}[name])


def domain(case, R):
    if len(R) < 2 or any(len(est.col(R, i)) < 2 for i in range(case["n"])):
        raise Skip("too few returns")
    if np.nanmax(np.abs(R - np.nanmean(R, axis=0))) < 1e-6:
        raise Skip("constant returns")


@PROP.sub("formula", g(), quick=3000)
def f(case, rec):
    rec.lib = True
    from pypfopt import risk_models as rm
    data, R, kw = inputs(case)
    domain(case, R)
    n = case["n"]
    gaps = np.isnan(R).any()
    labels = list(range(n)) if case["inp"] == "array" else case["tick"]
    obj = rm.CovarianceShrinkage(data, **kw)
    freq = 252 if case["freq"] is None else case["freq"]
    for name, arg in case["seq"]:
        if gaps and name in ("cc", "shrunk"):
            continue
        try:
            F, S, d = ref(name, R, arg)
        except Skip:
            rec.label("degenerate")
            continue
        want = freq * (d * F + (1 - d) * S)
        out = run(obj, name, arg)
        what = "%s(%s) of %s" % (name, arg, case["inp"])
        got = gen.check_frame(out, labels, what)
        scale = np.abs(want).max()
        if obj.delta is None or not abs(float(obj.delta) - d) <= 1e-7:
            raise Violation("%s: delta %r, expected %r (after %s)" % (what, obj.delta, d, case["seq"]))
        if not 0 <= float(obj.delta) <= 1:
            raise Violation("%s: delta %r outside [0, 1]" % (what, obj.delta))
        if not np.all(np.abs(got - want) <= 2e-7 * scale):
            raise Violation("%s: got %s, expected %s (delta %.6g)" % (what, got.tolist(), want.tolist(), d))
        if not np.all(np.abs(got - got.T) <= 1e-10 * scale) or not est.psd_margin(got)[0] >= -1e-9 * scale - 1e-15:
            raise Violation("%s: not symmetric positive semidefinite" % what)
        if case["via"] and name in NAMES:
            for m in NAMES[name]:
                r2 = gen.check_frame(rm.risk_matrix(data, method=m, **kw), labels, "risk_matrix(%s)" % m)
                if not np.all(np.abs(r2 - got) <= 1e-10 * scale):
                    raise Violation("risk_matrix(%s) differs from the direct call: %s, %s" % (m, r2.tolist(), got.tolist()))
        rec.label(name, "interior delta" if 0 < d < 1 else "delta at an end")
        rec.nt(0.01 < d < 0.99)
    rec.label(case["inp"], "gaps" if gaps else "complete", "T<=n" if len(R) <= n else "T>n", "%d calls" % len(case["seq"]))


@PROP.sub("rescale", g(), quick=1500)
def sc(case, rec):
    rec.lib = True
    from pypfopt import risk_models as rm
    name, arg = case["seq"][0]
    k = case["scale"]
    d1, R, kw1 = inputs(case, 1.0)
    domain(case, R)
    if np.isnan(R).any():
        raise Skip("gaps")
    try:
        ref(name, R, arg)
    except Skip:
        raise Skip("degenerate")
    d2, _, kw2 = inputs(case, k)
    o1, o2 = rm.CovarianceShrinkage(d1, **kw1), rm.CovarianceShrinkage(d2, **kw2)
    a = gen.check_frame(run(o1, name, arg), case["tick"], name)
    b = gen.check_frame(run(o2, name, arg), case["tick"], name)
    if not abs(o1.delta - o2.delta) <= 1e-6:
        raise Violation("%s: delta %r becomes %r when the returns are scaled by %s" % (name, o1.delta, o2.delta, k))
    if not np.all(np.abs(a * k * k - b) <= 2e-6 * np.abs(b).max() + 1e-14):
        raise Violation("%s: scaling the returns by %s gives %s instead of %s" % (name, k, b.tolist(), (a * k * k).tolist()))
    rec.label(name, "k=%s" % k)
    rec.nt(k != 1)


# larger universes, and samples longer than a trading year
WIDE = st.one_of(g(nmin=8, nmax=16, tmin=12, tmax=70), g(nmin=2, nmax=4, tmin=120, tmax=420))
PROP.sub("wide", WIDE, quick=600)(f)
