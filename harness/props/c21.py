import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import bl, gen

PROP = Prop("C21", "2-6 assets with generated views and priors; well-conditioned covariances, and singular ones (a riskless asset or two identical assets) checked against "
            "the pseudo-inverse; several risk aversions, calls in any order and repeated, set_weights before the performance. "
            "Also 9-16 assets. Non-trivial: the weights are not all equal.",
            ["cases whose unnormalised weights nearly cancel (sum below 2% of their absolute sum) are skipped; weights compared at 1e-7 of the largest weight, "
             "amplified by the condition number; for singular covariances only when LAPACK finds an exactly singular factor"])


@st.composite
def g(draw, singular=False, **size):
    if singular:
        c = draw(bl.bl_case(cov_kinds=("cash", "pd"), singular=True, omegas=("none", "diag")))
        if c["vkind"] == "PQ" and c["omega"] == "none" or c["vkind"] == "Qonly" or "idx" in c:
            c["omega"] = "diag"
    else:
        c = draw(bl.bl_case(**size))
    c["calls"] = draw(st.lists(st.sampled_from(["bl_returns", "bl_cov", "optimize", "bl_weights", "portfolio_performance"]), max_size=3))
    c["ra1"], c["ra2"] = draw(st.sampled_from([None, 1, 0.3, 5.0, 20])), draw(st.sampled_from([None, 2, 0.7, 3.14]))
    c["how"] = draw(st.sampled_from(["bl_weights", "optimize"]))
    c["prf"] = draw(st.sampled_from([None, 0.0, 0.02, 0.1]))
    c["set"] = draw(st.integers(0, 3)) == 0
    c["sw"] = gen.ints(draw, c["n"], -5, 10)
    return c


def run(case, rec, singular):
    rec.lib = True
    m = bl.Model(case)
    m.conditioned()
    r = m.post_rets()
    if not np.abs(r).max() > 1e-4 * (np.abs(m.Q).max() + np.abs(m.pi).max()):
        raise Skip("the posterior returns cancel")
    if singular:
        try:
            np.linalg.solve(m.ra * m.S, r)
            raise Skip("not exactly singular in floating point")
        except np.linalg.LinAlgError:
            pass
        raw = np.linalg.pinv(m.S, rcond=1e-10) @ r
        cond = 1e4
        if np.sort(np.linalg.eigvalsh(m.S))[1] < 1e-5:
            raise Skip("nearly singular beyond the exact direction")
    else:
        cond = np.linalg.cond(m.S)
        if cond > 1e6:
            raise Skip("ill-conditioned covariance")
        raw = np.linalg.inv(m.S) @ r
    if not np.abs(raw).max() > 1e-6 * np.abs(r).max() / np.abs(m.S).max():
        raise Skip("the returns of the risky assets cancel")
    if not abs(raw.sum()) > 0.02 * np.abs(raw).sum():
        raise Skip("the weights nearly cancel")
    want = raw / raw.sum()
    o = m.build()
    for name in case["calls"]:
        try:
            getattr(o, name)()
        except ValueError:
            if name != "portfolio_performance":
                raise
    ra_kw = lambda x: {} if x is None else dict(risk_aversion=x)
    tol = (1e-8 + 1e-13 * cond) * np.abs(want).max() * (np.abs(raw).sum() / abs(raw.sum()))
    for step, (how, ra) in enumerate([(case["how"], case["ra1"]), ("bl_weights", case["ra2"]), ("optimize", case["ra1"])]):
        if singular:        # a multiple of an exactly singular matrix may round to a non-singular one
            A = (m.ra if ra is None else ra) * m.S
            try:
                np.linalg.solve(A, r)
                rec.label("multiple not singular")
                continue
            except np.linalg.LinAlgError:
                pass
        w = gen.get_weights(getattr(o, how)(**ra_kw(ra)), m.labels, how)
        if not np.array_equal(np.asarray(o.weights, float).ravel(), w):
            raise Violation("%s: weights attribute %s, dict %s" % (how, o.weights, w))
        if not abs(w.sum() - 1) <= 1e-9 * np.abs(w).sum():
            raise Violation("%s: weights %s sum to %r" % (how, w, w.sum()))
        if not np.abs(w - want).max() <= tol:
            raise Violation("%s(risk_aversion=%s), call %d: %s, expected %s" % (how, ra, step, w.tolist(), want.tolist()))
        want_now = w
    if "want_now" not in locals():
        raise Skip("no multiple exactly singular")
    if case["set"] and sum(case["sw"]):
        want_now = np.array(case["sw"], float) / sum(case["sw"])
        o.set_weights(dict(zip(m.labels, want_now.tolist())))
    C = m.post_cov()
    rf = 0.0 if case["prf"] is None else case["prf"]
    p = o.portfolio_performance(**({} if case["prf"] is None else dict(risk_free_rate=case["prf"])))
    mu, sd = float(want_now @ r), math.sqrt(max(0.0, float(want_now @ C @ want_now)))
    gross = np.abs(want_now).sum()
    if not abs(float(p[0]) - mu) <= 1e-7 * gross * (np.abs(r).max() + 1e-3):
        raise Violation("portfolio_performance: return %r, expected %r" % (p[0], mu))
    if not abs(float(p[1]) - sd) <= 1e-6 * gross * math.sqrt(np.abs(C).max()):
        raise Violation("portfolio_performance: volatility %r, expected %r" % (p[1], sd))
    if sd > 1e-3 and not abs(float(p[2]) - (mu - rf) / sd) <= 1e-5 * gross ** 2 * (1 + abs(mu - rf) / sd) / sd:
        raise Violation("portfolio_performance: Sharpe ratio %r, expected %r" % (p[2], (mu - rf) / sd))
    rec.label("views=" + case["vkind"], "pi=" + case["pi"], "cov=" + case["covc"], "set_weights" if case["set"] else "own weights")
    if singular:
        rec.label("identical assets" if case.get("dup") else "cash asset")
    rec.nt(np.ptp(want) > 1e-3)


@PROP.sub("weights", g(), quick=4000)
def w(case, rec):
    run(case, rec, False)


@PROP.sub("singular", g(True), quick=2500)
def s(case, rec):
    run(case, rec, True)


PROP.sub("wide", g(nmin=9, nmax=16), quick=750)(w)
