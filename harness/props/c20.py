import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import bl, gen

PROP = Prop("C20", "Every way of stating views, priors, market caps (dict/Series in any order, arrays), Omega and confidences on 2-6 assets; the attributes Q, P, "
            "pi, omega and tau read back; the static omega methods and market-implied functions called on their own, the latter on generated price series. "
            "Also 9-16 assets. Non-trivial: the views are not in ticker order, or cover a strict subset, or the caps/confidences differ.",
            ["market caps as arrays or with an unlabelled covariance are taken in the order of the covariance; confidence 0 is documented as a very large "
             "uncertainty: at least 1e4 times the view variance is required; compared at 1e-9 relative"])


def same(got, want, what, rtol=1e-9):
    got = np.asarray(got, float)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    if not np.all(np.abs(got - want) <= rtol * np.abs(want).max() + 1e-15):
        raise Violation("%s: got %s, expected %s" % (what, got.tolist(), want.tolist()))


def omega_check(got, m, what):
    c = m.case
    k = c["k"]
    got = np.asarray(got, float)
    if got.shape != (k, k):
        raise Violation("%s: shape %s" % (what, got.shape))
    if c["omega"] != "idz":
        return same(got, m.omega, what)
    if np.abs(got - np.diag(np.diag(got))).max() > 0:
        raise Violation("%s: not diagonal: %s" % (what, got.tolist()))
    for i, f in enumerate(c["conf"]):
        v = m.tau * float(m.P[i] @ m.S @ m.P[i])
        if f == 0:
            if not got[i, i] >= 1e4 * v:
                raise Violation("%s: view %d with confidence 0 has uncertainty %r (view variance %r)" % (what, i, got[i, i], v))
        elif not abs(got[i, i] - v * (1 - f) / f) <= 1e-9 * v * (1 / f):
            raise Violation("%s: view %d with confidence %r: %r, expected %r" % (what, i, f, got[i, i], v * (1 - f) / f))


@PROP.sub("attributes", bl.bl_case(), quick=5000)
def attr(case, rec):
    rec.lib = True
    m = bl.Model(case)
    o = m.build()
    same(o.Q, m.Q.reshape(-1, 1), "Q")
    same(o.P, m.P, "P")
    same(o.pi, m.pi.reshape(-1, 1), "pi")
    omega_check(o.omega, m, "omega")
    if o.tau != m.tau or o.risk_aversion != m.ra:
        raise Violation("tau %r, risk aversion %r; given %r, %r" % (o.tau, o.risk_aversion, m.tau, m.ra))
    # a view held with no confidence has no weight
    if case["omega"] == "idz" and len(m.P) == 1 and case["conf"][0] == 0:
        r = o.bl_returns().values
        if not np.abs(r - m.pi).max() <= 1e-3 * (abs(m.Q[0]) + np.abs(m.pi).max() + 0.01):
            raise Violation("a view with confidence 0 moves the prior %s to %s" % (m.pi, r))
    rec.label("views=" + case["vkind"], "pi=" + case["pi"], "omega=" + case["omega"], "cov=" + case["covc"], "caps=" + case["capc"] if case["pi"] == "market" else "no caps")
    rec.nt(("idx" in case and case["idx"] != list(range(case["n"]))) or (case["pi"] == "market" and len(set(case["caps"])) > 1) or
           (case["omega"] == "idz" and len(set(case["conf"])) > 1))


@PROP.sub("static", bl.bl_case(omegas=("idz", "none")), quick=1500)
def static(case, rec):
    rec.lib = True
    from pypfopt.black_litterman import BlackLittermanModel as B, market_implied_prior_returns as prior
    m = bl.Model(case)
    Q, pi = m.Q.reshape(-1, 1), m.pi.reshape(-1, 1)
    if case["omega"] == "idz":
        f = np.array(case["conf"], float)
        conf = {"list": list(case["conf"]), "nd": f, "col": f.reshape(-1, 1), "series": f}[case["cc"]]
        got = B.idzorek_method(conf, m.S, pi, Q, m.P, m.tau, m.ra) if case["ra"] else B.idzorek_method(conf, m.S, pi, Q, m.P, m.tau)
        omega_check(got, m, "idzorek_method")
    else:
        same(B.default_omega(m.S, m.P, m.tau), m.omega, "default_omega")
    cov = gen.as_cov(m.S, case["covc"], case["tick"])
    rf = 0.0 if case["rf"] is None else case["rf"]
    kw = {} if case["rf"] is None else dict(risk_free_rate=rf)
    got = prior(m.caps(), m.ra, cov, **kw)
    w = np.array(case["caps"], float) / sum(case["caps"])
    want = m.ra * m.S @ w + rf
    if case["covc"] == "df":
        got = gen.check_series(got, case["tick"], "market_implied_prior_returns")
    same(np.asarray(got), want, "market_implied_prior_returns(%s)" % case["capc"])
    rec.label("omega=" + case["omega"], "caps=" + case["capc"], "cov=" + case["covc"])
    rec.nt(len(set(case["caps"])) > 1)


@st.composite
def market(draw):
    T = draw(st.integers(3, 40))
    return dict(r=gen.ints(draw, T, -60, 60), p0=draw(st.sampled_from([1.0, 100.0, 3000.0])), freq=draw(st.sampled_from([None, 252, 12, 52, 1, 2, 4, 6, 365])),
                rf=draw(st.sampled_from([None, 0.0, 0.02, 0.05, -0.01])), cont=draw(st.sampled_from(["series", "df"])), idx=draw(st.sampled_from(["daily", "range", "weekly"])),
                lead=draw(st.sampled_from([0, 0, 1, 2])))


@PROP.sub("risk_aversion", market(), quick=2000)
def ra(case, rec):
    rec.lib = True
    from pypfopt.black_litterman import market_implied_risk_aversion
    r = [x / 1000.0 for x in case["r"]]
    P = [case["p0"]]
    for x in r:
        P.append(P[-1] * (1 + x))
    P = [float("nan")] * case["lead"] + P
    s = pd.Series(P, index=gen.make_index(case["idx"], len(P)), name="SPY")
    if len(set(case["r"])) < 2:
        raise Skip("no variance")
    kw = {}
    if case["freq"] is not None:
        kw["frequency"] = case["freq"]
    if case["rf"] is not None:
        kw["risk_free_rate"] = case["rf"]
    got = market_implied_risk_aversion(s if case["cont"] == "series" else s.to_frame(), **kw)
    f = 252 if case["freq"] is None else case["freq"]
    rf = 0.0 if case["rf"] is None else case["rf"]
    mean = math.fsum(r) / len(r)
    var = math.fsum((x - mean) ** 2 for x in r) / (len(r) - 1)
    want = (mean * f - rf) / (var * f)
    if not (np.ndim(got) == 0 and abs(float(got) - want) <= 1e-8 * (max(abs(x) for x in r) * f + abs(rf)) / (var * f)):
        raise Violation("market_implied_risk_aversion(%s, frequency=%s, risk_free_rate=%s): %r, expected %r" % (case["cont"], f, rf, got, want))
    rec.label(case["cont"], "freq=%s" % f)
    rec.nt(abs(want) > 1e-6)


PROP.sub("wide_attributes", bl.bl_case(nmin=9, nmax=16), quick=750)(attr)
