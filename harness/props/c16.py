import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import est, gen

PROP = Prop("C16", "Price tables of 1-6 assets and 4-30 periods with leading and interior gaps (including more assets than periods), given as prices (DataFrame "
            "or array) or returns, every combination of frequency, span, benchmark, log_returns, fix_method and way of calling. "
            "Also 8-16 assets, and 120-420 periods. Non-trivial: two or more assets with non-zero covariances.",
            ["reference sums in plain loops, compared at 1e-9 of the largest variance; when the raw matrix is clearly indefinite the repaired one is compared "
             "with the documented repair",
             "missing returns count as no shortfall in the semicovariance and are left out pairwise elsewhere"])
METHODS = ["sample_cov", "semicovariance", "exp_cov"]


@st.composite
def g(draw, **size):
    c = draw(est.prices_case(**dict(dict(nmax=6, tmin=4, tmax=30, gaps=("none", "none", "lead", "holes", "both")), **size)))
    c.update(method=draw(st.sampled_from(METHODS)), log=draw(st.booleans()), freq=draw(st.sampled_from([None, 252, 12, 52, 1, 4, 365])),
             span=draw(st.sampled_from([None, 180, 60, 10, 3, 2])), bench=draw(st.sampled_from([None, 0.0, 0.000079, 0.001, -0.005, 0.01])),
             inp=draw(st.sampled_from(["prices", "prices", "returns", "array"])), fix=draw(st.sampled_from([None, None, "spectral", "diag"])),
             via=draw(st.sampled_from([0, 1, 2])))
    return c


def call(case, data, rm):
    kw = {}
    if case["log"] or case["T"] % 2:
        kw["log_returns"] = case["log"]
    if case["freq"] is not None:
        kw["frequency"] = case["freq"]
    if case["inp"] == "returns":
        kw["returns_data"] = True
    if case["fix"]:
        kw["fix_method"] = case["fix"]
    m = case["method"]
    if m == "exp_cov" and case["span"] is not None:
        kw["span"] = case["span"]
    if m == "semicovariance" and case["bench"] is not None:
        kw["benchmark"] = case["bench"]
    if case["via"]:
        if m == "sample_cov" and case["via"] == 2:
            return rm.risk_matrix(data, **kw)
        if m == "semicovariance" and case["via"] == 2:
            m = "semivariance"
        return rm.risk_matrix(data, method=m, **kw)
    return getattr(rm, m)(data, **kw)


def repaired(S, fix):
    """The documented result for the raw matrix S, with the regime it is in."""
    lo, hi = est.psd_margin(S)
    if lo >= -1e-9 * hi:
        return S, "psd" if lo > 1e-9 * hi else "singular"
    if fix == "diag":
        return S - 1.1 * lo * np.eye(len(S)), "indefinite"
    return est.nearest_psd(S), "indefinite"


@PROP.sub("estimators", g(), quick=5000)
def e(case, rec):
    rec.lib = True
    from pypfopt import risk_models as rm
    P = est.price_values(case)
    inp, log, n = case["inp"], case["log"], case["n"]
    keep, R = est.returns_of(P, log)
    if not len(R) or any(len(est.col(R, i)) < 1 for i in range(n)):
        raise Skip("an asset without any return")
    df = est.frame(case, P)
    if inp == "prices":
        data = df
    elif inp == "array":
        data = P.copy()
    else:
        data = pd.DataFrame(R.copy(), index=[df.index[t] for t in keep], columns=list(case["tick"]))
    m = case["method"]
    if m == "sample_cov":
        raw = est.sample_cov(R)
    elif m == "semicovariance":
        raw = est.semicov(R, 0.000079 if case["bench"] is None else case["bench"])
    else:
        raw = est.exp_cov(R, 180 if case["span"] is None else case["span"])
    raw = raw * (252 if case["freq"] is None else case["freq"])
    if np.isnan(raw).any():
        raise Skip("two assets never overlap")
    out = call(case, data, rm)
    what = "%s(%s, frequency=%s, log=%s, span=%s, benchmark=%s, fix=%s)" % (m, inp, case["freq"], log, case["span"], case["bench"], case["fix"])
    labels = list(range(n)) if inp == "array" else case["tick"]
    got = gen.check_frame(out, labels, what)
    want, kind = repaired(raw, case["fix"])
    scale = np.abs(raw).max()
    if not np.all(np.abs(got - want) <= 1e-9 * scale + 1e-18 if kind == "psd" else np.abs(got - want) <= 5e-9 * scale + 1e-15):
        raise Violation("%s: got %s, expected %s" % (what, got.tolist(), want.tolist()))
    if not np.all(np.abs(got - got.T) <= 1e-10 * scale):
        raise Violation("%s: not symmetric: %s" % (what, got.tolist()))
    if not est.psd_margin(got)[0] >= -1e-8 * scale - 1e-15:
        raise Violation("%s: not positive semidefinite" % what)
    rec.label(m, inp, kind, "gaps=" + case["gaps"], "log" if log else "simple", "fix=%s" % case["fix"])
    rec.nt(n > 1 and np.abs(want - np.diag(np.diag(want))).max() > 1e-6 * scale)


# larger universes, and samples longer than a trading year
WIDE = st.one_of(g(nmin=8, nmax=16, tmin=12, tmax=70), g(nmin=1, nmax=4, tmin=120, tmax=420))
PROP.sub("wide", WIDE, quick=600)(e)
