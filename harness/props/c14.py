import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import est, gen

PROP = Prop("C14", "Price tables of 1-5 assets and 4-30 periods with leading gaps, interior gaps and wholly missing rows, given as prices (DataFrame or "
            "array) or returns, every combination of compounding, frequency, span and log_returns, called directly or through return_model, "
            "together with the other assets or alone. Also 8-16 assets, and 120-420 periods. Non-trivial: at least two different returns.",
            ["each asset has at least two prices in successive periods; values compared at 1e-9 relative to 1 + the annual return",
             "independence of the other assets: the exponential weights count the rows in which some asset has a return, so for the EMA it is checked for assets without interior gaps"])
FREQ = [252, 12, 52, 1, 4, 2, 365]


@st.composite
def g(draw, **size):
    c = draw(est.prices_case(**dict(dict(nmax=5, tmin=4, tmax=30), **size)))
    c.update(method=draw(st.sampled_from(["mean_historical_return", "ema_historical_return"])), log=draw(st.booleans()),
             comp=draw(st.sampled_from([None, True, False])), freq=draw(st.sampled_from([None] + FREQ)),
             span=draw(st.sampled_from([None, 500, 60, 10, 3, 2, 1])), inp=draw(st.sampled_from(["prices", "prices", "returns", "array"])),
             via=draw(st.booleans()), alone=draw(st.integers(0, c["n"] - 1)), default=draw(st.integers(0, 4)) == 0)
    return c


def call(case, data, inp):
    from pypfopt import expected_returns as er
    kw = {}
    if case["log"] or case["T"] % 2:
        kw["log_returns"] = case["log"]
    if case["comp"] is not None:
        kw["compounding"] = case["comp"]
    if case["freq"] is not None:
        kw["frequency"] = case["freq"]
    if inp == "returns":
        kw["returns_data"] = True
    m = case["method"]
    if m == "ema_historical_return" and case["span"] is not None:
        kw["span"] = case["span"]
    if case["via"]:
        if m == "mean_historical_return" and case["default"]:
            return er.return_model(data, **kw)
        return er.return_model(data, method=m, **kw)
    return getattr(er, m)(data, **kw)


@PROP.sub("estimators", g(), quick=6000)
def e(case, rec):
    rec.lib = True
    P = est.price_values(case)
    inp, log = case["inp"], case["log"]
    keep, R = est.returns_of(P, log)
    if any(len(est.col(R, i)) < 1 for i in range(case["n"])):
        raise Skip("an asset without any return")
    df = est.frame(case, P)
    if inp == "prices":
        data = df
    elif inp == "array":
        data = P.copy()
    else:
        data = pd.DataFrame(R.copy(), index=[df.index[t] for t in keep], columns=list(case["tick"]))
    out = call(case, data, inp)
    labels = list(range(case["n"])) if inp == "array" else case["tick"]
    comp = True if case["comp"] is None else case["comp"]
    freq = 252 if case["freq"] is None else case["freq"]
    if case["method"] == "mean_historical_return":
        want = est.mean_hist(R, freq, comp)
    else:
        want = est.ema_hist(R, freq, 500 if case["span"] is None else case["span"], comp)
    what = "%s(%s, compounding=%s, frequency=%s, log=%s)" % (case["method"], inp, comp, freq, log)
    got = gen.check_series(out, labels, what)
    tol = 1e-9 * (1 + np.abs(want))
    if not np.all(np.abs(got - want) <= tol):
        raise Violation("%s: %s, expected %s" % (what, got, want))
    # the other assets do not matter
    i = case["alone"]
    own = np.where(~np.isnan(R[:, i]))[0]
    solid = own[-1] == len(R) - 1 and own[-1] - own[0] + 1 == len(own)
    if inp != "array" and (solid or case["method"] == "mean_historical_return"):
        alone = call(case, data[[case["tick"][i]]], inp)
        a = gen.check_series(alone, [case["tick"][i]], what + " of one asset")
        if not abs(a[0] - got[i]) <= 1e-10 * (1 + abs(got[i])):
            raise Violation("%s: asset %r alone gives %r, with the others %r" % (what, case["tick"][i], a[0], got[i]))
    rec.label(case["method"], inp, "gaps=" + case["gaps"], "comp=%s" % comp, "log" if log else "simple", "freq=%s" % freq)
    rec.nt(len(set(np.round(R[~np.isnan(R)], 12))) >= 2)


# larger universes, and samples longer than a trading year
WIDE = st.one_of(g(nmin=8, nmax=16, tmin=12, tmax=70), g(nmin=1, nmax=4, tmin=120, tmax=420))
PROP.sub("wide", WIDE, quick=600)(e)
