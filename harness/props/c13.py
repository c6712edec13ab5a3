import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import est, gen

PROP = Prop("C13", "Price tables of 1-6 assets and 2-30 periods over four orders of magnitude, with leading and interior gaps, wholly missing rows, date "
            "or integer index, simple and log returns; return tables of the same kinds. Also 8-16 assets, and 120-420 periods. Non-trivial: at least two different returns.",
            ["positive prices; cells compared at 1e-12 relative to the size of 1 + return"])


@st.composite
def g(draw, **size):
    c = draw(est.prices_case(**dict(dict(nmax=6, tmin=2, tmax=30, minvalid=0), **size)))
    c["log"] = draw(st.booleans())
    return c


def cells(got, want, what, rtol=1e-12, atol=1e-12):
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    for t in range(want.shape[0]):
        for i in range(want.shape[1]):
            a, b = got[t, i], want[t, i]
            if math.isnan(b) != math.isnan(a) or (not math.isnan(b) and not abs(a - b) <= atol + rtol * abs(b)):
                raise Violation("%s: cell (%d, %d) is %r, expected %r" % (what, t, i, a, b))


def frame_of(df, index, columns, what):
    if not isinstance(df, pd.DataFrame):
        raise Violation("%s: got %r" % (what, type(df)))
    if list(df.columns) != list(columns):
        raise Violation("%s: columns %r, expected %r" % (what, list(df.columns), list(columns)))
    if list(df.index) != list(index):
        raise Violation("%s: index %r, expected %r" % (what, list(df.index), list(index)))
    return df.values.astype(float)


@PROP.sub("returns", g(), quick=4000)
def ret(case, rec):
    rec.lib = True
    from pypfopt import expected_returns as er
    P = est.price_values(case)
    df = est.frame(case, P)
    log = case["log"]
    out = er.returns_from_prices(df, log_returns=log) if log or case["T"] % 2 else er.returns_from_prices(df)
    keep, R = est.returns_of(P, log)
    got = frame_of(out, [df.index[t] for t in keep], case["tick"], "returns_from_prices(log=%s)" % log)
    cells(got, R, "returns_from_prices(log=%s)" % log)
    rec.label("log" if log else "simple", "gaps=" + case["gaps"], "idx=" + case["idx"], "wholly missing row" if len(keep) < case["T"] - 1 else "no missing row")
    rec.nt(len({x for x in R.ravel() if not math.isnan(x)}) >= 2)


@PROP.sub("prices", g(), quick=3000)
def pr(case, rec):
    """Pseudo-prices from returns (the first row of returns only marks the start)."""
    rec.lib = True
    from pypfopt import expected_returns as er
    log = case["log"]
    _, R = est.returns_of(est.price_values(dict(case, lead=[0] * case["n"], holes=[])), log)
    for t, i in case["holes"]:
        if 0 < t < len(R):
            R[t, i] = est.NAN
    df = pd.DataFrame(R.copy(), index=gen.make_index(case["idx"], len(R)), columns=list(case["tick"]))
    out = er.prices_from_returns(df, log_returns=log)
    got = frame_of(out, df.index, case["tick"], "prices_from_returns(log=%s)" % log)
    want = np.empty_like(R)
    for i in range(R.shape[1]):
        p = 1.0
        for t in range(len(R)):
            if t > 0 and math.isnan(R[t, i]):
                want[t, i] = est.NAN
                continue
            if t > 0:
                p *= math.exp(R[t, i]) if log else 1 + R[t, i]
            want[t, i] = p
    cells(got, want, "prices_from_returns(log=%s)" % log, 1e-11)
    rec.label("log" if log else "simple", "gaps" if np.isnan(R).any() else "complete")
    rec.nt(len({x for x in R[1:].ravel() if not math.isnan(x)}) >= 2)


@PROP.sub("round_trip", g(), quick=3000)
def rt(case, rec):
    rec.lib = True
    from pypfopt import expected_returns as er
    log = case["log"]
    c = dict(case, holes=[], lead=[0] * case["n"])
    if c["T"] < 3:
        raise Skip("too short")
    P = est.price_values(c)
    df = est.frame(c, P)
    r = er.returns_from_prices(df, log_returns=log)
    p2 = er.prices_from_returns(r, log_returns=log)
    cells(frame_of(p2, df.index[1:], c["tick"], "prices -> returns -> prices"), P[1:] / P[1], "prices -> returns -> prices (log=%s)" % log, 1e-10)
    r2 = er.returns_from_prices(p2, log_returns=log)
    cells(frame_of(r2, r.index[1:], c["tick"], "returns -> prices -> returns"), r.values[1:], "returns -> prices -> returns (log=%s)" % log, 0, 1e-10)
    rec.label("log" if log else "simple")
    rec.nt(len(set(np.round(r.values.ravel(), 12))) >= 2)


# larger universes, and samples longer than a trading year
WIDE = st.one_of(g(nmin=8, nmax=16, tmin=12, tmax=70), g(nmin=1, nmax=4, tmin=120, tmax=420))
PROP.sub("wide_returns", WIDE, quick=400)(ret)
PROP.sub("wide_prices", WIDE, quick=300)(pr)
