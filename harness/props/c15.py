import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import est, gen

PROP = Prop("C15", "Price tables of 1-5 assets and 4-25 periods (leading and interior gaps) with a market given as Series, one-column DataFrame or not at "
            "all; the market may cover more dates, in another order, or miss dates; prices or returns input; frequency, risk-free rate, "
            "compounding and log returns. Also 8-16 assets, and 120-420 periods. Non-trivial: the market's returns are not all equal and the betas differ from 1.",
            ["betas use the pairwise-complete covariance with the market over the asset's return dates; values compared at 1e-8 relative to the "
             "size of the formula's terms"])


@st.composite
def g(draw, **size):
    c = draw(est.prices_case(**dict(dict(nmin=1, nmax=5, tmin=5, tmax=25, gaps=("none", "none", "lead", "holes"), minvalid=4), **size)))
    T = c["T"]
    c.update(log=draw(st.booleans()), comp=draw(st.sampled_from([None, True, False])), freq=draw(st.sampled_from([None, 252, 12, 1, 4, 52, 365])),
             rf=draw(st.sampled_from([None, 0.0, 0.02, 0.05, -0.01, 0.3])), inp=draw(st.sampled_from(["prices", "returns"])),
             mkt=draw(st.sampled_from([None, "df", "df", "series"])), via=draw(st.booleans()),
             extra=[draw(st.integers(0, 2)), draw(st.integers(0, 2))] if draw(st.integers(0, 2)) == 0 else [0, 0],
             miss=draw(st.lists(st.integers(1, T - 1), max_size=2)) if draw(st.integers(0, 3)) == 0 else [],
             mname=draw(st.sampled_from(["SPY", "mkt", 0])), mR=gen.ints(draw, T + 4, -40, 40), mix=draw(st.sampled_from([0, 1, 1])))
    if draw(st.integers(0, 7)) == 0:
        c["tick"][draw(st.integers(0, c["n"] - 1))] = "mkt"
    if c["extra"] != [0, 0]:
        c["idx"] = "daily" if c["idx"] == "range" else c["idx"]
    return c


@PROP.sub("capm", g(), quick=5000)
def capm(case, rec):
    rec.lib = True
    from pypfopt import expected_returns as er
    T, n, log = case["T"], case["n"], case["log"]
    P = est.price_values(case)
    a, b = case["extra"]
    full = gen.make_index(case["idx"], T + a + b)
    aidx = full[a:a + T]
    df = pd.DataFrame(P.copy(), index=aidx, columns=list(case["tick"]))
    keep, R = est.returns_of(P, log)
    rdates = [aidx[t] for t in keep]
    kw = {}
    if case["inp"] == "returns":
        kw["returns_data"] = True
        data = pd.DataFrame(R.copy(), index=rdates, columns=list(case["tick"]))
    else:
        data = df
    mret = {}
    if case["mkt"]:
        M = [100.0]
        for t in range(1, T + a + b):
            r = case["mR"][t] / 1000.0
            k = t - a
            if case["mix"] and 1 <= k < T and not np.isnan(case["R"][k - 1][0]):
                r += case["R"][k - 1][0] / 1000.0
            M.append(M[-1] * (1 + r))
        rows = [t for t in range(T + a + b) if t - a not in case["miss"]]
        for p, q in zip(rows, rows[1:]):
            mret[full[q]] = float(np.log(M[q] / M[p])) if log else M[q] / M[p] - 1
        if case["inp"] == "returns":
            ser = pd.Series(mret, name=case["mname"])
        else:
            ser = pd.Series([M[t] for t in rows], index=[full[t] for t in rows], name=case["mname"])
        market = ser if case["mkt"] == "series" else ser.to_frame()
        kw["market_prices"] = market
        before = market.copy(deep=True)
        x = [mret.get(d, est.NAN) for d in rdates]
    else:
        x = []
        for row in R:
            v = [z for z in row if not np.isnan(z)]
            x.append(sum(v) / len(v))
    avail = [z for z in x if not np.isnan(z)]
    if len(avail) < 3 or np.ptp(avail) < 1e-4:
        raise Skip("the market does not move")
    if case["log"] or T % 2:
        kw["log_returns"] = log
    for k, v in (("compounding", case["comp"]), ("frequency", case["freq"]), ("risk_free_rate", case["rf"])):
        if v is not None:
            kw[k] = v
    b4 = data.copy(deep=True)
    out = er.return_model(data, method="capm_return", **kw) if case["via"] else er.capm_return(data, **kw)
    got = gen.check_series(out, case["tick"], "capm_return")
    comp = True if case["comp"] is None else case["comp"]
    freq = 252 if case["freq"] is None else case["freq"]
    rf = 0.0 if case["rf"] is None else case["rf"]
    if comp:
        p = 1.0
        for z in avail:
            p *= 1 + z
        em = p ** (freq / len(avail)) - 1
    else:
        em = sum(avail) / len(avail) * freq
    var = est.pair_cov(x, x)
    beta = np.array([est.pair_cov(R[:, i], x) / var for i in range(n)])
    want = rf + beta * (em - rf)
    what = "capm_return(%s, market=%s, rf=%s, compounding=%s, frequency=%s, log=%s)" % (case["inp"], case["mkt"], rf, comp, freq, log)
    ok = np.isnan(got) & np.isnan(want) | (np.abs(got - want) <= 1e-8 * (1 + np.abs(beta)) * (1 + abs(em) + abs(rf)))
    if not np.all(ok):
        raise Violation("%s: %s, expected %s (betas %s, market %r)" % (what, got, want, beta, em))
    pd.testing.assert_frame_equal(data, b4)
    if case["mkt"]:
        (pd.testing.assert_frame_equal if case["mkt"] == "df" else pd.testing.assert_series_equal)(market, before)
    rec.label(case["inp"], "market=%s" % case["mkt"], "gaps=" + case["gaps"], "comp=%s" % comp, "log" if log else "simple",
              "extra dates" if a or b else "same dates", "missing dates" if case["miss"] and case["mkt"] else "all dates")
    rec.nt(np.any(np.abs(beta - 1) > 1e-3))


# larger universes, and samples longer than a trading year
WIDE = st.one_of(g(nmin=8, nmax=16, tmin=12, tmax=70), g(nmin=1, nmax=4, tmin=120, tmax=420))
PROP.sub("wide", WIDE, quick=600)(capm)
