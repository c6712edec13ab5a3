"""Price tables and reference estimators written as plain loops over cells."""
import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from . import gen

NAN = float("nan")


@st.composite
def prices_case(draw, nmin=1, nmax=5, tmin=4, tmax=25, gaps=("none", "none", "lead", "holes", "both"), minvalid=3):
    n = draw(st.integers(nmin, nmax))
    T = draw(st.integers(tmin, tmax))
    amp = draw(st.sampled_from([30, 5, 150]))
    c = dict(n=n, T=T, tick=draw(gen.tickers(n)), R=gen.grid(draw, T - 1, n, -amp, amp),
             f=draw(st.sampled_from([None, 1])), p0=[draw(st.sampled_from([1.0, 10.0, 123.4, 0.05, 2500.0])) for _ in range(n)],
             idx=draw(st.sampled_from(["daily", "weekly", "range"])), gaps=draw(st.sampled_from(gaps)))
    if c["f"] is not None:
        c["f"] = gen.ints(draw, T - 1, -20, 20)
    room = T - minvalid
    c["lead"] = [draw(st.integers(0, max(0, room))) if c["gaps"] in ("lead", "both") and draw(st.booleans()) else 0 for _ in range(n)]
    c["holes"] = []
    if c["gaps"] in ("holes", "both"):
        c["holes"] = draw(st.lists(st.tuples(st.integers(0, T - 1), st.integers(0, n - 1)), max_size=4))
        if draw(st.integers(0, 2)) == 0:
            t = draw(st.integers(0, T - 1))
            c["holes"] = [list(h) for h in c["holes"]] + [[t, i] for i in range(n)]
    return c


def price_values(c):
    T, n = c["T"], c["n"]
    P = np.empty((T, n))
    for i in range(n):
        P[0, i] = c["p0"][i]
        for t in range(1, T):
            r = c["R"][t - 1][i] / 1000.0 + (c["f"][t - 1] / 1000.0 if c["f"] else 0.0)
            P[t, i] = P[t - 1, i] * (1 + r)
    for i in range(n):
        P[: c["lead"][i], i] = NAN
    for t, i in c["holes"]:
        P[t, i] = NAN
    return P


def index_of(c):
    return gen.make_index(c["idx"], c["T"])


def frame(c, P=None):
    P = price_values(c) if P is None else P
    return pd.DataFrame(P.copy(), index=index_of(c), columns=list(c["tick"]))


def returns_of(P, log=False):
    """(rows kept, returns) by definition, cell by cell."""
    T, n = P.shape
    R = np.full((T, n), NAN)
    for t in range(1, T):
        for i in range(n):
            a, b = P[t - 1, i], P[t, i]
            if not (math.isnan(a) or math.isnan(b)):
                R[t, i] = math.log(b / a) if log else b / a - 1
    keep = [t for t in range(T) if any(not math.isnan(x) for x in R[t])]
    return keep, R[keep]


def col(R, i):
    return [x for x in R[:, i] if not math.isnan(x)]


def mean_hist(R, freq, compounding):
    out = []
    for i in range(R.shape[1]):
        x = col(R, i)
        if compounding:
            p = 1.0
            for r in x:
                p *= 1 + r
            out.append(p ** (freq / len(x)) - 1)
        else:
            out.append(math.fsum(x) / len(x) * freq)
    return np.array(out)


def ewm(vals, span):
    """Exponential mean with weights (1-2/(span+1))^age over the available values."""
    q = 1 - 2.0 / (span + 1)
    num, den = [], []
    T = len(vals)
    last = max((t for t in range(T) if not math.isnan(vals[t])), default=None)
    if last is None:
        return NAN
    for t in range(T):
        if not math.isnan(vals[t]):
            w = q ** (last - t) if q > 0 else (1.0 if t == last else 0.0)
            num.append(w * vals[t])
            den.append(w)
    return math.fsum(num) / math.fsum(den)


def ema_hist(R, freq, span, compounding):
    e = np.array([ewm(R[:, i], span) for i in range(R.shape[1])])
    return (1 + e) ** freq - 1 if compounding else e * freq


def pair_cov(x, y):
    """Sample covariance over the periods in which both are available."""
    z = [(a, b) for a, b in zip(x, y) if not (math.isnan(a) or math.isnan(b))]
    if len(z) < 2:
        return NAN
    ma = math.fsum(a for a, _ in z) / len(z)
    mb = math.fsum(b for _, b in z) / len(z)
    return math.fsum((a - ma) * (b - mb) for a, b in z) / (len(z) - 1)


def matrix(n, f):
    S = np.empty((n, n))
    for i in range(n):
        for j in range(n):
            S[i, j] = f(i, j)
    return S


def sample_cov(R):
    return matrix(R.shape[1], lambda i, j: pair_cov(R[:, i], R[:, j]))


def semicov(R, bench):
    T = R.shape[0]
    d = np.array([[0.0 if math.isnan(x) else min(x - bench, 0.0) for x in row] for row in R])
    return matrix(R.shape[1], lambda i, j: math.fsum(d[t, i] * d[t, j] for t in range(T)) / T)


def exp_cov(R, span):
    n = R.shape[1]
    m = [math.fsum(col(R, i)) / len(col(R, i)) for i in range(n)]
    return matrix(n, lambda i, j: ewm((R[:, i] - m[i]) * (R[:, j] - m[j]), span))


def psd_margin(S):
    q = np.linalg.eigvalsh((S + S.T) / 2)
    return q[0], q[-1]


def nearest_psd(S):
    q, V = np.linalg.eigh((S + S.T) / 2)
    return (V * np.maximum(q, 0)) @ V.T
