from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import da, gen

PROP = Prop("C25", "1-12 assets with distinct weights (zeros, rounded to 2-5 decimals, summing to about one or less), prices from 0.0001, positions of 0.3 to 40 shares on average, "
            "values 50 to 2,500,000, extra tickers in the prices, verbose or not; other orders of dict and prices; earlier greedy/lp calls on the object. "
            "Also 13-40 assets. Non-trivial: at least one share was bought and cash is left.",
            ["the rounded-down share is floor(w*value/price - 1e-9), required where the weights sum to at most one",
             "below target means the asset's share of the amount invested is more than 1e-9 below its weight; checked up to ten assets, as documented",
             "distinct weights (between equal weights the order of the dict decides)"])


@st.composite
def g(draw, **size):
    c = draw(da.da_case(cash=True, cheap=True, **size))
    if draw(st.integers(0, 4)) == 0:
        # whole numbers of shares, with the last position just about affordable
        V = 10000 if c["vdef"] else c["V"]
        c["p"] = [max(0.01, round(x * V / k, 2)) if x > 0 else q for x, k, q in zip(c["w"], gen.ints(draw, c["n"], 1, 6), c["p"])]
        j = draw(st.integers(0, c["n"] - 1))
        c["w"][j] = round(c["w"][j] + draw(st.sampled_from([0.0, 0.001, 0.004, 0.01, 0.03])), 5)
    c["before"] = draw(st.lists(st.sampled_from(["greedy", "greedy_v"] + (["lp"] if c["n"] <= 5 and c["k"] <= 10 else [])), max_size=2))
    c["order2"], c["worder2"] = draw(st.permutations(list(range(c["n"])))), draw(st.permutations(list(range(c["n"]))))
    return c


def check_long(case, x, left, w, p, V, what):
    cost = sum(a * b for a, b in zip(x, p))
    if not left >= -1e-9 * V:
        raise Violation("%s: leftover %r is negative" % (what, left))
    if not abs(cost + left - V) <= 1e-9 * V:
        raise Violation("%s: shares worth %r and leftover %r, value %r" % (what, cost, left, V))
    if sum(w) <= 1:
        for i, n in enumerate(x):
            f = da.floor_share(w[i], V, p[i])
            if n < f:
                raise Violation("%s: %d shares of asset %d (weight %r at %r), at least %d expected" % (what, n, i, w[i], p[i], f))
    if len(w) <= 10:
        for i in range(len(w)):
            share = x[i] * p[i] / cost if cost > 0 else 0.0
            if p[i] < left * (1 - 1e-9) and w[i] - share > 1e-9:
                raise Violation("%s: asset %d at %r is affordable from the leftover %r and has %.6g of the investment, target %.6g (shares %s)"
                                % (what, i, p[i], left, share, w[i], x))


@PROP.sub("greedy", g(), quick=8000)
def greedy(case, rec):
    rec.lib = True
    if len(set(case["w"])) < case["n"]:
        raise Skip("equal weights")
    if not sum(case["w"]) <= 1.1 or not any(x > 0 for x in case["w"]):
        raise Skip("weights sum to more than about one")
    V = 10000 if case["vdef"] else case["V"]
    o = da.build(case)
    for b in case["before"]:
        o.lp_portfolio() if b == "lp" else o.greedy_portfolio(verbose=b == "greedy_v")
    what = "greedy_portfolio after %s" % case["before"]
    res = o.greedy_portfolio(verbose=case["verbose"]) if case["verbose"] else o.greedy_portfolio()
    x, left = da.shares(res, case, what)
    check_long(case, x, left, case["w"], case["p"], V, what)
    if o.allocation != res[0]:
        raise Violation("%s: allocation attribute %r, result %r" % (what, o.allocation, res[0]))
    o2 = da.build(case, order=case["order2"], worder=case["worder2"], extra=0)
    x2, left2 = da.shares(o2.greedy_portfolio(), case, "greedy_portfolio")
    if x2 != x or not abs(left2 - left) <= 1e-9 * V:
        raise Violation("greedy_portfolio: shares %s become %s with another order of weights and prices, without extra tickers and earlier calls" % (x, x2))
    rec.label("n=%d" % case["n"], "avg shares %s" % case["k"], "decimals %s" % case["dec"], "sum>1" if sum(case["w"]) > 1 else "sum<=1", "part in cash" if sum(case["w"]) < 0.97 else "fully invested", "cheap" if min(case["p"]) < 0.01 else "from 1 cent",
              "more than the rounded-down shares" if any(a > da.floor_share(w, V, p) for a, w, p in zip(x, case["w"], case["p"])) else "rounded down only",
              *["after " + b for b in case["before"]])
    rec.nt(any(x) and left > 0)


PROP.sub("wide", g(nmin=13, nmax=40), quick=900)(greedy)
