import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import gen, opt, refs

PROP = Prop("C22", "2-8 assets with distinct expected returns, bounds in every accepted format (default, pair, list of pairs, pair of arrays), boxes "
            "that may fix assets or have lower bounds summing to one; min_volatility against an independent QP, max_sharpe against an independent "
            "tangency programme, either method after any sequence of other calls. Also 10-25 assets. Non-trivial: the weights are not all equal and differ from "
            "the witness by > 1e-4.",
            ["data without exact ties (expected returns differ by at least 0.0007; ties are a recorded finding), positive definite covariances, upper bounds summing to more than one or to exactly one",
             "max_sharpe is compared when some feasible portfolio has a positive return; objectives compared at 1e-6 relative"])
METHODS = ["min_volatility", "max_sharpe"]
# Deterministic jitter keeps the data free of exact ties (two assets reaching their break points
# at the same point of the critical line), which are a recorded finding.
JIT = [math.sqrt(p) % 1.0 for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97)]


def data(case):
    j = np.array([JIT[i] for i in case.get("jit", range(case["n"]))])
    if case.get("exact"):
        return gen.mu_of(case), gen.build_cov(case["cov"])
    sc = 1 + 0.02 * j
    return gen.mu_of(case) + 3e-4 * j, gen.build_cov(case["cov"]) * np.outer(sc, sc)


@st.composite
def cla_case(draw, nmax=8, nmin=2):
    n = draw(st.integers(nmin, nmax))
    short = draw(st.integers(0, 2)) == 0
    w0 = draw(gen.feasible_point(n, short))
    case = dict(n=n, tick=draw(gen.tickers(n)), short=short, neutral=False, w0=w0,
                mu=draw(st.lists(st.integers(-200, 400), min_size=n, max_size=n, unique=True)),
                cov=draw(gen.cov_case(n, ("pd", "pd", "factor", "diag"))), bounds=draw(gen.bounds_case(w0, short)),
                cons=[], sector=None, muc=draw(st.sampled_from(gen.MU_CONT)), covc=draw(st.sampled_from(["df", "nd"])))
    b = case["bounds"]
    if b["fmt"] in ("nonepair", "arraysnan"):
        b["fmt"] = "list"
    case["method"] = draw(st.sampled_from(METHODS))
    case["before"] = draw(st.lists(st.sampled_from(METHODS + ["efficient_frontier", "performance"]), max_size=2))
    return case


def build(case):
    import pypfopt
    mu, S = data(case)
    c = pypfopt.CLA(gen.as_mu(mu, case["muc"], case["tick"]), gen.as_cov(S, case["covc"], case["tick"]), **gen.bounds_kw(case["bounds"]))
    labels = list(case["tick"]) if case["muc"] == "series" else list(range(case["n"]))
    return c, mu, S, labels


def domain(case, F):
    if F.violation(np.array(case["w0"]))[0] > 1e-12:
        raise Skip("outside the domain")
    if F.ub.sum() < 1 or F.lb.sum() > 1:
        raise Skip("bounds meet the budget only up to rounding")


def act(c, name):
    if name == "performance":
        try:
            c.portfolio_performance()
        except ValueError:
            pass
    elif name == "efficient_frontier":
        c.efficient_frontier()
    else:
        getattr(c, name)()


def check(case, rec):
    rec.lib = True
    F = gen.Feas(case)
    domain(case, F)
    c, mu, S, labels = build(case)
    n = case["n"]
    for b in case["before"]:
        act(c, b)
    m = case["method"]
    w = gen.get_weights(getattr(c, m)(), labels, "CLA." + m)
    if not np.array_equal(np.asarray(c.weights, float).reshape(-1), w):
        raise Violation("CLA.%s: weights attribute %s differs from the result %s" % (m, c.weights, w))
    v, d = F.violation(w)
    if not v <= 1e-7:
        raise Violation("CLA.%s: weights %s violate %s by %.3g" % (m, w, d, v))
    scale = max(np.diag(S))
    cands = [np.array(case["w0"])]
    if m == "min_volatility":
        status, ref = refs.min_var(F, S)
        if refs.solved(status):
            cands.append(ref)
        got = float(w @ S @ w)
        for r in cands:
            if F.violation(r)[0] <= 1e-7:
                best = float(r @ S @ r)
                if not got <= best + 2e-7 * scale:
                    raise Violation("CLA.min_volatility: variance %.10g of %s is beaten by the feasible portfolio %s with %.10g"
                                    % (got, np.round(w, 6), np.round(r, 6), best))
    else:
        em = opt.Model(dict(case, kind="EF", method="max_sharpe", par=0.02, mnkw=False))
        em.mu, em.S, em.par = mu, S, 0.0
        ref = em.reference()
        if ref is not None:
            cands.append(ref)
        st_, top = refs.lp(F, -mu)
        if top is None or float(mu @ top) < 1e-3:
            raise Skip("no portfolio with a positive return")
        got = em.sharpe(w)
        for r in cands:
            if F.violation(r)[0] <= 1e-7 and float(mu @ r) > 0:
                best = em.sharpe(r)
                if not got >= best - 1e-6 * max(1.0, abs(best)):
                    raise Violation("CLA.max_sharpe: Sharpe ratio %.10g of %s is beaten by the feasible portfolio %s with %.10g"
                                    % (got, np.round(w, 6), np.round(r, 6), best))
        # on the efficient frontier: no lower variance for the same return
        ret = float(mu @ w)
        status, ref = refs.qp(F, P=2 * S, extra=lambda cone: cone.add_le(np.arange(n), -mu, -ret))
        if refs.solved(status) and F.violation(ref)[0] <= 1e-7 and float(mu @ ref) >= ret - 1e-9:
            if not float(w @ S @ w) <= float(ref @ S @ ref) + 1e-6 * scale:
                raise Violation("CLA.max_sharpe: %s is not on the efficient frontier" % (w,))
    rec.label(m, "bounds=" + case["bounds"]["fmt"], "n=%d" % n, "lb sum 1" if F.lb.sum() == 1 else "box", *["after " + b for b in case["before"]])
    if np.any(F.ub - F.lb == 0):
        rec.label("fixed asset")
    rec.nt(np.ptp(w) > 1e-3 and np.abs(w - np.array(case["w0"])).max() > 1e-4)
    return w


@PROP.sub("optimum", cla_case(), quick=5000)
def o(case, rec):
    check(case, rec)


@PROP.sub("tied_means", cla_case(), quick=0)
def tied(case, rec):
    """Replays the recorded findings only."""
    check(case, rec)


@st.composite
def fcase(draw):
    case = draw(cla_case(6))
    b = case["bounds"]
    opts = ["list", "nd", "tuples"] + (["arrays", "lists"] if case["n"] != 2 else [])
    if b["fmt"] == "default":
        opts.append("pair")
    if b["fmt"] == "pair":
        opts.append("pair")
    case["alt"] = draw(st.sampled_from(opts))
    return case


@PROP.sub("formats", fcase(), quick=1500)
def f(case, rec):
    """The same box in another format, a fresh object, no earlier calls: the same portfolio."""
    rec.lib = True
    F = gen.Feas(case)
    domain(case, F)
    c, mu, S, labels = build(case)
    for b in case["before"]:
        act(c, b)
    m = case["method"]
    if m == "max_sharpe" and min(case["mu"]) <= 0:
        case["mu"] = [x + 201 for x in case["mu"]]
        c, mu, S, labels = build(case)
        for b in case["before"]:
            act(c, b)
    w = gen.get_weights(getattr(c, m)(), labels, m)
    alt = dict(case, bounds=dict(case["bounds"], fmt=case["alt"]))
    c2 = build(alt)[0]
    w2 = gen.get_weights(getattr(c2, m)(), labels, m)
    gen.expect_close(w2, w, "CLA.%s with bounds as %s instead of %s, after %s" % (m, case["alt"], case["bounds"]["fmt"], case["before"]), rtol=0, atol=1e-6)
    rec.label(m, "%s/%s" % (case["bounds"]["fmt"], case["alt"]))
    rec.nt(np.ptp(w) > 1e-3 and (case["alt"] != case["bounds"]["fmt"] or bool(case["before"])))


PROP.sub("wide", cla_case(25, 10), quick=300)(o)
