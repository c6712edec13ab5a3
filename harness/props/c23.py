import math
import numpy as np
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import gen, refs
from . import c22

PROP = Prop("C23", "Frontiers of 2-7 assets with distinct expected returns and generated boxes, 1-200 requested points, before or after the other methods; "
            "every point checked for feasibility and consistency, up to 8 points (with the end points) against an independent QP for efficiency. "
            "Also 10-25 assets. Non-trivial: the frontier has at least three distinct portfolios.",
            ["data without exact ties (expected returns differ by at least 0.0007; ties are a recorded finding), positive definite covariances",
             "the number of points is documented as rough: at least the turning points must be there, whatever is asked for"])


@st.composite
def g(draw, nmax=7, nmin=2):
    case = draw(c22.cla_case(nmax, nmin))
    case["points"] = draw(st.sampled_from([None, 100, 60, 200, 150, 41, 20, 10, 7, 3, 1]))
    case["pick"] = gen.ints(draw, 6, 0, 999)
    return case


def check(case, rec):
    rec.lib = True
    F = gen.Feas(case)
    c22.domain(case, F)
    c, mu, S, labels = c22.build(case)
    n = case["n"]
    for b in case["before"]:
        c22.act(c, b)
    res = c.efficient_frontier() if case["points"] is None else c.efficient_frontier(points=case["points"])
    if not isinstance(res, tuple) or len(res) != 3:
        raise Violation("efficient_frontier returned %r" % type(res))
    rets, sds, W = res
    if not len(rets) == len(sds) == len(W) or not len(W):
        raise Violation("efficient_frontier: lists of lengths %d, %d, %d" % (len(rets), len(sds), len(W)))
    W = [np.asarray(w, float).reshape(-1) for w in W]
    scale = math.sqrt(max(np.diag(S)))
    for k, (r, s, w) in enumerate(zip(rets, sds, W)):
        if w.shape != (n,):
            raise Violation("frontier point %d: weights of shape %s" % (k, w.shape))
        v, d = F.violation(w)
        if not v <= 1e-7:
            raise Violation("frontier point %d: weights %s violate %s by %.3g" % (k, w, d, v))
        if not abs(float(r) - float(mu @ w)) <= 1e-10 * max(1, abs(float(r))):
            raise Violation("frontier point %d: return %r, its weights have %r" % (k, r, float(mu @ w)))
        if not abs(float(s) - math.sqrt(max(0, float(w @ S @ w)))) <= 1e-8 * scale + 1e-12:
            raise Violation("frontier point %d: volatility %r, its weights have %r" % (k, s, math.sqrt(float(w @ S @ w))))
        if k and float(r) > float(rets[k - 1]) + 1e-9:
            raise Violation("frontier point %d: return rises from %r to %r" % (k, rets[k - 1], r))
        if k and float(s) > float(sds[k - 1]) + 1e-8 * scale:
            raise Violation("frontier point %d: volatility rises from %r to %r" % (k, sds[k - 1], s))
    st_, top = refs.lp(F, -mu)
    if top is not None and not float(rets[0]) >= float(mu @ top) - 1e-7:
        raise Violation("frontier starts at return %.10g, the maximum is %.10g (%s)" % (rets[0], float(mu @ top), np.round(top, 6)))
    status, low = refs.min_var(F, S)
    if refs.solved(status) and F.violation(low)[0] <= 1e-7 and not float(sds[-1]) ** 2 <= float(low @ S @ low) + 2e-7 * scale ** 2:
        raise Violation("frontier ends at volatility %.10g, the minimum is %.10g" % (sds[-1], math.sqrt(low @ S @ low)))
    for k in sorted({0, len(W) - 1} | {p % len(W) for p in case["pick"]}):
        w, ret = W[k], float(rets[k])
        status, ref = refs.qp(F, P=2 * S, extra=lambda cone: cone.add_le(np.arange(n), -mu, -ret))
        if not refs.solved(status) or F.violation(ref)[0] > 1e-7 or float(mu @ ref) < ret - 1e-9:
            continue
        if not float(w @ S @ w) <= float(ref @ S @ ref) + 5e-6 * scale ** 2:
            raise Violation("frontier point %d (return %.8g): volatility %.10g, the feasible portfolio %s has the same return and %.10g"
                            % (k, ret, sds[k], np.round(ref, 6), math.sqrt(ref @ S @ ref)))
    fv = c.frontier_values
    if fv is None or list(fv[0]) != list(rets) or list(fv[1]) != list(sds):
        raise Violation("frontier_values differ from the returned frontier")
    rec.label("bounds=" + case["bounds"]["fmt"], "points=%s" % case["points"], "n=%d" % n, *["after " + b for b in case["before"]])
    rec.nt(len({tuple(np.round(w, 5)) for w in W}) >= 3)


@PROP.sub("frontier", g(), quick=2500)
def fr(case, rec):
    check(case, rec)


@PROP.sub("tied_means", g(), quick=0)
def tied(case, rec):
    """Replays the recorded finding only."""
    check(case, rec)


PROP.sub("wide", g(25, 10), quick=240)(fr)
