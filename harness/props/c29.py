import warnings
import numpy as np
import pandas as pd
import scipy.optimize as sco
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import gen, refs, util

PROP = Prop("C29", "2-6 assets, the four convex optimisers, every bounds format (with unbounded sides), strictly convex quadratic objectives of order one given through args as a tuple, a single "
            "array, no argument, or the library's functions, feasible initial guesses of both shapes or none, up to two extra linear scipy constraints, sum-to-one on or off, SLSQP by default or "
            "by name, one or two calls on one object. The first point evaluated and the arguments received are recorded. Non-trivial: some bound or constraint other than the sum binds or the optimum differs from the guess by > 1e-3.",
            ["objective compared at 1e-4 of its size with an interior-point reference; runs where the same scipy call made directly does not report success are undecided"])


@st.composite
def one_call(draw, case, w0):
    n = case["n"]
    cons = []
    one = draw(st.sampled_from([None, True, False, False]))
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
        a = [x / 2.0 for x in gen.ints(draw, n, -3, 4)]
        if draw(st.booleans()):
            i = draw(st.integers(0, n - 1))
            a = [0.0] * n
            a[i] = 1.0
        if not any(a):
            a[0] = 1.0
        v = float(np.dot(a, w0))
        eq = draw(st.integers(0, 3)) == 0
        cons.append(dict(a=a, b=v if eq else v - draw(st.sampled_from([0.0, 0.02, 0.1])), eq=eq))
    return dict(cov=draw(gen.cov_case(n, ("pd", "diag", "pd"))), c=[x / 20.0 for x in gen.ints(draw, n, -20, 20)], scale=draw(st.sampled_from([20.0, 5.0, 100.0])),
                one=one, cons=cons, guess=draw(st.sampled_from([None, "flat", "flat", "col", "list"] + (["zero", "zero"] if one is False else []))), args=draw(st.sampled_from(["tuple3", "tuple1", "single", "singlelist", "singledict", "singledf", "empty", "libvar", "libutil"])),
                solver=draw(st.sampled_from([None, None, None, "SLSQP"])), passnone=draw(st.booleans()))


@st.composite
def g(draw):
    n = draw(st.integers(2, 6))
    short = draw(st.integers(0, 2)) == 0
    w0 = draw(gen.feasible_point(n, short))
    case = dict(n=n, tick=draw(gen.tickers(n)), w0=w0, bounds=draw(gen.bounds_case(w0, short, False)), mu=gen.mu_ints(draw, n), cov=draw(gen.cov_case(n, ("pd", "diag"))),
                ret=draw(gen.returns_case(n, 4, 8)), kind=draw(st.sampled_from(["EF", "EF", "EF", "SV", "CVAR", "CDAR"])), muc="series", covc="df")
    case["calls"] = [draw(one_call(case, w0)) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    return case


def build(case):
    import pypfopt
    from pypfopt.efficient_frontier import EfficientCDaR, EfficientCVaR, EfficientSemivariance
    kw = gen.bounds_kw(case["bounds"])
    mu = gen.as_mu(gen.mu_of(case), "series", case["tick"])
    if case["kind"] == "EF":
        return pypfopt.EfficientFrontier(mu, gen.as_cov(gen.build_cov(case["cov"]), "df", case["tick"]), **kw)
    R = pd.DataFrame(gen.build_returns(case["ret"]), columns=list(case["tick"]))
    return dict(SV=EfficientSemivariance, CVAR=EfficientCVaR, CDAR=EfficientCDaR)[case["kind"]](mu, R, **kw)


def objective(k, seen):
    """(function, objective_args or None, Q, c): minimise w'Qw + c'w"""
    from pypfopt import objective_functions as of
    Q, c, s = gen.build_cov(k["cov"]), np.array(k["c"]), k["scale"]
    A = k["args"]
    if A == "tuple3":
        def f(w, Qm, cv, kk):
            seen.append((w.copy(), (Qm, cv, kk)))
            return kk * (w @ Qm @ w) + cv @ w
        return f, (Q, c, s), s * Q, c
    if A == "tuple1":
        def f(w, Qm):
            seen.append((w.copy(), (Qm,)))
            return s * (w @ Qm @ w) + c @ w
        return f, (Q,), s * Q, c
    if A == "single":
        def f(w, Qm):
            seen.append((w.copy(), (Qm,)))
            return s * (w @ Qm @ w) + c @ w
        return f, Q, s * Q, c
    if A == "singlelist":
        def f(w, cv):
            seen.append((w.copy(), (cv,)))
            return s * (w @ Q @ w) + np.dot(cv, w)
        return f, [float(x) for x in c], s * Q, c
    if A == "singledict":
        def f(w, d):
            seen.append((w.copy(), (d,)))
            return d["s"] * (w @ Q @ w) + c @ w
        return f, dict(s=s), s * Q, c
    if A == "singledf":
        def f(w, d):
            seen.append((w.copy(), (d,)))
            return s * (w @ d.values @ w) + c @ w
        return f, pd.DataFrame(Q), s * Q, c
    if A == "empty":
        def f(w):
            seen.append((w.copy(), ()))
            return s * (w @ Q @ w) + c @ w
        return f, (), s * Q, c
    if A == "libvar":
        return of.portfolio_variance, s * Q, s * Q, 0 * c
    return of.quadratic_utility, (-c, Q, 2 * s), s * Q, c


@PROP.sub("convex", g(), quick=2500)
def convex(case, rec):
    rec.lib = True
    n = case["n"]
    F1 = gen.Feas(dict(bounds=case["bounds"]), total=1)
    if F1.violation(case["w0"])[0] > 1e-9:
        raise Skip("outside the domain")
    o = build(case)
    for num, k in enumerate(case["calls"]):
        total = None if k["one"] is False else 1
        F = gen.Feas(dict(bounds=case["bounds"]), total=total)
        cons = []
        for q in k["cons"]:
            a, b = np.array(q["a"]), q["b"]
            cons.append({"type": "eq" if q["eq"] else "ineq", "fun": lambda w, a=a, b=b: a @ w - b})
            if q["eq"]:
                F.Aeq, F.beq = np.vstack([F.Aeq.reshape(-1, n), a]), np.append(F.beq, b)
            else:
                F.Aub, F.bub = np.vstack([F.Aub.reshape(-1, n), -a]), np.append(F.bub, -b)
        seen = []
        fn, args, Q, c = objective(k, seen)
        kw = {}
        if args is not None:
            kw["objective_args"] = args
        if k["one"] is not None:
            kw["weights_sum_to_one"] = k["one"]
        if cons or k["passnone"]:
            kw["constraints"] = cons
        if k["solver"]:
            kw["solver"] = k["solver"]
        g0 = np.array(case["w0"])
        if k["guess"]:
            if k["guess"] == "zero":        # weights that sum to zero
                g0 = np.round(g0 - g0.mean(), 6)
                g0[0] -= g0.sum()
            kw["initial_guess"] = {"zero": g0.copy(), "flat": g0.copy(), "col": g0.reshape(-1, 1).copy(), "list": [float(x) for x in g0]}[k["guess"]]
        what = "call %d, nonconvex_objective(%s; args %s, one=%s, %d constraints, guess %s, %s)" % (num, case["kind"], k["args"], k["one"], len(cons), k["guess"], k["solver"])
        val = lambda w: float(w @ Q @ w + c @ w)
        ncons = len(cons)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = o.nonconvex_objective(fn, **kw)
        w = util.weights(o, res, case["tick"], what)
        if len(cons) != ncons:
            raise Violation("%s changed the caller's constraint list" % what)
        if seen:
            x0, got = seen[0]
            if len(got) != len(args if isinstance(args, tuple) else (args,)) or not all(np.array_equal(x, y) for x, y in zip(got, args if isinstance(args, tuple) else (args,))):
                raise Violation("%s: the objective received %r" % (what, got))
            want0 = g0 if k["guess"] else np.full(n, 1.0 / n)
            want0 = np.clip(want0, F.lb, F.ub)
            if not np.allclose(x0, want0, rtol=0, atol=1e-6):
                raise Violation("%s: started from %s, expected %s" % (what, x0, want0))
        status, r = refs.qp(F, 2 * Q, c)
        if not refs.solved(status) or F.violation(r)[0] > 1e-7:
            raise Skip("no reference solution")
        scale = max(1.0, abs(val(r)), np.abs(Q).max(), np.abs(c).max()) * max(1.0, np.abs(r).max()) ** 2
        v, d = F.violation(w)
        ft = 1e-5
        bad = None
        if not v <= ft * max(1.0, np.abs(w).max()):
            bad = "%s: returned weights %s violate %s by %.3g" % (what, np.round(w, 6), d, v)
        elif not val(w) <= val(r) + 1e-4 * scale:
            bad = "%s: objective %.8g of %s is beaten by %s with %.8g" % (what, val(w), np.round(w, 6), np.round(r, 6), val(r))
        if bad:
            if not direct_ok(F, total, cons, fn, args if args is not None else (), g0 if k["guess"] else np.full(n, 1.0 / n), k["solver"] or "SLSQP", val, r, scale, ft):
                raise Skip("scipy itself does not get there")
            raise Violation(bad)
        bind = min(np.min(w - F.lb), np.min(F.ub - w), np.min(F.bub - F.Aub @ w) if len(F.bub) else 1.0) < 1e-4
        rec.nt(bind or np.abs(w - g0).max() > 1e-3)
        rec.label(case["kind"], "args=" + k["args"], "one=%s" % k["one"], "guess=%s" % k["guess"], "solver=%s" % k["solver"], "cons=%d" % len(cons), "bounds=" + case["bounds"]["fmt"])


def direct_ok(F, total, cons, fn, args, x0, solver, val, r, scale, ft):
    """Does scipy, called directly on the same problem, get it right whatever the rounding?

    SLSQP's line search is sensitive to the last bits of the objective and to the order
    of the constraints, so a few equivalent statements of the problem are tried."""
    one = [] if total is None else [{"type": "eq", "fun": lambda w: np.sum(w) - 1}]
    args = args if isinstance(args, tuple) else (args,)
    f = lambda w: fn(w, *args)
    for fun, x, final in ((f, x0, one + cons), (f, x0, cons + one), (val, x0, one + cons), (lambda w: fn(np.array(w), *args) + 0.0, np.clip(x0, F.lb, F.ub), one + cons),
                          (f, x0 * (1 + 1e-9), one + cons), (f, x0 + 1e-8, one + cons), (f, x0 - 1e-8, one + cons)):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s = sco.minimize(fun, x, method=solver, bounds=list(zip(F.lb, F.ub)), constraints=final)
        if not (bool(s.success) and F.violation(s.x)[0] <= ft / 2 * max(1.0, np.abs(s.x).max()) and val(s.x) <= val(r) + 0.5e-4 * scale):
            return False
    return True