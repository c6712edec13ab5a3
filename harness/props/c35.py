"""Solver settings: the solver and options asked for are the ones used, and they do not change what is found."""
import contextlib
import numpy as np
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import da, gen, opt, util
from . import c26

PROP = Prop("C35", "All four optimiser classes and methods (bounds, constraints, sectors, extra objectives, market neutrality), with each installed solver that fits and one to three of its options, over one to three "
            "calls on an object and on its copy; lp_portfolio with each mixed-integer solver, long-only and long/short; nonconvex_objective with scipy's constrained methods. Every solve handed to cvxpy or scipy is recorded "
            "and the result is compared with the same call under tight Clarabel settings. Non-trivial: a solver other than the default was used and weights (or shares) were found.",
            ["recorded at cvxpy.Problem.solve and scipy.optimize.minimize; a call that reaches neither is left undecided", "objective values agree at 1e-3 of their scale (ECOS, Clarabel, OSQP and SCS with the options drawn)",
             "calls in which a solver gives up or reports an inaccurate solution are left undecided"])

OPTIONS = {
    "CLARABEL": [dict(max_iter=150), dict(tol_gap_abs=1e-9, tol_gap_rel=1e-9), dict(tol_feas=1e-9), dict(max_iter=180, tol_feas=1e-9, equilibrate_enable=True)],
    "ECOS": [dict(max_iters=300), dict(abstol=1e-9, reltol=1e-9), dict(feastol=1e-9, max_iters=250)],
    "SCS": [dict(eps_abs=1e-8, eps_rel=1e-8, max_iters=100000), dict(eps_abs=1e-8, eps_rel=1e-8, max_iters=90000, acceleration_lookback=5)],
    None: [dict(ignore_dpp=True), dict(warm_start=False), dict(enforce_dpp=False, ignore_dpp=True)],
    "OSQP": [dict(eps_abs=1e-9, eps_rel=1e-9, max_iter=200000), dict(eps_abs=1e-9, eps_rel=1e-9, max_iter=150000, polishing=True)],
}


@contextlib.contextmanager
def recorded(target, name):
    """Keyword arguments of every call of target.name."""
    calls = []
    orig = getattr(target, name)

    def spy(*a, **k):
        calls.append((a, dict(k)))
        k.pop("verbose", None)      # cvxpy's log goes to the real output
        return orig(*a, **k)
    setattr(target, name, spy)
    try:
        yield calls
    finally:
        setattr(target, name, orig)


@st.composite
def g(draw):
    kind = draw(st.sampled_from(["EF", "EF", "SV", "CVAR", "CDAR"]))
    case = draw(opt.opt_case(kind, None, nmax=4, nonlinear=True, finite=True, cov_kinds=("pd", "factor", "diag"), objs=(0, 1)))
    s = draw(st.sampled_from(["CLARABEL", "ECOS", "ECOS", "SCS", "OSQP"]))
    if draw(st.integers(0, 6)) == 0:
        s = None                        # options of cvxpy itself, with its choice of solver
    case.update(name=s, opts=draw(st.sampled_from(OPTIONS[s])), noopts=draw(st.integers(0, 4)) == 0 and s in ("CLARABEL", "ECOS"), verbose=draw(st.integers(0, 5)) == 0,
                again=draw(st.integers(0, 2)), copy=draw(st.integers(0, 4)) == 0)
    return case


@PROP.sub("convex", g(), quick=900)
def convex(case, rec):
    import cvxpy as cp
    from pypfopt import exceptions
    m = opt.Model(case)
    if not m.in_domain():
        raise Skip("outside the domain")
    m.require_attained()
    rec.lib = True
    ref = m.build()
    try:
        w0 = util.weights(ref, util.must(m.run, m.name, ref), m.labels, m.name)
    except Violation:
        raise Skip("reference call failed")     # decided by other properties
    opts = {} if case["noopts"] else dict(case["opts"])
    kw = dict(solver=case["name"], solver_options=opts or None)
    if case["verbose"]:
        kw["verbose"] = True
    o = m.build(**kw)
    if case["copy"]:
        o = o.deepcopy()
    what = "%s with solver=%s, solver_options=%s" % (m.name, case["name"], opts)
    res = None
    with recorded(cp.Problem, "solve") as calls:
        for _ in range(1 + (case["again"] if m.method in ("max_quadratic_utility", "efficient_risk", "efficient_return") else 0)):
            try:
                kind, res = util.call(m.run, o)
            except Skip:
                kind, res = "skip", None
            if kind != "ok":
                break
    if not calls:
        raise Skip("no solve recorded")
    for a, k in calls:
        given = k.get("solver", a[1] if len(a) > 1 else None)
        if given != case["name"]:
            raise Violation("%s: solved with solver=%s" % (what, given))
        for name, v in opts.items():
            if name not in k or k[name] != v:
                raise Violation("%s: option %s was not handed to the solver (%s)" % (what, name, {x: y for x, y in k.items()}))
        if bool(k.get("verbose", False)) != case["verbose"]:
            raise Violation("%s: solver verbosity %s although %s was asked for" % (what, k.get("verbose"), case["verbose"]))
    rec.label(m.name, case["name"], *sorted(opts))
    if kind == "err" and not isinstance(res, (ValueError, TypeError)):
        raise res
    if kind != "ok":
        if kind != "skip":
            rec.label("refused")
        return
    w = util.weights(o, res, m.labels, what)
    if case["name"] is None:
        rec.nt(bool(opts))              # the default tolerances: see C01
        return
    util.feasible(m.F, w, 2e-3 * max(1.0, np.abs(w).max()), what)
    if m.method == "max_sharpe":
        if m.ret(w0) > m.par + 1e-3 and not m.sharpe(w) >= m.sharpe(w0) - 1e-2 * max(1.0, abs(m.sharpe(w0))):
            raise Violation("%s: Sharpe ratio %.8g, with CLARABEL %.8g" % (what, m.sharpe(w), m.sharpe(w0)))
    elif m.target_miss(w) <= 5e-3:
        # a default tolerance is absolute, so compare on the scale of the objective or of ordinary returns
        t = 2e-3 * max(m.obj_scale(w0), m.obj_scale(w), 1e-2 if not opts else 0)
        if not m.obj(w) <= m.obj(w0) + t:
            raise Violation("%s: objective %.8g of %s, with CLARABEL %.8g of %s" % (what, m.obj(w), np.round(w, 5), m.obj(w0), np.round(w0, 5)))
    elif m.method in ("efficient_risk", "efficient_return"):
        raise Skip("target missed by this solver")
    rec.nt(case["name"] != "CLARABEL" or bool(opts))


# ------------------------------------------------------------------ integer programs

@st.composite
def lpg(draw):
    c = draw(da.da_case(nmin=2, nmax=4, shares=(0.3, 1, 3), signed=draw(st.booleans())))
    c.update(solver=draw(st.sampled_from([None, "ECOS_BB", "SCIPY", "SCIPY"])), ratio=draw(st.sampled_from([None, 0.3, 0.5])), reinvest=draw(st.booleans()), positional=draw(st.booleans()))
    return c


@PROP.sub("integer", lpg(), quick=500)
def integer(case, rec):
    import cvxpy as cp
    rec.lib = True
    shorts = any(x < 0 for x in case["w"])
    if not shorts and not (0.9 <= sum(case["w"]) <= 1.1 and any(x > 0 for x in case["w"])):
        raise Skip("weights do not sum to about one")
    if not any(x > 0 for x in case["w"]):
        raise Skip("no long position")
    o = da.build(case, **({} if case["ratio"] is None else dict(short_ratio=case["ratio"])))
    s = case["solver"]
    with recorded(cp.Problem, "solve") as calls:
        if s is None:
            res = o.lp_portfolio(reinvest=case["reinvest"])
        elif case["positional"]:
            res = o.lp_portfolio(case["reinvest"], False, s)
        else:
            res = o.lp_portfolio(reinvest=case["reinvest"], solver=s)
    if not calls:
        raise Skip("no solve recorded")
    want = s or "ECOS_BB"
    for a, k in calls:
        given = k.get("solver", a[1] if len(a) > 1 else None)
        if given != want:
            raise Violation("lp_portfolio(solver=%s): solved with %s" % (s, given))
    if shorts and len(calls) < 2 and (case["ratio"] is None or case["ratio"] > 0):
        raise Violation("lp_portfolio(solver=%s) of a long/short portfolio solved %d problem" % (s, len(calls)))
    da.shares(res, case, "lp_portfolio(solver=%s)" % s, sign=0)
    rec.label("solver=%s" % s, "short" if shorts else "long")
    rec.nt(s == "SCIPY" and bool(res[0]))


# ------------------------------------------------------------------ scipy

@st.composite
def scg(draw):
    n = draw(st.integers(2, 4))
    return dict(n=n, tick=draw(gen.tickers(n)), mu=gen.mu_ints(draw, n), cov=draw(gen.cov_case(n, ("pd", "diag"))), muc="series", covc=draw(st.sampled_from(["df", "nd"])),
                t=[x / 20.0 for x in gen.ints(draw, n, -10, 20)], solver=draw(st.sampled_from([None, "SLSQP", "trust-constr", "COBYLA", "Nelder-Mead", "L-BFGS-B", "Powell"])),
                sum1=draw(st.booleans()), args=draw(st.sampled_from(["tuple", "one"])), guess=draw(st.sampled_from([None, "flat", "col"])))


@PROP.sub("scipy", scg(), quick=400)
def scipy_(case, rec):
    import scipy.optimize
    import pypfopt
    rec.lib = True
    n, s = case["n"], case["solver"]
    if s in ("Nelder-Mead", "L-BFGS-B", "Powell", "COBYLA"):
        case["sum1"] = False        # no equality constraints
    lo, hi = -0.25, 0.75
    ef = pypfopt.EfficientFrontier(gen.as_mu(gen.mu_of(case), "series", case["tick"]), gen.as_cov(gen.build_cov(case["cov"]), case["covc"], case["tick"]), weight_bounds=(lo, hi))
    t = np.array(case["t"])
    kw = dict(objective_args=(t,) if case["args"] == "tuple" else t, weights_sum_to_one=case["sum1"])
    if s is not None:
        kw["solver"] = s
    if case["guess"]:
        x0 = np.linspace(0.1, 0.3, n)
        kw["initial_guess"] = x0 if case["guess"] == "flat" else x0.reshape(-1, 1)
    with recorded(scipy.optimize, "minimize") as calls:
        res = ef.nonconvex_objective(lambda w, t: ((w - t) ** 2).sum(), **kw)
    what = "nonconvex_objective(solver=%s, weights_sum_to_one=%s)" % (s, case["sum1"])
    for a, k in calls:
        given = k.get("method", a[3] if len(a) > 3 else None)
        if given != (s or "SLSQP"):
            raise Violation("%s: minimised with method=%s" % (what, given))
    w = util.weights(ef, res, list(case["tick"]), what)
    if not case["sum1"]:
        best = np.clip(t, lo, hi)
    else:
        a, b = -10.0, 10.0
        for _ in range(200):
            c = (a + b) / 2
            a, b = (c, b) if np.clip(t + c, lo, hi).sum() < 1 else (a, c)
        best = np.clip(t + a, lo, hi)
        if abs(best.sum() - 1) > 1e-6:
            raise Skip("bounds do not admit a full investment")
    near = s in (None, "SLSQP", "L-BFGS-B")     # the others may stop early
    if near and not np.abs(w - best).max() <= 1e-3:
        # SLSQP's line search can stop early, depending on the last bits
        x0 = np.linspace(0.1, 0.3, n) if case["guess"] else np.full(n, 1.0 / n)
        con = [{"type": "eq", "fun": lambda w: np.sum(w) - 1}] if case["sum1"] else []
        for x in (x0, x0 + 1e-8, x0 - 1e-8, x0 * (1 + 1e-9)):
            d = scipy.optimize.minimize(lambda w: ((w - t) ** 2).sum(), x, method=s or "SLSQP", bounds=[(lo, hi)] * n, constraints=con)
            if not np.abs(d.x - best).max() <= 1e-3:
                raise Skip("scipy itself does not get there")
    if near and not np.abs(w - best).max() <= 1e-3 or not (w.min() >= lo - 1e-3 and w.max() <= hi + 1e-3):
        raise Violation("%s: weights %s, the optimum is %s" % (what, np.round(w, 5), np.round(best, 5)))
    rec.label("solver=%s" % s, "sum" if case["sum1"] else "free")
    rec.nt(s not in (None, "SLSQP"))
