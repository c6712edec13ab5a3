import numpy as np
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import da, gen

PROP = Prop("C26", "1-5 assets with up to about 20 affordable shares each, weights summing to one or less, prices from 1e-4, in other orders and with extra tickers, default solver (ECOS_BB) or SCIPY's MILP, earlier calls; "
            "compared with exhaustive enumeration of all affordable integer allocations. Also 6-20 assets, against HiGHS on the directly written programme and the greedy and rounded-down allocations. Non-trivial: the optimum holds at least one share and is not the rounded-down allocation.",
            ["a suboptimal answer counts only if the solver gets the same problem, assembled by the harness in up to 24 asset orders, right", "ECOS_BB stops at a relative gap of 1e-3 of an objective shifted by the portfolio value: its objective may exceed the minimum by 1.2e-3 of the value; SCIPY's by 1.2e-4 (HiGHS' gap 1e-4)",
             "ECOS_BB's integrality tolerance of 1e-4: the whole shares may overspend by 2e-4 share prices", "solver time-outs are undecided"])


@st.composite
def g(draw):
    c = draw(da.da_case(nmin=1, nmax=5, shares=(0.7, 1, 2, 3, 5), cash=True, cheap="small"))
    c["before"] = draw(st.lists(st.sampled_from(["greedy", "lp"]), max_size=2))
    c["solver"] = draw(st.sampled_from([None, None, "SCIPY"]))
    c["order2"], c["worder2"] = draw(st.permutations(list(range(c["n"])))), draw(st.permutations(list(range(c["n"]))))
    return c


def solver_errs(w, p, V, solver, allowed):
    """The solver itself gives a wrong answer to this problem (HiGHS 1.2 in scipy 1.13 does now and then)."""
    import itertools
    import cvxpy as cp
    n = len(w)
    for k, order in enumerate(itertools.permutations(range(n))):
        if k >= 24:
            return False
        pp, ww = np.array([p[i] for i in order]), np.array([w[i] for i in order])
        x, u = cp.Variable(n, integer=True), cp.Variable(n)
        r = V - pp @ x
        eta = ww * V - cp.multiply(x, pp)
        prob = cp.Problem(cp.Minimize(cp.sum(u) + r), [eta <= u, eta >= -u, x >= 0, r >= 0])
        try:
            prob.solve(solver=solver or "ECOS_BB")
        except cp.error.SolverError:
            continue
        if prob.status not in ("optimal", "optimal_inaccurate"):
            continue
        y = [0] * n
        for i, v in zip(order, np.rint(x.value)):
            y[i] = int(v)
        if not da.long_objective(w, p, V, y) <= allowed:
            return True
    return False


def check_long(case, x, left, w, p, V, solver, what, best=None):
    cost = sum(a * b for a, b in zip(x, p))
    slack = 2e-4 * sum(p) + 1e-6 * V
    if not left >= -slack or not V - cost >= -slack:
        raise Violation("%s: shares %s cost %r, leftover %r, value %r" % (what, x, cost, left, V))
    if not abs(cost + left - V) <= 1e-9 * V:
        raise Violation("%s: shares worth %r and leftover %r, value %r" % (what, cost, left, V))
    best, arg = best or da.best_long(w, p, V)
    obj = da.long_objective(w, p, V, x)
    rel = 1.2e-4 if solver == "SCIPY" else 1.2e-3
    allowed = best + rel * max(best, V - best) + slack + 1e-5 * V
    if not obj <= allowed and not solver_errs(w, p, V, solver, allowed):
        raise Violation("%s: objective %.8g of %s is beaten by %s with %.8g (weights %s, prices %s, value %s)" % (what, obj, x, arg, best, w, p, V))
    return arg


def solve(o, solver, **kw):
    import cvxpy as cp
    from pypfopt import exceptions
    try:
        return o.lp_portfolio(**({} if solver is None else dict(solver=solver)), **kw)
    except (cp.error.SolverError, exceptions.OptimizationError) as e:
        raise Skip("solver gave up")


@PROP.sub("lp", g(), quick=3000)
def lp(case, rec):
    rec.lib = True
    if not sum(case["w"]) <= 1.1 or not any(x > 0 for x in case["w"]):
        raise Skip("weights sum to more than about one")
    V = 10000 if case["vdef"] else case["V"]
    da.best_long(case["w"], case["p"], V)
    o = da.build(case)
    for b in case["before"]:
        o.greedy_portfolio() if b == "greedy" else solve(o, None)
    what = "lp_portfolio(%s) after %s" % (case["solver"], case["before"])
    res = solve(o, case["solver"], verbose=case["verbose"])
    x, left = da.shares(res, case, what)
    arg = check_long(case, x, left, case["w"], case["p"], V, case["solver"], what)
    if o.allocation != res[0]:
        raise Violation("%s: allocation attribute %r, result %r" % (what, o.allocation, res[0]))
    if case["order2"] != case["order"] or case["worder2"] != case["worder"]:
        o2 = da.build(case, order=case["order2"], worder=case["worder2"], extra=0)
        x2, left2 = da.shares(solve(o2, case["solver"]), case, what)
        check_long(case, x2, left2, case["w"], case["p"], V, case["solver"], what + ", other order")
    rec.label("n=%d" % case["n"], "avg shares %s" % case["k"], "solver=%s" % case["solver"], "part in cash" if sum(case["w"]) < 0.97 else "fully invested", "cheap" if min(case["p"]) < 0.01 else "from 1 cent", *["after " + b for b in case["before"]])
    rec.nt(any(arg) and arg != [da.floor_share(w, V, p) for w, p in zip(case["w"], case["p"])])


@st.composite
def g_wide(draw):
    c = draw(da.da_case(nmin=6, nmax=20, shares=(0.7, 1, 2, 5, 20, 60), cash=True, cheap="some"))
    c["solver"] = draw(st.sampled_from([None, "SCIPY", "SCIPY"]))
    return c


@PROP.sub("wide", g_wide(), quick=150)
def wide(case, rec):
    """More assets than can be enumerated: no worse than HiGHS on the programme written directly, nor than the greedy and the rounded-down allocations."""
    rec.lib = True
    if not sum(case["w"]) <= 1.1 or not any(x > 0 for x in case["w"]):
        raise Skip("weights sum to more than about one")
    w, p, V = case["w"], case["p"], 10000 if case["vdef"] else case["V"]
    what = "lp_portfolio(%s), %d assets" % (case["solver"], case["n"])
    cand = [da.milp_long(w, p, V)]
    if sum(w) <= 1:
        x = [da.floor_share(a, V, b) for a, b in zip(w, p)]
        cand.append((da.long_objective(w, p, V, x), x))
    g_, _ = da.shares(da.build(case).greedy_portfolio(), case, "greedy_portfolio")
    if all(v >= 0 for v in g_) and sum(a * b for a, b in zip(g_, p)) <= V * (1 + 1e-12):
        cand.append((da.long_objective(w, p, V, g_), g_))
    best = min(c for c in cand if c is not None)
    x, left = da.shares(solve(da.build(case), case["solver"]), case, what)
    check_long(case, x, left, w, p, V, case["solver"], what, best)
    rec.label("n=%d" % case["n"], "avg shares %s" % case["k"], "solver=%s" % case["solver"], "part in cash" if sum(case["w"]) < 0.97 else "fully invested", "cheap" if min(case["p"]) < 0.01 else "from 1 cent")
    rec.nt(any(x) and x != [da.floor_share(a, V, b) for a, b in zip(w, p)])
