import numpy as np
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import gen, opt, refs, util

PROP = Prop("C01", "Every method of the four convex optimisers on universes of 2-9 assets with random data, weight bounds in every accepted format, "
            "0-4 constraints in many written forms, sector maps, market-neutral or fully invested, around a known feasible portfolio (so a result "
            "is owed); and the same with a contradiction planted (so an exception is owed). Also 10-24 assets with samples of 25-60 periods. Non-trivial: some bound or constraint other than the "
            "budget is active, or the contradiction was refused.",
            ["solver=CLARABEL with tight tolerances (2e-6); default solver at 5e-3", "max_sharpe: affine, l1 and linf constraints; see the known finding for others"])


def active(F, w):
    n = 0
    n += int(np.sum(w - F.lb < 1e-4)) + int(np.sum(F.ub - w < 1e-4))
    for a, b in zip(F.Aub, F.bub):
        n += abs(float(a @ w) - b) < 1e-4
    n += max(0, len(F.Aeq) - 1)
    for c in F.nl:
        n += F.nlval(c, w) > c["b"] - 1e-4
    return n


@st.composite
def g(draw):
    case = draw(opt.opt_case(nmax=draw(st.sampled_from([5, 9])), objs=(0, draw(st.sampled_from([0, 0, 1])))))
    if case["method"] == "max_sharpe":
        case["objs"] = []
        case["rf0"] = draw(st.booleans())
    case["perf_first"] = draw(st.booleans())
    return case


def check(case, rec, **kw):
    m = opt.Model(case)
    w = m.solve_and_check(rec, optimal=False, **kw)
    rec.nontrivial = False
    rec.nt(active(m.F, w) > 0)
    return m, w


@PROP.sub("feasible", g(), quick=4000)
def feasible(case, rec):
    check(case, rec)


@PROP.sub("max_sharpe_nonhomogeneous", st.none(), quick=0)
def kf(case, rec):
    """Replays the recorded finding only."""
    check(case, rec)


@st.composite
def g_default(draw):
    case = draw(opt.opt_case(nmax=5, cov_kinds=("pd", "diag", "factor"), nonlinear=True))
    case["solver"] = "default"
    return case


@PROP.sub("default_solver", g_default(), quick=800)
def default(case, rec):
    m = opt.Model(case)
    if not m.in_domain():
        raise Skip("outside the domain")
    m.require_attained()
    rec.lib = True
    o = m.build()
    res = util.must(m.run, m.name, o)
    w = util.weights(o, res, m.labels, m.name)
    util.feasible(m.F, w, 2e-2 * max(1.0, np.abs(w).max()), m.name)
    m.labels_for(rec)
    rec.nt(active(m.F, w) > 0)


@st.composite
def g_inf(draw):
    case = draw(opt.opt_case(nmax=5, cov_kinds=("pd", "diag", "factor"), nonlinear=True, finite=True))
    case["how"] = draw(st.sampled_from(["ub", "lb", "eq", "con", "vec", "sector_lo", "sector_up", "cross"]))
    case["i"] = draw(st.integers(0, case["n"] - 1))
    case["gap"] = draw(st.sampled_from([0.05, 0.2, 1.0]))
    case["form"] = draw(st.integers(0, 6))
    return case


@PROP.sub("infeasible", g_inf(), quick=2000)
def infeasible(case, rec):
    n, how, gap, i = case["n"], case["how"], case["gap"], case["i"]
    total = 0 if case["neutral"] else 1
    case["cons"] = list(case["cons"])
    F = gen.Feas(case, total=total)
    case["sector"] = case["sector"] if how not in ("sector_lo", "sector_up") else None
    if how in ("ub", "lb") and case["neutral"]:
        how = "eq"
    if how == "ub":
        v = (1 - gap) / n
        case["bounds"] = dict(fmt=["pair", "list"][case["form"] % 2], lb=[min(0.0, v - 0.1)] * n, ub=[v] * n)
    elif how == "lb":
        v = (1 + gap) / n
        case["bounds"] = dict(fmt=["pair", "list"][case["form"] % 2], lb=[v] * n, ub=[v + 1] * n)
    elif how == "eq":
        a = [0.0] * n
        a[i] = 1.0
        b = case["w0"][i]
        case["cons"] += [dict(t="single_eq", a=a, i=i, b=b, form=case["form"]), dict(t="single_ge", a=a, i=i, b=b + gap, form=case["form"])]
    elif how == "con":
        a = [0.0] * n
        a[i] = 1.0
        case["cons"].append(dict(t="single_ge", a=a, i=i, b=float(F.ub[i] + gap), form=case["form"]))
    elif how == "vec":
        case["cons"].append(dict(t="vec_le", v=[float(x - gap) for x in F.lb], form=case["form"]))
    elif how == "cross":
        a = [1.0] * n
        case["cons"].append(dict(t="lin_le", a=a, b=total - gap, form=case["form"]))
    else:
        m = [s for s in (["tech", None] * n)[:n]]
        hi = float(sum(u for u, s in zip(F.ub, m) if s == "tech"))
        lo = float(sum(u for u, s in zip(F.lb, m) if s == "tech"))
        case["sector"] = dict(map=m, lower={"tech": hi + gap}, upper={}) if how == "sector_lo" else dict(map=m, lower={}, upper={"tech": lo - gap})
    mod = opt.Model(case)
    if case["method"] == "max_sharpe":
        mod.par = float(mod.mu.max() - 0.01)
    if case["kind"] in ("SV", "CDAR") and case["method"] == "efficient_return":
        mod.par = max(0.0, mod.par)
    rec.lib = True
    o = mod.build()
    import cvxpy
    from pypfopt import exceptions
    try:
        res = mod.run(o)
    except (ValueError, exceptions.OptimizationError, cvxpy.error.SolverError) as e:
        if o.weights is not None:
            raise Violation("%s raised %r but left weights %s behind" % (mod.name, e, o.weights))
        rec.label(how, mod.name, type(e).__name__)
        rec.nt()
        return
    raise Violation("%s returned %s although no portfolio meets the constraints (%s)" % (mod.name, dict(res), how))


@st.composite
def g_wide(draw):
    """Larger universes and longer samples."""
    case = draw(opt.opt_case(nmin=10, nmax=24, T=(25, 60)))
    case["rf0"] = case["method"] == "max_sharpe" and draw(st.booleans())
    case["perf_first"] = False
    return case


PROP.sub("wide", g_wide(), quick=900)(feasible)
