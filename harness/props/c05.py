import math
import numpy as np
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import gen, opt, refs, util

PROP = Prop("C05", "Every class and method with 1-3 extra objectives (L2, transaction cost, ex-ante and ex-post tracking error, user functions with "
            "keyword arguments) in random order, and convex_objective with a random quadratic/l1 user objective, with and without the "
            "sum-to-one constraint. Also 10-20 assets with samples of 25-50 periods. Non-trivial: the optimum differs by > 1e-4 from the optimum without the extra terms (methods) or from "
            "the witness (convex_objective).",
            ["solver=CLARABEL with tight tolerances; objective compared at 1e-6 relative",
             "in max_sharpe extra terms apply to the unnormalised variable (documented there); checked against exactly that"])

KINDS = ("EF", "EF", "SV", "CVAR", "CDAR")


@st.composite
def g(draw, nmin=2, nmax=5, T=(6, 14)):
    kind = draw(st.sampled_from(KINDS))
    method = draw(st.sampled_from([m for m in opt.METHODS[kind] if m != "max_sharpe"]))
    return draw(opt.opt_case(kind, method, objs=(1, 3), nonlinear=True, nmin=nmin, nmax=nmax, T=T))


@PROP.sub("methods", g(), quick=3200)
def methods(case, rec):
    m = opt.Model(case)
    w = m.solve_and_check(rec)
    rec.nontrivial = False
    if m.weak:
        return
    base = opt.Model(dict(case, objs=[]))
    r0 = base.reference()
    rec.nt(r0 is not None and np.abs(w - r0).max() > 1e-4)


@st.composite
def g_sharpe(draw):
    return draw(opt.opt_case("EF", "max_sharpe", objs=(1, 2), nonlinear=False, nmax=5, cov_kinds=("pd", "diag", "factor"),
                             obj_kinds=("l2", "l2d", "tc", "lin", "sumsq", "ante")))


@PROP.sub("max_sharpe", g_sharpe(), quick=800)
def sharpe(case, rec):
    """min y'Sy + extra(y) with y'(mu - rf) = 1 and y/k feasible; weights y/k."""
    m = opt.Model(case)
    if not m.in_domain():
        raise Skip("outside the domain")
    rec.lib = True
    c = refs.Cone(m.n)
    k = c.var(1)[0]
    w = np.arange(m.n)
    idx = np.append(w, k)
    F = m.F
    for i in range(m.n):
        if np.isfinite(F.lb[i]):
            c.add_le([i, k], [-1.0, F.lb[i]], 0.0)
        if np.isfinite(F.ub[i]):
            c.add_le([i, k], [1.0, -F.ub[i]], 0.0)
    for a, b in zip(F.Aeq, F.beq):
        c.add_eq(idx, np.append(a, -b), 0.0)
    for a, b in zip(F.Aub, F.bub):
        c.add_le(idx, np.append(a, -b), 0.0)
    c.add_le([k], [-1.0], 0.0)
    c.add_eq(w, m.mu - m.par, 1.0)
    c.add_P(w, 2 * m.S)
    for o in m.objs:
        opt.obj_cone(o, c)
    status, x, _ = c.solve()
    o, res, ft, tol = m.attempt(rec, 2e-6, 1e-6)
    got = util.weights(o, res, m.labels, m.name)
    util.feasible(F, got, ft * 5 * max(1.0, np.abs(got).max()), m.name)
    if not refs.solved(status) or x[m.n] < 1e-6:
        raise Skip("no reference solution")
    # undo the scaling of the returned weights: y = t w with t = 1/(w'mu - rf)
    ex = got @ m.mu - m.par
    if ex <= 1e-6:
        raise Violation("max_sharpe with extra objectives returned a portfolio without excess return: %s" % got)
    y = got / ex
    f = lambda v: float(v @ m.S @ v) + sum(opt.obj_value(q, v) for q in m.objs)
    yr = x[:m.n] / ((m.mu - m.par) @ x[:m.n])
    a, b = f(y), f(yr)
    scale = max(abs(b), float(yr @ m.S @ yr), sum(abs(opt.obj_value(q, yr)) for q in m.objs), 1e-2)
    if not a <= b + 20 * tol * scale:
        raise Violation("max_sharpe with extra objectives: transformed objective %.10g of %s is beaten by %s with %.10g" % (
            a, np.round(got, 6), np.round(x[:m.n] / x[m.n], 6), b))
    m.labels_for(rec)
    rec.nt(np.abs(got - m.w0).max() > 1e-4)


@st.composite
def g_custom(draw):
    kind = draw(st.sampled_from(("EF", "EF", "EF", "SV", "CVAR", "CDAR")))
    case = draw(opt.opt_case(kind, opt.METHODS[kind][0], neutral=False, objs=(0, 2), nonlinear="all"))
    n = case["n"]
    case["one"] = draw(st.booleans())
    if not case["one"]:
        case["bounds"] = dict(case["bounds"])
    case["user"] = dict(cov=draw(gen.cov_case(n, ("pd", "diag", "factor"))), c=[x / 100.0 for x in gen.ints(draw, n, -30, 30)],
                        k=draw(st.sampled_from([0.1, 1, 0.5, 3])), l1=draw(st.sampled_from([0, 0.05])), kwform=draw(st.integers(0, 2)))
    case["passone"] = draw(st.booleans())
    return case


@PROP.sub("convex_objective", g_custom(), quick=2000)
def custom(case, rec):
    import cvxpy as cp
    m = opt.Model(case)
    F = gen.Feas(case, total=1 if case["one"] else None)
    if F.violation(m.w0)[0] > 1e-9:
        raise Skip("outside the domain")
    u = case["user"]
    Q, c, k, l1 = gen.build_cov(u["cov"]), np.array(u["c"]), u["k"], u["l1"]
    rec.lib = True
    o = m.build()
    kw = {}
    if u["kwform"] == 0:
        fn = lambda w: k * cp.quad_form(w, Q) + c @ w + l1 * cp.norm(w, 1)
    elif u["kwform"] == 1:
        def fn(w, cov_matrix, lin, k=99.0, l1=0):
            return k * cp.quad_form(w, cov_matrix) + lin @ w + l1 * cp.norm(w, 1)
        kw = dict(cov_matrix=Q, lin=c, k=k, **({"l1": l1} if l1 else {}))
    else:
        def fn(w, **kws):
            return kws["k"] * cp.quad_form(w, Q) + kws["c"] @ w + kws.get("l1", 99.0) * cp.norm(w, 1)
        kw = dict(k=k, c=c, l1=l1)
    if not case["one"] or case["passone"]:
        kw["weights_sum_to_one"] = case["one"]
    res = util.must(o.convex_objective, "convex_objective", fn, **kw)
    w = util.weights(o, res, m.labels, "convex_objective")
    util.feasible(F, w, 2e-6 * max(1.0, np.abs(w).max()), "convex_objective")
    cone = refs.Cone(m.n)
    cone.feas(F)
    idx = np.arange(m.n)
    cone.add_P(idx, 2 * k * Q)
    cone.add_q(idx, c)
    if l1:
        cone.add_q(cone.l1(idx, np.zeros(m.n)), np.full(m.n, l1))
    for q in m.objs:
        opt.obj_cone(q, cone)
    status, x, _ = cone.solve()
    obj = lambda v: float(k * (v @ Q @ v) + c @ v + l1 * np.abs(v).sum()) + sum(opt.obj_value(q, v) for q in m.objs)
    cands = [m.w0] + ([x[:m.n]] if refs.solved(status) else [])
    for r in cands:
        if F.violation(r)[0] > 1e-7 * max(1.0, np.abs(r).max()):
            continue
        scale = max(abs(obj(r)), k * np.diag(Q).max(), np.abs(c).max(), *[abs(opt.obj_value(q, r)) for q in m.objs], 1e-3)
        if not obj(w) <= obj(r) + 1e-6 * scale * max(1.0, np.abs(r).sum()):
            raise Violation("convex_objective: %.10g at %s is beaten by the feasible portfolio %s with %.10g"
                            % (obj(w), np.round(w, 6), np.round(r, 6), obj(r)))
    m.labels_for(rec)
    rec.label("sum to one" if case["one"] else "free sum")
    rec.nt(len(cands) == 2 and np.abs(w - m.w0).max() > 1e-4)


PROP.sub("wide", g(10, 20, (25, 50)), quick=600)(methods)
