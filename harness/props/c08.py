from hypothesis import strategies as st
from ..core import Prop, Violation
from .. import opt, gen

KIND = "CDAR"
PROP = Prop("C08", "Return samples of 6-14 periods for 2-5 assets, bounds in every accepted format, 0-3 constraints and sector limits around a "
            "known feasible portfolio; every method, binding, slack and unattainable targets. Also 8-20 assets with 25-80 periods. Non-trivial: the returned portfolio "
            "differs from equal weights by > 1e-3 and from the witness by > 1e-4, or the target was decided to be (un)attainable.",
            ["solver=CLARABEL with tight tolerances; objective compared at 1e-6 relative, feasibility and target at 2e-6; "
             "the reference optimum comes from a separately written cone programme over the sample"])


@st.composite
def with_(draw, key, vals):
    case = draw(opt.opt_case(KIND, draw(st.sampled_from(["efficient_risk", "efficient_return"])), nonlinear=True))
    case[key] = draw(st.sampled_from(vals))
    return case


def perf(m, w, exact):
    mu, risk = m.opt.portfolio_performance()
    if m.none_mu:
        if mu is not None:
            raise Violation("performance without expected returns: %r" % ((mu, risk),))
    else:
        gen.expect_close(mu, m.ret(w), m.name + ": return reported", rtol=1e-8, atol=1e-10)
    true = m.risk(w)
    tol = 1e-5 * m.risk_scale
    if m.method == "efficient_risk" and not exact and true < m.par - tol:
        # recorded finding: with a slack target the solver's own bound is reported
        lo, hi = true - tol, m.par + tol
    else:
        lo, hi = true - tol, true + tol
    if not (risk is not None and lo <= risk <= hi):
        raise Violation("%s(%s): portfolio_performance reports risk %r, the weights %s have %.10g" % (m.name, m.par, risk, w, true))


@PROP.sub("optimise", opt.opt_case(KIND), quick=2800)
def o(case, rec):
    m = opt.Model(case)
    w = m.solve_and_check(rec)
    if "second attempt" not in rec.labels:
        perf(m, w, False)


@PROP.sub("performance_slack", st.none(), quick=0)
def slack(case, rec):
    """Replays the recorded finding only."""
    m = opt.Model(case)
    perf(m, m.solve_and_check(rec), True)


@PROP.sub("unreachable", with_("margin", [0.02, 0.1, 0.5, 3.0]), quick=700)
def u(case, rec):
    opt.Model(case).unreachable(rec, case["margin"])


@PROP.sub("edge", with_("edge", [1e-3, 1e-2]), quick=700)
def e(case, rec):
    opt.Model(case).edge(rec, case["edge"])


# larger universes and longer samples
PROP.sub("wide", opt.opt_case(KIND, nmin=8, nmax=20, T=(25, 80)), quick=600)(o)
