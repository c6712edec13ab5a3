import math
import numpy as np
from hypothesis import strategies as st
from ..core import Prop, Violation
from .. import gen, opt

PROP = Prop("C03", "Universes of 2-7 assets with random data, bounds in every accepted format, 0-3 linear, l1 or linf constraints written in "
            "many equivalent forms and sector limits around a known feasible portfolio, risk-free rate below its return. Also 10-24 assets. Non-trivial: the "
            "returned portfolio differs from equal weights by > 1e-3 and from the witness by > 1e-4.",
            ["solver=CLARABEL with tight tolerances; Sharpe ratios compared at 1e-6; the reference is a separately written homogenised QP",
             "constraints that are neither affine nor positively homogeneous are covered by the finding recorded under C01"])


@st.composite
def g(draw, nmin=2, nmax=7):
    case = draw(opt.opt_case("EF", "max_sharpe", nmin=nmin, nmax=nmax))
    case["rf0"] = draw(st.integers(0, 2)) == 0
    case["perf"] = draw(st.sampled_from(["same", "default", "other"]))
    return case


@PROP.sub("max_sharpe", g(), quick=4800)
def ms(case, rec):
    m = opt.Model(case)
    w = m.solve_and_check(rec)
    o = m.opt
    kw = {"same": dict(risk_free_rate=m.par), "default": {}, "other": dict(risk_free_rate=m.par + 0.01)}[case["perf"]]
    r, v, s = o.portfolio_performance(**kw)
    vol = math.sqrt(w @ m.S @ w)
    gen.expect_close([r, v, s], [w @ m.mu, vol, (w @ m.mu - m.par) / vol], "portfolio_performance after max_sharpe(rf=%r)" % m.par,
                     rtol=1e-8, atol=1e-10)
    if m.par == 0:
        rec.label("rf=0")


@PROP.sub("default_solver", opt.opt_case("EF", "max_sharpe", nmax=5, cov_kinds=("pd", "diag")), quick=600)
def default(case, rec):
    case["solver"] = "default"
    m = opt.Model(case)
    m.solve_and_check(rec, feas_tol=2e-2, tol=2e-2)


PROP.sub("wide", g(10, 24), quick=900)(ms)
