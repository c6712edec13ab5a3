import numpy as np
from hypothesis import strategies as st
from ..core import Prop
from .. import opt

PROP = Prop("C04", "Universes of 2-7 assets with random data, bounds in every accepted format, 0-3 constraints and sector limits around a known "
            "feasible portfolio; targets met by that portfolio, just inside, and just outside the attainable range. Also 10-24 assets. Non-trivial: the returned "
            "portfolio differs from equal weights and from the witness, or the target was decided to be (un)attainable.",
            ["solver=CLARABEL with tight tolerances; objective compared at 1e-6 relative, feasibility and target at 2e-6; "
             "the reference optimum comes from a separately written cone programme"])


@st.composite
def with_(draw, key, vals, method):
    case = draw(opt.opt_case("EF", method, nmax=6, nonlinear=True))
    case[key] = draw(st.sampled_from(vals))
    return case


@PROP.sub("efficient_risk", opt.opt_case("EF", "efficient_risk", nmax=7), quick=2000)
def er(case, rec):
    opt.Model(case).solve_and_check(rec)


@PROP.sub("efficient_return", opt.opt_case("EF", "efficient_return", nmax=7), quick=2000)
def et(case, rec):
    opt.Model(case).solve_and_check(rec)


for _m in ("efficient_risk", "efficient_return"):
    def _u(case, rec):
        opt.Model(case).unreachable(rec, case["margin"])

    def _e(case, rec):
        opt.Model(case).edge(rec, case["edge"])
    PROP.sub(_m + "_unreachable", with_("margin", [0.02, 0.005, 0.1, 0.5, 3.0], _m), quick=800)(_u)
    PROP.sub(_m + "_edge", with_("edge", [1e-3, 1e-4, 1e-2], _m), quick=800)(_e)


PROP.sub("wide_efficient_risk", opt.opt_case("EF", "efficient_risk", nmin=10, nmax=24), quick=450)(er)
PROP.sub("wide_efficient_return", opt.opt_case("EF", "efficient_return", nmin=10, nmax=24), quick=450)(et)
