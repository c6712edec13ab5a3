from ..core import Prop
from .. import opt

PROP = Prop("C02", "Universes of 2-8 assets with random data, bounds in every accepted format, 0-3 constraints and sector limits around a known feasible portfolio. Also 10-24 assets. Non-trivial: the returned portfolio differs from equal weights by > 1e-3 and from the witness by > 1e-4.", ["solver=CLARABEL with tight tolerances; objective compared at 1e-6 relative, feasibility at 2e-6; "
                         "the reference optimum comes from a separately written cone programme"])


@PROP.sub("min_volatility", opt.opt_case("EF", "min_volatility", nmax=8), quick=2400)
def mv(case, rec):
    opt.Model(case).solve_and_check(rec)


@PROP.sub("max_quadratic_utility", opt.opt_case("EF", "max_quadratic_utility", nmax=8), quick=2400)
def mu(case, rec):
    opt.Model(case).solve_and_check(rec)


PROP.sub("wide_min_volatility", opt.opt_case("EF", "min_volatility", nmin=10, nmax=24), quick=450)(mv)
PROP.sub("wide_max_quadratic_utility", opt.opt_case("EF", "max_quadratic_utility", nmin=10, nmax=24), quick=450)(mu)
