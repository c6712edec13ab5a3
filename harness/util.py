"""Shared steps of the optimiser checks."""
import warnings
import numpy as np
from .core import Skip, Violation
from . import gen


NUMERIC_TROUBLE = ("user_limit", "solver_error", "unbounded_inaccurate", "infeasible_inaccurate", "infeasible_or_unbounded")


def call(f, *a, **k):
    """('ok', result) | ('opt', status text) | ('err', exception). Numerical give-ups
    of the solver are undecided, not violations."""
    import cvxpy
    from pypfopt import exceptions
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            r = f(*a, **k)
        if any("Solution may be inaccurate" in str(x.message) for x in ws):
            raise Skip("solver reports an inaccurate solution")
        return "ok", r
    except exceptions.OptimizationError as e:
        txt = " ".join(str(x) for x in e.args)
        if any(s in txt for s in NUMERIC_TROUBLE):
            raise Skip("solver gave up: " + txt[-40:])
        if e.__cause__ is not None:
            txt += " from %r" % (e.__cause__,)
        return "opt", txt
    except cvxpy.error.SolverError as e:
        raise Skip("solver error")
    except (ValueError, TypeError) as e:
        return "err", e


def must(f, what, *a, **k):
    """The call must return (the problem is feasible and bounded)."""
    kind, r = call(f, *a, **k)
    if kind == "ok":
        return r
    if kind == "err":
        raise r
    raise Violation("%s failed although a feasible portfolio exists: %s" % (what, r))


def weights(opt, res, labels, what):
    w = gen.get_weights(res, labels, what)
    held = np.asarray(opt.weights, float)
    if held.shape != w.shape or not np.allclose(held, w, rtol=0, atol=1e-12):
        raise Violation("%s: weights attribute %s differs from the returned dict %s" % (what, held, w))
    return w


def feasible(F, w, tol, what):
    v, d = F.violation(w)
    if not v <= tol:
        raise Violation("%s: returned weights %s violate %s by %.3g" % (what, np.round(w, 6), d, v))


def not_beaten(val, w_ref, F, objective, tol, what, feas_tol=1e-7):
    """`val` is the library's objective (minimised). The reference point counts
    as evidence only if it is feasible when checked directly."""
    v, _ = F.violation(w_ref)
    if not v <= feas_tol:
        raise Skip("reference point not feasible enough")
    ref = objective(w_ref)
    if not val <= ref + tol:
        raise Violation("%s: objective %.10g is beaten by the feasible portfolio %s with %.10g (tolerance %.3g)"
                        % (what, val, np.round(w_ref, 6), ref, tol))
    return ref
