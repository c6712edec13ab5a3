import math, warnings
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import gen, opt

PROP = Prop("C10", "2-6 assets with shuffled tickers; EfficientFrontier, EfficientSemivariance, CVaR/CDaR (return only, unless the weights are from nonconvex_objective), HRPOpt "
            "(returns or covariance), CLA and BlackLittermanModel; weights held after optimising, after set_weights (dict in any order) or both; "
            "the module function with sparse/shuffled dicts, lists and arrays; calls before weights exist. Also 8-20 assets with 25-70 periods. Non-trivial: the held weights "
            "are not all equal and the reported return is not 0, or (before weights) the call was refused.",
            ["values compared at 1e-8 relative with formulas evaluated in Python loops; a ratio over a zero risk is not checked",
             "the text printed with verbose=True is C33"])
KINDS = ["EF", "EF", "SV", "SV", "HRP", "HRP", "HRPcov", "CLA", "BL", "BL", "CVAR", "CDAR"]


@st.composite
def base(draw, n=None, size=(2, 6), T=(4, 12)):
    n = n or draw(st.integers(*size))
    case = dict(n=n, tick=draw(gen.tickers(n)), mu=gen.mu_ints(draw, n), cov=draw(gen.cov_case(n, ("pd", "pd", "factor", "diag"))),
                muc=draw(st.sampled_from(gen.MU_CONT)), covc=draw(st.sampled_from(["df", "nd"])),
                ret=draw(gen.returns_case(n, *T)), retc=draw(st.sampled_from(["df", "nd"])),
                freq=draw(st.sampled_from([252, 252, 12, 1, 52, 4, 365])), bench=draw(st.sampled_from([0.0, 0.0, 0.001, -0.004, 0.02])))
    case["gaps"] = draw(gen.gaps_case(case["ret"]["T"], n))
    return case


@st.composite
def rf(draw):
    return draw(st.sampled_from([None, 0.0, 0.02, 0.05, -0.01, 0.3, 1]))


def weights_case(draw, n, anysum=True):
    v = gen.ints(draw, n, -6, 12)
    if draw(st.booleans()):
        v = [abs(x) for x in v]
    if sum(v) == 0:
        v[0] += 1
    if anysum and draw(st.integers(0, 4)) == 0:
        return [x / 10.0 for x in v]
    return [x / float(sum(v)) for x in v]


@st.composite
def held(draw, **size):
    case = draw(base(**size))
    n = case["n"]
    case.update(kind=draw(st.sampled_from(KINDS)), w=weights_case(draw, n), order=draw(st.permutations(list(range(n)))),
                mode=draw(st.sampled_from(["set", "opt", "optset", "optset2", "set"])), rf=[draw(rf()), draw(rf())],
                verbose=draw(st.booleans()), method=draw(st.integers(0, 9)), ints=draw(st.integers(0, 9)) == 0,
                none=draw(st.integers(0, 5)) == 0, nc=draw(st.sampled_from([None, None, None, "only", "after"])))
    if case["kind"] != "CLA" and draw(st.integers(0, 11)) == 0:
        case["mu"] = [0] * n        # reported as zero, not left out
    if case["kind"] == "BL":
        k = draw(st.integers(1, n))
        case["views"] = dict(idx=draw(st.permutations(list(range(n))))[:k], q=[x / 100.0 for x in gen.ints(draw, k, -20, 30)])
        case["tau"] = draw(st.sampled_from([0.05, 0.5, 1, 0.01]))
    return case


class Inst:
    """One object together with its documented measures."""

    def __init__(self, case):
        import pypfopt
        from pypfopt.efficient_frontier import EfficientCDaR, EfficientCVaR, EfficientSemivariance
        self.case, self.kind = case, case["kind"]
        tick, n = case["tick"], case["n"]
        self.mu = gen.mu_of(case)
        self.S = gen.build_cov(case["cov"])
        self.R = gen.build_returns(case["ret"])
        none = case.get("none") and self.kind in ("EF", "SV", "CVAR", "CDAR")
        mu = None if none else gen.as_mu(self.mu, case["muc"], tick)
        cov = gen.as_cov(self.S, case["covc"], tick)
        Rdf = pd.DataFrame(self.R, columns=list(tick))
        R = gen.passed_returns(self.R, case["retc"], tick, case.get("gaps", gen.NO_GAPS))
        self.labels = list(tick) if case["muc"] == "series" and not none else list(range(n))
        k = self.kind
        if k == "EF":
            self.o = pypfopt.EfficientFrontier(mu, cov, weight_bounds=(-1, 1))
            if case["covc"] == "df":
                self.labels = list(tick)
        elif k in ("SV", "CVAR", "CDAR"):
            kw = dict(weight_bounds=(-1, 1))
            if k == "SV":
                kw.update(frequency=case["freq"], benchmark=case["bench"])
                self.o = EfficientSemivariance(mu, R, **kw)
            else:
                self.o = (EfficientCVaR if k == "CVAR" else EfficientCDaR)(mu, R, **kw)
        elif k == "HRP":
            self.o = pypfopt.HRPOpt(Rdf)
            self.labels = list(tick)
        elif k == "HRPcov":
            self.o = pypfopt.HRPOpt(cov_matrix=gen.as_cov(self.S, "df", tick))
            self.labels = list(tick)
        elif k == "CLA":
            self.o = pypfopt.CLA(mu, cov)
            self.labels = list(tick) if case["muc"] == "series" else list(range(n))
        elif k == "BL":
            v = case.get("views") or dict(idx=[0], q=[0.1])
            lab = list(tick) if case["covc"] == "df" else list(range(n))
            self.tau = case.get("tau", 0.05)
            self.o = pypfopt.BlackLittermanModel(cov, pi=self.mu.copy(), absolute_views={lab[i]: q for i, q in zip(v["idx"], v["q"])},
                                                 tau=self.tau)
            self.labels = lab
            P = np.zeros((len(v["idx"]), n))
            P[np.arange(len(P)), v["idx"]] = 1
            tS = self.tau * self.S
            om = np.diag(np.diag(P @ tS @ P.T))
            G = tS @ P.T @ np.linalg.inv(P @ tS @ P.T + om)
            self.post = self.mu + G @ (np.array(v["q"]) - P @ self.mu)
            self.postS = self.S + tS - G @ P @ tS
        self.none = none

    def expected(self, w, rf):
        n = self.case["n"]
        k, R = self.kind, self.R
        mu, S = self.mu, self.S
        if k == "HRP":
            f = self.case["freq"]
            m = [sum(R[:, i]) / len(R) for i in range(n)]
            mu = [x * f for x in m]
            S = [[f * sum((R[t, i] - m[i]) * (R[t, j] - m[j]) for t in range(len(R))) / (len(R) - 1) for j in range(n)] for i in range(n)]
        elif k == "BL":
            mu, S = self.post, self.postS
        ret = sum(float(w[i]) * float(mu[i]) for i in range(n))
        if k == "SV":
            x = [sum(w[i] * R[t, i] for i in range(n)) for t in range(len(R))]
            risk = math.sqrt(self.case["freq"] * sum(min(v - self.case["bench"], 0.0) ** 2 for v in x) / len(x))
        else:
            risk = math.sqrt(max(0.0, sum(w[i] * w[j] * S[i][j] for i in range(n) for j in range(n))))
        if self.none or k == "HRPcov":
            ret = None
        ratio = None if ret is None else ((ret - rf) / risk if risk > 1e-9 else "any")
        return ret, risk, ratio

    def optimise(self):
        m = self.case["method"]
        if self.kind == "EF":
            if m < 6 or self.none:
                self.o.min_volatility()
            else:
                self.o.max_quadratic_utility(2)
        elif self.kind == "SV":
            self.o.min_semivariance()
        elif self.kind == "CVAR":
            self.o.min_cvar()
        elif self.kind == "CDAR":
            self.o.min_cdar()
        elif self.kind in ("HRP", "HRPcov"):
            self.o.optimize()
        elif self.kind == "CLA":
            (self.o.max_sharpe if m > 4 else self.o.min_volatility)()
        else:
            self.o.bl_weights()

    def perf(self, rf, verbose=None):
        kw = {}
        if rf is not None and self.kind not in ("CVAR", "CDAR"):
            kw["risk_free_rate"] = rf
        if verbose is not None:
            kw["verbose"] = verbose
        if self.kind == "HRP" and self.case["freq"] != 252:
            kw["frequency"] = self.case["freq"]
        return self.o.portfolio_performance(**kw)


def compare(got, want, what, n=3):
    if not isinstance(got, tuple) or len(got) != len(want):
        raise Violation("%s: portfolio_performance returned %r" % (what, got))
    for g, e, nm in zip(got, want, ("return", "risk", "ratio")):
        if isinstance(e, str):
            continue
        if e is None or g is None:
            if g is not None or e is not None:
                raise Violation("%s: %s reported as %r, expected %r" % (what, nm, g, e))
            continue
        if np.ndim(g) != 0 or not abs(float(g) - e) <= 1e-8 * max(1.0, abs(e)) + 1e-11:
            raise Violation("%s: %s reported as %r, expected %.12g" % (what, nm, g, e))


def try_opt(I):
    from pypfopt import exceptions
    import cvxpy
    try:
        I.optimise()
        return True
    except (exceptions.OptimizationError, cvxpy.error.SolverError, np.linalg.LinAlgError, ValueError, IndexError):
        # whether the optimisation works is decided by other properties
        raise Skip("optimisation failed")


def set_w(I, w, case):
    d = {}
    for i in case["order"]:
        d[I.labels[i]] = int(w[i]) if case["ints"] and w[i] == int(w[i]) else float(w[i])
    I.o.set_weights(d)


@PROP.sub("held", held(), quick=5000)
def h(case, rec):
    rec.lib = True
    if case["kind"] == "CLA" and len(set(case["mu"])) < case["n"]:
        case["mu"] = [x * 10 + i for i, x in enumerate(case["mu"])]
    I = Inst(case)
    k, mode = case["kind"], case["mode"]
    if k in ("CLA", "CVAR", "CDAR"):        # set_weights is refused for these
        mode = "opt"
    if case.get("nc") == "only" and k in ("EF", "SV", "CVAR", "CDAR"):
        mode = "opt"
    if k == "HRPcov" and mode.startswith("opt") and min(np.linalg.eigvalsh(I.S)) <= 0:
        raise Skip("covariance not positive definite")
    if mode.startswith("opt") and case.get("nc") != "only":
        try_opt(I)
        if mode == "optset2":
            I.perf(case["rf"][0])
    if case.get("nc") and k in ("EF", "SV", "CVAR", "CDAR"):
        # weights found by scipy instead
        I.o.nonconvex_objective(lambda w, c: ((w - c) ** 2).sum(), objective_args=(np.clip(case["w"], -1, 1),), weights_sum_to_one=False)
        mode += " nonconvex"
    elif mode != "opt":
        set_w(I, case["w"], case)
        if not np.array_equal(np.asarray(I.o.weights, float), np.array(case["w"])):
            raise Violation("%s.set_weights: holds %r after setting %r" % (k, I.o.weights, case["w"]))
    w = np.array(I.o.weights, float)
    if w.shape != (case["n"],) or not np.all(np.isfinite(w)):
        raise Skip("weights not finite (singular model)")
    for j, r in enumerate(case["rf"]):
        v = None if j == 0 else case["verbose"]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = I.perf(r, v)
        want = I.expected(w, 0.0 if r is None else r)
        if k in ("CVAR", "CDAR") and "nonconvex" in mode:
            want = (want[0], (opt.cvar if k == "CVAR" else opt.cdar)(I.R, w, 0.95))
            compare(got, want, "%s (%s)" % (k, mode))
        elif k in ("CVAR", "CDAR"):
            # their risk figure is decided by C07/C08
            if not isinstance(got, tuple) or len(got) != 2:
                raise Violation("%s: portfolio_performance returned %r" % (k, got))
            compare(got[:1], want[:1], k)
        else:
            compare(got, want, "%s (%s, rf=%s, verbose=%s)" % (k, mode, r, v))
        if not np.array_equal(np.asarray(I.o.weights, float), w):
            raise Violation("%s: portfolio_performance changed the weights held" % k)
    rec.label(k, mode, "no mu" if I.none else "mu")
    rec.nt(np.ptp(w) > 1e-3 and want[0] != 0)


PROP.sub("wide", held(size=(8, 20), T=(25, 70)), quick=400)(h)


# ------------------------------------------------------------------ max_sharpe's own risk-free rate

@st.composite
def sharpe(draw):
    case = draw(base())
    case["kind"] = "EF"
    case["rfs"] = [draw(st.sampled_from([0.0, 0.02, 0.01, -0.02])), draw(rf())]
    return case


@PROP.sub("after_max_sharpe", sharpe(), quick=600)
def ms(case, rec):
    """The ratio is that of the risk-free rate max_sharpe was given (also when the default is passed on)."""
    from pypfopt import exceptions
    rec.lib = True
    I = Inst(case)
    r1, r2 = case["rfs"]
    if max(I.mu) <= max(r1, 0) + 1e-3:
        raise Skip("no asset above the risk-free rate")
    try:
        I.o.max_sharpe(risk_free_rate=r1)
    except (exceptions.OptimizationError, ValueError):
        raise Skip("optimisation failed")
    w = np.array(I.o.weights, float)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        compare(I.perf(r2), I.expected(w, r1), "EF after max_sharpe(%s), performance(%s)" % (r1, r2))
        compare(I.perf(None), I.expected(w, r1), "EF after max_sharpe(%s), performance()" % r1)
    rec.label("rf=%s" % r1, "asked=%s" % r2)
    rec.nt(np.ptp(w) > 1e-3)


# ------------------------------------------------------------------ module function

@st.composite
def func(draw):
    case = draw(base())
    n = case["n"]
    case.update(w=weights_case(draw, n), wc=draw(st.sampled_from(["dict", "dict", "sparse", "extra", "list", "array", "odict"])),
                order=draw(st.permutations(list(range(n)))), rf=draw(rf()), verbose=draw(st.booleans()),
                none=draw(st.integers(0, 4)) == 0, tiny=draw(st.sampled_from([0, 0, 0, 1e-6, 3e-5, 1e-8])))
    if case["muc"] == "col":
        case["muc"] = "array"
    return case


@PROP.sub("function", func(), quick=2500)
def f(case, rec):
    import collections
    from pypfopt.base_optimizer import portfolio_performance
    rec.lib = True
    tick, n, w = case["tick"], case["n"], list(case["w"])
    if case["none"] and case["covc"] == "nd":
        case["none"] = False
    case["kind"] = "EF"
    mu, S = gen.mu_of(case), gen.build_cov(case["cov"])
    m = None if case["none"] else gen.as_mu(mu, case["muc"], tick)
    C = gen.as_cov(S, case["covc"], tick)
    lab = list(tick) if (case["muc"] == "series" and not case["none"]) or case["covc"] == "df" else list(range(n))
    wc = case["wc"]
    if wc == "sparse":
        for i in range(n):
            if i != case["order"][0] and i % 2:
                w[i] = 0.0
    if case.get("tiny"):        # all positions but one are tiny
        w = [x * case["tiny"] if i != case["order"][0] else x for i, x in enumerate(w)]
    if abs(sum(w)) < 1e-9:
        raise Skip("weights sum to zero")
    if wc == "list":
        W = list(w)
    elif wc == "array":
        W = np.array(w)
    else:
        W = (collections.OrderedDict if wc == "odict" else dict)()
        for i in case["order"]:
            if not (wc == "sparse" and w[i] == 0):
                W[lab[i]] = w[i]
        if wc == "extra":
            W["not an asset"] = 0.0
    kw = {} if case["rf"] is None else dict(risk_free_rate=case["rf"])
    if case["verbose"]:
        kw["verbose"] = True
    got = portfolio_performance(W, m, C, **kw)
    I = Inst.__new__(Inst)
    I.case, I.kind, I.none, I.mu, I.S, I.R = case, "EF", case["none"], mu, S, gen.build_returns(case["ret"])
    want = I.expected(w, 0.0 if case["rf"] is None else case["rf"])
    compare(got, want, "portfolio_performance(%s weights, mu=%s, cov=%s)" % (wc, "None" if case["none"] else case["muc"], case["covc"]))
    rec.label(wc, "no mu" if case["none"] else case["muc"], case["covc"])
    rec.nt(np.ptp(w) > 1e-3)


# ------------------------------------------------------------------ before weights exist

@st.composite
def before(draw):
    case = draw(base())
    case.update(kind=draw(st.sampled_from(sorted(set(KINDS)))), verbose=draw(st.booleans()), failed=draw(st.booleans()),
                none=draw(st.integers(0, 3)) == 0)
    return case


@PROP.sub("before", before(), quick=600)
def b(case, rec):
    rec.lib = True
    if case["kind"] == "CLA":
        case["mu"] = [x * 10 + i for i, x in enumerate(case["mu"])]
    I = Inst(case)
    if case["failed"] and case["kind"] in ("EF", "SV", "CVAR", "CDAR") and not I.none:
        try:
            I.o.efficient_return(1000.0)
        except Exception:
            pass
        else:
            raise Violation("%s.efficient_return(1000) returned" % case["kind"])
        rec.label("after a refused optimisation")
    strict = case["kind"] in ("EF", "CLA", "HRP", "HRPcov", "BL")
    try:
        got = I.perf(None, case["verbose"])
    except Exception as e:
        if strict and not isinstance(e, ValueError):
            raise Violation("%s.portfolio_performance before weights exist raised %r, documented is ValueError" % (case["kind"], e))
        rec.label(case["kind"])
        rec.nt()
        return
    if any(x is not None for x in got):
        raise Violation("%s.portfolio_performance before weights exist returned %r" % (case["kind"], got))
    rec.label(case["kind"] + " (no figures)")
    rec.nt()
