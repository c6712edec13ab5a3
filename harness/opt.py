"""Convex-optimiser cases: one description of what each class and method is
documented to optimise, used as the oracle (numpy values) and as the reference
problem (refs.Cone). Shared by C01-C11, C31."""
import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from .core import Skip, Violation
from . import gen, refs, util

METHODS = {
    "EF": ["min_volatility", "max_quadratic_utility", "max_sharpe", "efficient_risk", "efficient_return"],
    "SV": ["min_semivariance", "max_quadratic_utility", "efficient_risk", "efficient_return"],
    "CVAR": ["min_cvar", "efficient_risk", "efficient_return"],
    "CDAR": ["min_cdar", "efficient_risk", "efficient_return"],
}
NEUTRAL_OK = {("EF", "max_quadratic_utility"), ("EF", "efficient_risk"), ("EF", "efficient_return")} | {
    (k, m) for k in ("SV", "CVAR", "CDAR") for m in METHODS[k]}
BETAS = [0.95, 0.9, 0.8, 0.5, 0.7, 0.3, 0.1, 0.99, 0.0]
DELTAS = [1, 0.1, 0.5, 1, 2, 5, 25, 300]


# ------------------------------------------------------------------ numpy risk measures

def tail(losses, beta):
    """min over a of a + mean(max(losses - a, 0))/(1 - beta) (attained at one of the losses)."""
    L = np.asarray(losses, float)
    return min(float(a + np.maximum(L - a, 0).mean() / (1 - beta)) for a in L)


def cvar(R, w, beta):
    return tail(-(R @ w), beta)


def drawdowns(R, w):
    X = np.concatenate([[0.0], np.cumsum(R @ w)])
    return np.maximum.accumulate(X)[1:] - X[1:]


def cdar(R, w, beta):
    return tail(drawdowns(R, w), beta)


def semivar(R, w, bench):
    return float((np.minimum(R @ w - bench, 0) ** 2).mean())


# ------------------------------------------------------------------ generators

@st.composite
def data_case(draw, kind, n, T=(6, 14)):
    """Class-specific data."""
    if kind == "EF":
        return {}
    d = dict(ret=draw(gen.returns_case(n, *T, scale=(1, 1, 3))), retc=draw(st.sampled_from(["df", "df", "nd"])))
    d["gaps"] = draw(gen.gaps_case(d["ret"]["T"], n))
    if kind == "SV":
        d["freq"] = draw(st.sampled_from([252, 252, 1, 12, 52, 4, 365]))
        d["bench"] = draw(st.sampled_from([0.0, 0.0, 0.0, 0.002, -0.004, 0.01]))
    else:
        d["beta"] = draw(st.sampled_from(BETAS))
    return d


@st.composite
def par_case(draw, kind, method):
    if method == "max_quadratic_utility":
        return draw(st.sampled_from(DELTAS))
    if method == "max_sharpe":
        return draw(st.sampled_from([0.02, 0.001, 0.005, 0.05, 0.1, 0.3]))          # rf = return of w0 - this
    if method == "efficient_risk":
        return draw(st.sampled_from([1.1, 1.001, 1.01, 1.5, 3.0, 20.0]))            # target = risk of w0 * this
    if method == "efficient_return":
        return draw(st.sampled_from([0.0001, 0.001, 0.01, 0.05, 0.3]))              # target = return of w0 - this
    return None


@st.composite
def objs_case(draw, n, w0, maxn=2, minn=1, kinds=("l2", "l2d", "tc", "tcd", "ante", "post", "lin", "sumsq")):
    out = []
    for _ in range(draw(st.integers(minn, maxn))):
        t = draw(st.sampled_from(kinds))
        o = dict(t=t)
        if t == "l2":
            o["gamma"] = draw(st.sampled_from([0.1, 0.01, 1, 2, 0.5]))
        elif t in ("tc", "tcd"):
            d = np.array(gen.ints(draw, n, -5, 5)) / 20.0
            o["prev"] = [float(x) for x in np.array(w0) + d]
            if t == "tc":
                o["k"] = draw(st.sampled_from([0.01, 0.001, 0.05, 0.2]))
        elif t == "ante":
            o["cov"] = draw(gen.cov_case(n, ("pd", "factor", "diag")))
            o["bench"] = [x / 10.0 for x in gen.ints(draw, n, -2, 6)]
        elif t == "post":
            o["ret"] = draw(gen.returns_case(n, 4, 8, scale=(1, 3)))
            o["rb"] = [x / 1000.0 for x in gen.ints(draw, o["ret"]["T"], -30, 30)]
            o["df"] = draw(st.booleans())
        elif t == "lin":
            o["c"] = [x / 100.0 for x in gen.ints(draw, n, -10, 10)]
            o["mult"] = draw(st.sampled_from([1, 0.5, 3]))
        elif t == "sumsq":
            o["v"] = [float(x) for x in np.array(gen.ints(draw, n, -10, 10)) / 20.0]
            o["mult"] = draw(st.sampled_from([0.1, 0.5, 1]))
        out.append(o)
    return out


@st.composite
def opt_case(draw, kind=None, method=None, nmin=2, nmax=6, neutral=None, nonlinear="all", objs=(0, 0),
             cons=True, cov_kinds=("pd", "pd", "factor", "diag", "ill"), finite=None, short=None, kinds=None,
             sectors=True, obj_kinds=None, T=(6, 14)):
    if kind is None:
        kind = draw(st.sampled_from(["EF", "EF", "SV", "CVAR", "CDAR"]))
    if method is None:
        method = draw(st.sampled_from(METHODS[kind]))
    if neutral is None:
        neutral = (kind, method) in NEUTRAL_OK and draw(st.integers(0, 4)) == 0
    if method == "max_sharpe" and nonlinear:
        nonlinear = True         # l1 / linf only: see known finding KF2
    if finite is None:
        finite = not (kind == "EF" and draw(st.integers(0, 4)) == 0)
    case = draw(gen.ef_case(nmin, nmax if kind == "EF" or nmin > 5 else min(nmax, 5), short=short, neutral=neutral,
                            cov_kinds=cov_kinds, nonlinear=nonlinear, cons=cons, finite=finite, kinds=kinds, sectors=sectors))
    case.update(kind=kind, method=method, par=draw(par_case(kind, method)), mnkw=draw(st.booleans()))
    if (kind, method) == ("EF", "max_quadratic_utility") and draw(st.integers(0, 6)) == 0:
        # data in large units (percent), where small risk aversions matter
        case["cov"]["sd"] = [20 * x for x in case["cov"]["sd"]]
        case["par"] = draw(st.sampled_from([1e-3, 2e-4, 5e-3, 1e-2]))
    if (kind, method) == ("EF", "min_volatility") and not objs[1] and draw(st.integers(0, 4)) == 0:
        case["cov"]["unit"] = draw(st.sampled_from([1 / 252, 1 / 12, 1e-3, 100.0]))       # daily, monthly, percent
    case.update(draw(data_case(kind, case["n"], T)))
    if kind != "EF":
        case["covc"] = "nd"
        if method in ("min_semivariance", "min_cvar", "min_cdar") and draw(st.integers(0, 3)) == 0:
            case["muc"] = "none"
    elif method == "min_volatility" and draw(st.integers(0, 5)) == 0:
        case["muc"] = "none"
    case["objs"] = draw(objs_case(case["n"], case["w0"], objs[1], objs[0], **({"kinds": obj_kinds} if obj_kinds else {}))) if objs[1] else []
    return case


# ------------------------------------------------------------------ extra objectives

def obj_value(o, w):
    t = o["t"]
    if t in ("l2", "l2d"):
        return float(o.get("gamma", 1) * (w ** 2).sum())
    if t in ("tc", "tcd"):
        return float(o.get("k", 0.001) * np.abs(w - np.array(o["prev"])).sum())
    if t == "ante":
        d = w - np.array(o["bench"])
        return float(d @ gen.build_cov(o["cov"]) @ d)
    if t == "post":
        x = gen.build_returns(o["ret"]) @ w - np.array(o["rb"])
        return float(((x - x.mean()) ** 2).sum())
    if t == "lin":
        return float(o["mult"] * (np.array(o["c"]) @ w))
    if t == "sumsq":
        return float(o["mult"] * ((w - np.array(o["v"])) ** 2).sum())
    raise AssertionError(t)


def obj_cone(o, cone):
    t, n = o["t"], cone.n
    idx = np.arange(n)
    if t in ("l2", "l2d"):
        cone.add_P(idx, 2 * o.get("gamma", 1) * np.eye(n))
    elif t in ("tc", "tcd"):
        u = cone.l1(idx, np.array(o["prev"]))
        cone.add_q(u, np.full(n, float(o.get("k", 0.001))))
    elif t == "ante":
        S, b = gen.build_cov(o["cov"]), np.array(o["bench"])
        cone.add_P(idx, 2 * S)
        cone.add_q(idx, -2 * S @ b)
    elif t == "post":
        R, rb = gen.build_returns(o["ret"]), np.array(o["rb"])
        Rc, bc = R - R.mean(axis=0), rb - rb.mean()
        cone.add_P(idx, 2 * Rc.T @ Rc)
        cone.add_q(idx, -2 * Rc.T @ bc)
    elif t == "lin":
        cone.add_q(idx, o["mult"] * np.array(o["c"]))
    elif t == "sumsq":
        cone.add_P(idx, 2 * o["mult"] * np.eye(n))
        cone.add_q(idx, -2 * o["mult"] * np.array(o["v"]))


def add_objs(opt, objs, tick=None):
    import cvxpy as cp
    from pypfopt import objective_functions as of
    for o in objs:
        t = o["t"]
        if t == "l2":
            opt.add_objective(of.L2_reg, gamma=o["gamma"])
        elif t == "l2d":
            opt.add_objective(of.L2_reg)
        elif t == "tc":
            opt.add_objective(of.transaction_cost, w_prev=np.array(o["prev"]), k=o["k"])
        elif t == "tcd":
            opt.add_objective(of.transaction_cost, w_prev=np.array(o["prev"]))
        elif t == "ante":
            opt.add_objective(of.ex_ante_tracking_error, cov_matrix=gen.build_cov(o["cov"]),
                              benchmark_weights=np.array(o["bench"]))
        elif t == "post":
            R, rb = gen.build_returns(o["ret"]), np.array(o["rb"])
            if o["df"]:
                R, rb = pd.DataFrame(R), pd.Series(rb)
            opt.add_objective(of.ex_post_tracking_error, historic_returns=R, benchmark_returns=rb)
        elif t == "lin":
            c = np.array(o["c"])
            opt.add_objective(lambda w, mult=1: mult * (c @ w), **({} if o["mult"] == 1 else {"mult": o["mult"]}))
        elif t == "sumsq":
            def f(w, centre, mult):
                return mult * cp.sum_squares(w - centre)
            opt.add_objective(f, centre=np.array(o["v"]), mult=o["mult"])


# ------------------------------------------------------------------ the model

class Model:
    """What the documentation says the call computes."""

    def __init__(self, case):
        self.case = case
        self.kind, self.method = case["kind"], case["method"]
        self.n = case["n"]
        self.mu = gen.mu_of(case)
        self.total = 0 if case["neutral"] else 1
        self.F = gen.Feas(case, total=self.total)
        self.w0 = np.array(case["w0"])
        if self.kind == "EF":
            self.S = gen.build_cov(case["cov"])
            self.sd = math.sqrt(max(np.diag(self.S)))
        else:
            self.R = gen.build_returns(case["ret"])
            self.T = len(self.R)
            self.freq = case.get("freq", 1)
            self.bench = case.get("bench", 0.0)
            self.beta = case.get("beta")
            self.sd = float(np.abs(self.R).max()) or 1e-3
            if self.kind == "CDAR":
                self.sd *= 3
        self.objs = case.get("objs", [])
        self.par = self._par(case["par"])
        self.none_mu = case["muc"] == "none"

    # documented measures
    def risk(self, w):
        """In the units of the target of efficient_risk."""
        if self.kind == "EF":
            return math.sqrt(max(0.0, float(w @ self.S @ w)))
        if self.kind == "SV":
            return math.sqrt(self.freq * semivar(self.R, w, self.bench))
        return (cvar if self.kind == "CVAR" else cdar)(self.R, w, self.beta)

    def ret(self, w):
        return float(self.mu @ w)

    def base_risk(self, w):
        """The quantity the min_/efficient_return methods minimise."""
        if self.kind == "EF":
            return float(w @ self.S @ w)
        if self.kind == "SV":
            return semivar(self.R, w, self.bench)
        return self.risk(w)

    @property
    def risk_scale(self):
        return self.sd * (math.sqrt(self.freq) if self.kind == "SV" else 1.0)

    def _par(self, p):
        m = self.method
        if m == "max_sharpe":
            rf = min(self.ret(self.w0) - p, self.mu.max() - 0.001)
            if self.case.get("rf0") and self.ret(self.w0) > 5e-4 and self.mu.max() > 0:
                rf = 0
            return float(rf) if rf else 0
        if m == "efficient_risk":
            r = self.risk(self.w0)
            if self.kind in ("CVAR", "CDAR"):
                return float(max(r, 0.0) + (p - 1.0) * max(abs(r), self.sd))
            return float(r * p if r > 1e-3 * self.risk_scale else (0.01 * self.risk_scale) * p)
        if m == "efficient_return":
            return float(self.ret(self.w0) - p)
        return p

    def in_domain(self):
        """Cases on which the method is documented to return a portfolio."""
        if self.F.violation(self.w0)[0] > 1e-9:
            return False
        if self.method == "efficient_return":
            if self.kind in ("SV", "CDAR") and self.par < 0:
                return False
        return True

    def obj(self, w):
        """The minimised quantity, extra objectives included (not for max_sharpe)."""
        m = self.method
        if m.startswith("min_") or m == "efficient_return":
            v = self.base_risk(w)
        elif m == "max_quadratic_utility":
            r = self.ret(w) / (self.freq if self.kind == "SV" else 1)
            v = -r + 0.5 * self.par * self.base_risk(w)
        elif m == "efficient_risk":
            v = -self.ret(w)
        else:
            raise AssertionError(m)
        return v + sum(obj_value(o, w) for o in self.objs)

    def obj_scale(self, w):
        s = self.sd ** 2 if self.kind in ("EF", "SV") else self.sd
        m = self.method
        if m == "max_quadratic_utility":
            s = max(np.abs(self.mu).max() / (self.freq if self.kind == "SV" else 1), 1e-2, self.par * s)
        elif m == "efficient_risk":
            s = max(np.abs(self.mu).max(), 1e-2)
        s *= max(1.0, float(np.abs(w).sum())) ** 2
        for o in self.objs:
            s = max(s, abs(obj_value(o, w)), {"l2": 1, "l2d": 1, "sumsq": 1, "ante": .1, "post": .01, "lin": .1}.get(o["t"], .01))
        return s

    def target_miss(self, w):
        """How far the weights miss the target of the call (<= 0: met), relative to its scale."""
        if self.method == "efficient_risk":
            return (self.risk(w) - self.par) / max(self.risk_scale, abs(self.par))
        if self.method == "efficient_return":
            return (self.par - self.ret(w)) / max(np.abs(self.mu).max(), 1e-2)
        return 0.0

    # reference
    def risk_cone(self, c):
        """Adds risk epigraph variables. Returns ('quad', idx, M) with risk = x'Mx/..., or ('lin', idx, coef)."""
        w = np.arange(self.n)
        if self.kind == "SV":
            t = c.var(self.T)
            for i in range(self.T):
                c.add_le([t[i]], [-1.0], 0.0)
                c.add_le(np.append(w, t[i]), np.append(-self.R[i], -1.0), -self.bench)
            return t
        a = c.var(1)[0]
        z = c.var(self.T)
        if self.kind == "CVAR":
            for i in range(self.T):
                c.add_le([z[i]], [-1.0], 0.0)
                c.add_le(np.concatenate([w, [a, z[i]]]), np.concatenate([-self.R[i], [-1.0, -1.0]]), 0.0)
        else:
            u = c.var(self.T)       # u_t >= drawdown at t
            for i in range(self.T):
                c.add_le([z[i]], [-1.0], 0.0)
                c.add_le([u[i]], [-1.0], 0.0)
                c.add_le([u[i], a, z[i]], [1.0, -1.0, -1.0], 0.0)
                if i == 0:
                    c.add_le(np.append(w, u[0]), np.append(-self.R[0], -1.0), 0.0)
                else:
                    c.add_le(np.concatenate([w, [u[i], u[i - 1]]]), np.concatenate([-self.R[i], [-1.0, 1.0]]), 0.0)
        idx = np.concatenate([[a], z])
        coef = np.concatenate([[1.0], np.full(self.T, 1.0 / (self.T * (1 - self.beta)))])
        return idx, coef

    def reference(self, tighten=1e-7):
        """An optimal portfolio from an independent formulation, or None."""
        c = refs.Cone(self.n)
        c.feas(self.F)
        w = np.arange(self.n)
        m = self.method
        mus = max(np.abs(self.mu).max(), 1e-2)
        if m == "max_sharpe":
            return self._ref_sharpe()
        minimise_risk = m.startswith("min_") or m == "efficient_return"
        weight = 1.0 if minimise_risk else 0.5 * self.par if m == "max_quadratic_utility" else 0.0
        if m == "max_quadratic_utility":
            c.add_q(w, -self.mu / (self.freq if self.kind == "SV" else 1))
        if m == "efficient_risk":
            c.add_q(w, -self.mu)
            cap = self.par - tighten * max(self.risk_scale, abs(self.par))
            if self.kind == "EF":
                if cap <= 0:
                    return None
                c.quad_le(w, self.S, cap ** 2)
            elif self.kind == "SV":
                if cap <= 0:
                    return None
                t = self.risk_cone(c)
                c.add_soc([([0], [0.0], cap)] + [([i], [math.sqrt(self.freq / self.T)], 0.0) for i in t])
            else:
                idx, coef = self.risk_cone(c)
                c.add_le(idx, coef, cap)
        elif self.kind == "EF":
            c.add_P(w, 2 * weight * self.S)
        elif self.kind == "SV":
            t = self.risk_cone(c)
            c.add_P(t, 2 * weight / self.T * np.eye(self.T))
        else:
            idx, coef = self.risk_cone(c)
            c.add_q(idx, weight * coef)
        if m == "efficient_return":
            c.add_le(w, -self.mu, -(self.par + tighten * mus))
        for o in self.objs:
            obj_cone(o, c)
        status, x, _ = c.solve()
        return x[:self.n] if refs.solved(status) else None

    def _ref_sharpe(self):
        """Homogenised tangency problem in (y, k); y = k w."""
        n = self.n
        F = self.F
        c = refs.Cone(n)
        k = c.var(1)[0]
        w = np.arange(n)
        idx = np.append(w, k)
        for i in range(n):
            if np.isfinite(F.lb[i]):
                c.add_le([i, k], [-1.0, F.lb[i]], 0.0)
            if np.isfinite(F.ub[i]):
                c.add_le([i, k], [1.0, -F.ub[i]], 0.0)
        for a, b in zip(F.Aeq, F.beq):
            c.add_eq(idx, np.append(a, -b), 0.0)
        for a, b in zip(F.Aub, F.bub):
            c.add_le(idx, np.append(a, -b), 0.0)
        for con in F.nl:
            if con["t"] == "l1":
                u = c.l1(w, np.zeros(n))
                c.add_le(np.append(u, k), np.append(np.ones(n), -con["b"]), 0.0)
            elif con["t"] == "linf":
                for i in range(n):
                    c.add_le([i, k], [1.0, -con["b"]], 0.0)
                    c.add_le([i, k], [-1.0, -con["b"]], 0.0)
            else:
                raise Skip("constraint outside max_sharpe's domain")
        c.add_le([k], [-1.0], 0.0)
        s = 1.0 / self.sd
        c.add_eq(w, self.mu - self.par, s * 0.01)     # scaled so that y is of order one
        c.add_P(w, 2 * self.S)
        for o in self.objs:
            raise Skip("extra objectives in max_sharpe")
        status, x, _ = c.solve()
        if not refs.solved(status) or x[n] <= 1e-9:
            return None
        return x[:n] / x[n]

    # attainable range of the method's target
    def min_risk(self):
        """Smallest attainable risk (in target units) and its portfolio, or None."""
        c = refs.Cone(self.n)
        c.feas(self.F)
        w = np.arange(self.n)
        if self.kind == "EF":
            c.add_P(w, 2 * self.S)
        elif self.kind == "SV":
            c.add_P(self.risk_cone(c), 2.0 / self.T * np.eye(self.T))
        else:
            c.add_q(*self.risk_cone(c))
        status, x, _ = c.solve()
        if not refs.solved(status):
            return None
        return self.risk(x[:self.n]), x[:self.n]

    def max_ret(self):
        c = refs.Cone(self.n)
        c.feas(self.F)
        c.add_q(np.arange(self.n), -self.mu)
        status, x, _ = c.solve()
        if not refs.solved(status):
            return None
        return self.ret(x[:self.n]), x[:self.n]

    # library
    def build(self, **extra):
        import pypfopt
        from pypfopt.efficient_frontier import EfficientCDaR, EfficientCVaR, EfficientSemivariance
        case = self.case
        kw = gen.bounds_kw(case["bounds"])
        kw.update(gen.solver_kw(case))
        kw.update(extra)
        tick = case["tick"]
        m = None if self.none_mu else gen.as_mu(self.mu, case["muc"], tick)
        if self.kind == "EF":
            o = pypfopt.EfficientFrontier(m, gen.as_cov(self.S, case["covc"], tick), **kw)
        else:
            R = gen.passed_returns(self.R, case["retc"], tick, case.get("gaps", gen.NO_GAPS))
            if self.kind == "SV":
                if self.freq != 252:
                    kw["frequency"] = self.freq
                if self.bench:
                    kw["benchmark"] = self.bench
                o = EfficientSemivariance(m, R, **kw)
            else:
                if self.beta != 0.95:
                    kw["beta"] = self.beta
                o = (EfficientCVaR if self.kind == "CVAR" else EfficientCDaR)(m, R, **kw)
        self.labels = self.expected_labels()
        for c in case.get("cons", []):
            o.add_constraint(gen.con_fn(c))
        if case.get("sector"):
            o.add_sector_constraints(*gen.sector_args(case["sector"], self.labels))
        add_objs(o, self.objs)
        return o

    def expected_labels(self):
        c = self.case
        if c["muc"] == "series" or (self.kind == "EF" and c["covc"] == "df"):
            return list(c["tick"])
        return list(range(self.n))

    def call_args(self):
        m, kw = self.method, {}
        if (self.kind, m) in NEUTRAL_OK and (self.case["neutral"] or self.case["mnkw"]):
            kw["market_neutral"] = bool(self.case["neutral"])
        if m.startswith("min_"):
            return (), kw
        if m == "max_quadratic_utility":
            return ((), kw) if self.par == 1 and self.case["mnkw"] else ((self.par,), kw)
        if m == "max_sharpe":
            if self.par == 0 and self.case["mnkw"]:
                return (), kw
            return (), dict(kw, risk_free_rate=self.par)
        return (self.par,), kw

    def run(self, o):
        a, kw = self.call_args()
        return getattr(o, self.method)(*a, **kw)

    @property
    def name(self):
        return "%s.%s" % ({"EF": "EfficientFrontier", "SV": "EfficientSemivariance", "CVAR": "EfficientCVaR",
                           "CDAR": "EfficientCDaR"}[self.kind], self.method)

    def labels_for(self, rec):
        c = self.case
        rec.label(self.name, "n=%d" % self.n, "bounds=" + c["bounds"]["fmt"], "short" if c["short"] else "long",
                  *["con=" + x["t"] for x in c["cons"]])
        rec.label(*["obj=" + o["t"] for o in self.objs])
        if c["sector"]:
            rec.label("sector")
        if c["neutral"]:
            rec.label("neutral")
        if self.none_mu:
            rec.label("no mu")

    def sharpe(self, w):
        return (self.ret(w) - self.par) / math.sqrt(float(w @ self.S @ w))

    def require_attained(self):
        """With unlimited weights the Sharpe ratio may have no maximum, only a supremum at infinity."""
        if self.method == "max_sharpe" and not (np.isfinite(self.F.lb).all() and np.isfinite(self.F.ub).all()):
            r = self.reference()
            if r is None or np.abs(r).max() > 100:
                raise Skip("maximum not attained")

    def attempt(self, rec, feas_tol, tol):
        self.require_attained()
        try:
            o = self.build()
            res = util.must(self.run, self.name, o)
        except Skip:        # CLARABEL did not reach the tight tolerance
            o = self.build(solver="CLARABEL", solver_options={})
            res = util.must(self.run, self.name, o)
            tol, feas_tol = max(tol, 1e-4), max(feas_tol, 1e-5)
            rec.label("second attempt")
        return o, res, feas_tol, tol

    # the whole check
    def solve_and_check(self, rec, feas_tol=2e-6, tol=1e-6, optimal=True):
        if not self.in_domain():
            raise Skip("outside the domain")
        rec.lib = True
        o, res, feas_tol, tol = self.attempt(rec, feas_tol, tol)
        w = util.weights(o, res, self.labels, self.name)
        self.opt = o
        self.check_weights(w, feas_tol)
        if optimal:
            self.check_optimal(w, tol)
        self.labels_for(rec)
        if optimal and self.weak:
            rec.label("compared with the witness only")
        rec.nt(not (optimal and self.weak) and np.abs(w - 1.0 / self.n).max() > 1e-3 and np.abs(w - self.w0).max() > 1e-4)
        return w

    def check_weights(self, w, feas_tol=2e-6):
        util.feasible(self.F, w, feas_tol * max(1.0, np.abs(w).max()), self.name)
        miss = self.target_miss(w)
        limit = max(feas_tol, 2e-6)
        if feas_tol > 5e-6 and self.method == "efficient_risk" and self.kind in ("EF", "SV"):
            # the solver sees squares, and its default tolerance is absolute
            miss = min(miss, (self.risk(w) ** 2 - self.par ** 2) / self.risk_scale ** 2 - 5e-7 / self.risk_scale ** 2)
        if not miss <= limit:
            raise Violation("%s(%.8g): target missed: risk %.8g, return %.8g (relative %.3g)"
                            % (self.name, self.par, self.risk(w), self.ret(w), miss))

    def check_optimal(self, w, tol=1e-6):
        ref = self.reference()
        cands = [] if ref is None else [ref]
        cands.append(self.w0)      # feasible by construction, whatever the reference solver did
        for r in cands:
            if self.F.violation(r)[0] > 1e-7 * max(1.0, np.abs(r).max()) or self.target_miss(r) > 0:
                continue
            if self.method == "max_sharpe":
                if self.ret(r) <= self.par:
                    continue
                got, best = self.sharpe(w), self.sharpe(r)
                if not got >= best - 1e-6 * max(1.0, abs(best)) * (tol / 1e-6):
                    raise Violation("%s(rf=%.8g): Sharpe ratio %.10g is beaten by the feasible portfolio %s with %.10g"
                                    % (self.name, self.par, got, np.round(r, 6), best))
            else:
                got, best = self.obj(w), self.obj(r)
                t = tol * max(self.obj_scale(r), self.obj_scale(w) * 1e-3)
                if not got <= best + t:
                    raise Violation("%s(%s): objective %.10g of %s is beaten by the feasible portfolio %s with %.10g (tolerance %.3g)"
                                    % (self.name, self.par, got, np.round(w, 6), np.round(r, 6), best, t))
        self.weak = ref is None

    def unreachable(self, rec, margin):
        """A target no feasible portfolio meets must be refused without weights."""
        if self.F.violation(self.w0)[0] > 1e-9:
            raise Skip("outside the domain")
        rec.lib = True
        o = None
        if self.method == "efficient_risk":
            got = self.min_risk()
            if got is None:
                raise Skip("no reference solution")
            scale = self.risk_scale
            target = got[0] - margin * max(scale, abs(got[0]))
            if target < 0:
                target = got[0] / 2
            if not target > 1e-3 * scale or got[0] - target < 1e-3 * scale:
                raise Skip("no positive unreachable risk target")
        else:
            got = self.max_ret()
            if got is None:
                raise Skip("no reference solution")
            target = got[0] + margin * max(np.abs(self.mu).max(), 1e-2)
        self.par = float(target)
        o = self.build()
        try:
            res = self.run(o)
        except Exception as e:
            import cvxpy
            from pypfopt import exceptions
            if not isinstance(e, (ValueError, exceptions.OptimizationError, cvxpy.error.SolverError)):
                raise
            if o.weights is not None:
                raise Violation("%s(%.8g) raised %r but left weights %s behind" % (self.name, self.par, e, o.weights))
            self.labels_for(rec)
            rec.label("refused with " + type(e).__name__)
            rec.nt()
            return
        raise Violation("%s(%.8g) returned %s although the attainable %s is %.8g"
                        % (self.name, self.par, dict(res), "minimum" if self.method == "efficient_risk" else "maximum", got[0]))

    def edge(self, rec, f):
        """A target just inside the attainable range must be met."""
        if self.F.violation(self.w0)[0] > 1e-9:
            raise Skip("outside the domain")
        rec.lib = True
        if self.method == "efficient_risk":
            got = self.min_risk()
            if got is None:
                raise Skip("no reference solution")
            if self.kind in ("CVAR", "CDAR"):
                self.par = float(max(got[0], 0) + f * self.risk_scale)
            else:
                self.par = float(max(got[0], 0.01 * self.risk_scale) * (1 + f))
        else:
            got = self.max_ret()
            if got is None:
                raise Skip("no reference solution")
            self.par = float(got[0] - f * max(np.abs(self.mu).max(), 1e-2))
            if self.kind in ("SV", "CDAR") and self.par < 0:
                raise Skip("outside the domain")
        self.w0 = got[1]
        if self.F.violation(self.w0)[0] > 1e-8 * max(1.0, np.abs(self.w0).max()):
            raise Skip("reference point not feasible enough")
        o, res, feas_tol, _ = self.attempt(rec, 2e-6, 1e-6)
        w = util.weights(o, res, self.labels, self.name)
        self.check_weights(w, feas_tol)
        self.labels_for(rec)
        rec.nt()
