"""Generators (Hypothesis strategies producing JSON values) and the builders
that turn a case into numpy / pandas / pypfopt inputs."""
import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st

# ---------------------------------------------------------------- primitives


def ints(draw, n, lo, hi):
    return draw(st.lists(st.integers(lo, hi), min_size=n, max_size=n))


def grid(draw, rows, n, lo, hi):
    """rows x n integers; large tables are expanded from one drawn seed."""
    if rows * n <= 300:
        return [ints(draw, n, lo, hi) for _ in range(rows)]
    return np.random.RandomState(draw(st.integers(0, 2 ** 31 - 1))).randint(lo, hi + 1, (rows, n)).tolist()


def pick(draw, *opts):
    return draw(st.sampled_from(opts))


def wpick(draw, pairs):
    """Weighted choice: [(weight, value)...]; the first value is the simplest."""
    total = []
    for w, v in pairs:
        total.extend([v] * w)
    return draw(st.sampled_from(total))


NAMES = ["AAPL", "GOOG", "XOM", "MA", "BABA", "T", "PFE", "SHLD", "BAC", "UAA", "RRC", "GE",
         "zeta", "alpha", "Mid", "A", "B", "10", "9", "x y", "é", "JPM", "WMT", "SBUX"]


@st.composite
def tickers(draw, n):
    """Distinct labels whose order is usually not sorted."""
    kind = wpick(draw, [(5, "names"), (2, "gen"), (1, "ints"), (1, "sorted")])
    if kind == "names" and n <= len(NAMES):
        return draw(st.permutations(NAMES))[:n]
    if kind == "ints":
        return draw(st.permutations(list(range(3, 3 + 2 * n, 2))))
    base = ["S%02d" % i for i in range(n)]
    if kind == "sorted":
        return base
    return draw(st.permutations(base))


@st.composite
def cov_case(draw, n, kinds=("pd", "pd", "factor", "diag", "ill"), sd=(5, 60)):
    kind = draw(st.sampled_from(kinds))
    k = {"pd": n, "factor": 1, "diag": 0, "ill": max(1, n - 1), "sing": max(1, n - 1), "cash": n}[kind]
    F = grid(draw, n, k, -9, 9)
    ridge = {"pd": draw(st.integers(10, 200)), "factor": draw(st.integers(10, 300)), "diag": 100,
             "ill": draw(st.integers(1, 3)), "sing": 0, "cash": 50}[kind]
    c = dict(kind=kind, F=F, ridge=ridge, sd=ints(draw, n, *sd))
    if kind == "cash":
        c["cash"] = draw(st.integers(0, n - 1))
    return c


def build_cov(c):
    if "raw" in c:      # regression cases
        return np.array(c["raw"], dtype=float)
    F = np.array(c["F"], dtype=float).reshape(len(c["sd"]), -1) / 10.0
    C = F @ F.T + c["ridge"] / 100.0 * np.eye(len(F))
    d = np.diag(C).copy()
    z = d <= 1e-12
    C[z, z] = 1.0
    d[z] = 1.0
    C = C / np.sqrt(np.outer(d, d))
    sd = np.array(c["sd"], dtype=float) / 100.0
    S = C * np.outer(sd, sd)
    if "cash" in c:
        i = c["cash"]
        S[i, :] = 0.0
        S[:, i] = 0.0
    return (S + S.T) / 2 * c.get("unit", 1)


def mu_ints(draw, n, lo=-200, hi=400):
    """Expected returns in units of 0.1 %."""
    return ints(draw, n, lo, hi)


# ---------------------------------------------------------------- containers

MU_CONT = ["series", "array", "list", "col"]


def as_mu(vals, cont, tick):
    vals = np.asarray(vals, dtype=float)
    if cont == "series":
        return pd.Series(vals.copy(), index=list(tick))
    if cont == "array":
        return vals.copy()
    if cont == "col":
        return vals.reshape(-1, 1).copy()
    return [float(x) for x in vals]


def as_cov(S, cont, tick):
    if cont == "df":
        return pd.DataFrame(S.copy(), index=list(tick), columns=list(tick))
    return S.copy()


# ---------------------------------------------------------------- bounds


@st.composite
def bounds_case(draw, w0, short, finite=True):
    """Weight bounds admitting w0, with the format they are passed in."""
    n = len(w0)
    lo0, hi0 = min(w0), max(w0)
    fmts = ["list", "list", "tuples", "nd"]
    if n != 2:
        fmts += ["arrays", "arrays", "lists", "arraysnan"]
    if not short and lo0 >= 0 and hi0 <= 1:
        fmts = ["default", "default", "pair", "pair", "pair"] + fmts
    else:
        fmts = ["pair", "pair", "pair"] + fmts
    if lo0 >= -1 and hi0 <= 1 and n != 2:
        fmts += ["nonepair"]
    if not finite:
        fmts += ["listnone", "listinf", "infpair"]
        if n != 2:
            fmts += ["arraysinf", "arraysinf"]
    fmt = draw(st.sampled_from(fmts))
    slack = st.sampled_from([0.0, 0.02, 0.05, 0.1, 0.3, 1.0])
    if fmt == "default":
        return dict(fmt=fmt, lb=[0.0] * n, ub=[1.0] * n)
    if fmt == "pair":
        if short:
            lo = pick(draw, -1.0, math.floor(lo0 * 20) / 20.0, lo0 - draw(slack))
            hi = pick(draw, 1.0, math.ceil(hi0 * 20) / 20.0, hi0 + draw(slack))
        else:
            lo = pick(draw, 0.0, math.floor(lo0 * 20) / 20.0, lo0 - draw(slack) / 10)
            hi = pick(draw, 1.0, math.ceil(hi0 * 20) / 20.0, hi0 + draw(slack))
            lo = max(lo, 0.0)
            if draw(st.integers(0, 11)) == 5:
                lo = -draw(st.sampled_from([1e-3, 0.01, 0.05]))     # tiny short positions
        lo, hi = min(lo, lo0), max(hi, hi0)
        return dict(fmt=fmt, lb=[lo] * n, ub=[hi] * n, asint=draw(st.booleans()))
    if fmt == "nonepair":
        which = draw(st.integers(1, 3))
        lo = -1.0 if which & 1 else lo0 - draw(slack)
        hi = 1.0 if which & 2 else hi0 + draw(slack)
        return dict(fmt=fmt, lb=[lo] * n, ub=[hi] * n, which=which)
    if fmt == "infpair":
        which = draw(st.integers(1, 3))
        lo = -math.inf if which & 1 and short else lo0 - draw(slack) if short else 0.0
        return dict(fmt=fmt, lb=[lo] * n, ub=[math.inf if which & 2 else hi0 + draw(slack)] * n)
    lb, ub = [], []
    for w in w0:
        if short:
            lb.append(w - draw(slack))
        else:
            lb.append(max(0.0, w - draw(slack)) if w >= 0 else w)
        ub.append(w + draw(slack))
    if not short and draw(st.integers(0, 11)) == 5:
        eps = draw(st.sampled_from([1e-3, 0.01, 0.05]))
        lb = [l if l > 0 else l - eps for l in lb]
    out = dict(fmt=fmt, lb=lb, ub=ub)
    if draw(st.integers(0, 7)) == 0:
        # whole-number bounds, passed as Python or numpy integers
        lb, ub = [float(math.floor(l)) for l in lb], [float(math.ceil(u)) for u in ub]
        out = dict(fmt=fmt, lb=lb, ub=ub, asint=fmt in ("list", "tuples", "nd", "arrays", "lists"))
    if fmt in ("listnone", "listinf", "arraysinf"):
        mask = [draw(st.integers(0, 3)) for _ in range(n)]
        out["mask"] = mask
        out["lb"] = [-math.inf if m & 1 else l for m, l in zip(mask, lb)]
        out["ub"] = [math.inf if m & 2 else u for m, u in zip(mask, ub)]
    if fmt == "arraysnan":
        mask = [draw(st.integers(0, 3)) if -1 <= w <= 1 else 0 for w in w0]
        out["mask"] = mask
        out["lb"] = [-1.0 if m & 1 else l for m, l in zip(mask, lb)]
        out["ub"] = [1.0 if m & 2 else u for m, u in zip(mask, ub)]
    return out


def bounds_kw(b):
    """Keyword arguments {weight_bounds: ...} in the format of the case."""
    b = b.get("passed", b)
    f, lb, ub = b["fmt"], b["lb"], b["ub"]
    if f == "default":
        return {}
    if b.get("asint") and f in ("list", "tuples", "nd", "arrays", "lists") and all(x == int(x) for x in list(lb) + list(ub)):
        lb, ub = [int(x) for x in lb], [int(x) for x in ub]
    if f in ("pair", "infpair"):
        lo, hi = lb[0], ub[0]
        if b.get("asint"):
            lo = int(lo) if lo == int(lo) else lo
            hi = int(hi) if hi == int(hi) else hi
        v = (lo, hi)
    elif f == "nonepair":
        v = (None if b["which"] & 1 else lb[0], None if b["which"] & 2 else ub[0])
    elif f in ("list", "listinf"):
        v = [(l, u) for l, u in zip(lb, ub)]
    elif f == "tuples":
        v = tuple([l, u] for l, u in zip(lb, ub))
    elif f == "nd":
        v = np.array([lb, ub]).T.copy()
    elif f == "listnone":
        v = [(None if m & 1 else l, None if m & 2 else u) for m, l, u in zip(b["mask"], lb, ub)]
    elif f in ("arrays", "arraysinf"):
        v = (np.array(lb), np.array(ub))
    elif f == "lists":
        v = [list(lb), list(ub)]
    elif f == "arraysnan":
        v = (np.array([np.nan if m & 1 else l for m, l in zip(b["mask"], lb)]),
             np.array([np.nan if m & 2 else u for m, u in zip(b["mask"], ub)]))
    else:
        raise AssertionError(f)
    return {"weight_bounds": v}


# ---------------------------------------------------------------- feasible point


@st.composite
def feasible_point(draw, n, short, total=1):
    if total == 1 and not short:
        v = ints(draw, n, 0, 8)
        if sum(v) == 0:
            v = [1] * n
        s = float(sum(v))
        return [x / s for x in v]
    d = ints(draw, n, -20, 20)
    m = sum(d) / float(n)
    return [total / float(n) + (x - m) / 40.0 for x in d]


# ---------------------------------------------------------------- user constraints

CON_SLACK = [0.0, 0.01, 0.05, 0.2]


@st.composite
def cons_case(draw, w0, nonlinear=True, kinds=None, maxn=3):
    n = len(w0)
    out = []
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2, maxn]))):
        ks = ["single_le", "single_ge", "single_eq", "lin_le", "lin_ge", "lin_eq", "pair", "vec_ge", "vec_le",
              "scal_ge", "ratio"]
        if nonlinear:
            ks += ["l1", "linf"]
            if nonlinear == "all":
                ks += ["turn", "ssq"]
        t = draw(st.sampled_from(kinds or ks))
        c = dict(t=t, form=draw(st.integers(0, 6)))
        s = draw(st.sampled_from(CON_SLACK))
        w = np.array(w0)
        if t.startswith("single"):
            i = draw(st.integers(0, n - 1))
            a = [0.0] * n
            a[i] = 1.0
            c.update(a=a, i=i)
        elif t == "pair":
            i = draw(st.integers(0, n - 1))
            j = draw(st.integers(0, n - 2))
            j = j + 1 if j >= i else j
            a = [0.0] * n
            a[i], a[j] = 1.0, -1.0
            c.update(a=a)
        elif t == "ratio":
            i = draw(st.integers(0, n - 1))
            a = [-0.1 * draw(st.integers(1, 9))] * n
            a[i] += 1.0
            c.update(a=a)
        elif t.startswith("lin"):
            a = [x / 2.0 for x in ints(draw, n, -3, 4)]
            if not any(a):
                a = [1.0] + [0.0] * (n - 1)
            c.update(a=a)
        if "a" in c:
            v = float(np.dot(c["a"], w))
            if t.endswith("_eq"):
                c["b"] = v
            elif t.endswith("_ge"):
                c["b"] = v - s
            else:
                c["b"] = v + s
        elif t == "vec_ge":
            c["v"] = [x - draw(st.sampled_from(CON_SLACK)) for x in w0]
        elif t == "vec_le":
            c["v"] = [x + draw(st.sampled_from(CON_SLACK)) for x in w0]
        elif t == "scal_ge":
            c["b"] = float(min(w0) - s)
        elif t == "l1":
            c["b"] = float(np.abs(w).sum() + s)
        elif t == "linf":
            c["b"] = float(np.abs(w).max() + s)
        elif t == "turn":
            d = np.array(ints(draw, n, -5, 5)) / 50.0
            c["v"] = [float(x) for x in (w + d)]
            c["b"] = float(np.abs(d).sum() + s)
        elif t == "ssq":
            c["b"] = float((w ** 2).sum() + s)
        out.append(c)
    return out


def con_fn(c):
    """The callable handed to add_constraint."""
    import cvxpy as cp
    t, f = c["t"], c["form"]
    if "a" in c:
        a = np.array(c["a"])
        b = c["b"]
        pos, neg = np.where(a > 0)[0], np.where(a < 0)[0]

        def lhs(w):
            if f == 4:
                return cp.sum(cp.multiply(a, w))
            if t.startswith("single"):
                return w[c["i"]]
            return w @ a if f != 5 else a @ w

        def split(w):
            l = w[pos] @ a[pos] if len(pos) else 0
            r = w[neg] @ (-a[neg]) if len(neg) else 0
            return l, r

        if t.endswith("_eq"):
            if f in (0, 4, 5):
                return lambda w: lhs(w) == b
            if f == 1:
                return lambda w: b == lhs(w)
            if f in (2, 3):
                return lambda w: lhs(w) - b == 0
            return lambda w: (split(w)[0] == b + split(w)[1]) if len(pos) else (b + split(w)[1] == 0)
        ge = t.endswith("_ge")
        if f == 6 and len(pos):
            return (lambda w: split(w)[0] >= b + split(w)[1]) if ge else (lambda w: split(w)[0] <= b + split(w)[1])
        if f == 1:
            return (lambda w: b <= lhs(w)) if ge else (lambda w: b >= lhs(w))
        if f == 2:
            return (lambda w: lhs(w) - b >= 0) if ge else (lambda w: lhs(w) - b <= 0)
        if f == 3:
            return (lambda w: 0 <= lhs(w) - b) if ge else (lambda w: 0 >= lhs(w) - b)
        if f == 5:
            return (lambda w: -lhs(w) <= -b) if ge else (lambda w: -lhs(w) >= -b)
        return (lambda w: lhs(w) >= b) if ge else (lambda w: lhs(w) <= b)
    if t == "vec_ge":
        v = np.array(c["v"])
        return [lambda w: w >= v, lambda w: v <= w, lambda w: w - v >= 0][f % 3]
    if t == "vec_le":
        v = np.array(c["v"])
        return [lambda w: w <= v, lambda w: v >= w, lambda w: w - v <= 0][f % 3]
    if t == "scal_ge":
        b = c["b"]
        return [lambda w: w >= b, lambda w: b <= w, lambda w: w - b >= 0][f % 3]
    if t == "l1":
        return lambda w: cp.norm(w, 1) <= c["b"]
    if t == "linf":
        return lambda w: cp.norm(w, "inf") <= c["b"]
    if t == "turn":
        return lambda w: cp.norm(w - np.array(c["v"]), 1) <= c["b"]
    if t == "ssq":
        return lambda w: cp.sum_squares(w) <= c["b"]
    raise AssertionError(t)


@st.composite
def sector_case(draw, tick, w0):
    if draw(st.integers(0, 3)) != 0:
        return None
    n = len(w0)
    secs = ["tech", "oil", "fin"]
    m = [draw(st.sampled_from(secs + [None])) for _ in range(n)]
    lower, upper = {}, {}
    for s in secs:
        tot = float(sum(w for w, x in zip(w0, m) if x == s))
        if s not in m:
            continue
        z = draw(st.integers(0, 3))
        if z & 1:
            lower[s] = tot - draw(st.sampled_from(CON_SLACK))
        if z & 2:
            upper[s] = tot + draw(st.sampled_from(CON_SLACK))
    if draw(st.booleans()):
        m = [x if x is not None else "other" for x in m]
    return dict(map=m, lower=lower, upper=upper)


def sector_args(s, tick):
    order = list(range(len(tick)))[::-1]
    return ({tick[i]: s["map"][i] for i in order if s["map"][i] is not None}, dict(s["lower"]), dict(s["upper"]))


# ---------------------------------------------------------------- linear system


class Feas:
    """The feasible set of a case in plain numpy: lb, ub, budget, A_ub w <= b_ub,
    A_eq w == b_eq and a list of norm-type constraints."""

    def __init__(self, case, total=1, lb=None, ub=None):
        b = case["bounds"]
        n = len(b["lb"])
        self.n = n
        self.lb = np.array(b["lb"], dtype=float) if lb is None else np.array(lb, float)
        self.ub = np.array(b["ub"], dtype=float) if ub is None else np.array(ub, float)
        self.total = total
        if total == 0 and not np.any(self.lb < 0):
            # documented: market neutrality needs shorting, so non-negative bounds are amended to (-1, 1)
            self.lb, self.ub = -np.ones(n), np.ones(n)
        Aub, bub, Aeq, beq, self.nl = [], [], [], [], []
        for c in case.get("cons", []):
            t = c["t"]
            if "a" in c:
                a = np.array(c["a"])
                if t.endswith("_eq"):
                    Aeq.append(a); beq.append(c["b"])
                elif t.endswith("_ge"):
                    Aub.append(-a); bub.append(-c["b"])
                else:
                    Aub.append(a); bub.append(c["b"])
            elif t == "vec_ge":
                Aub.extend(-np.eye(n)); bub.extend(-np.array(c["v"]))
            elif t == "vec_le":
                Aub.extend(np.eye(n)); bub.extend(np.array(c["v"]))
            elif t == "scal_ge":
                Aub.extend(-np.eye(n)); bub.extend([-c["b"]] * n)
            else:
                self.nl.append(c)
        s = case.get("sector")
        if s:
            for sec, v in s["upper"].items():
                Aub.append(np.array([1.0 if x == sec else 0.0 for x in s["map"]])); bub.append(v)
            for sec, v in s["lower"].items():
                Aub.append(-np.array([1.0 if x == sec else 0.0 for x in s["map"]])); bub.append(-v)
        self.Aub = np.array(Aub, float).reshape(-1, n)
        self.bub = np.array(bub, float)
        self.Aeq = np.array(Aeq, float).reshape(-1, n)
        self.beq = np.array(beq, float)
        if total is not None:
            self.Aeq = np.vstack([self.Aeq, np.ones((1, n))])
            self.beq = np.append(self.beq, float(total))

    def violation(self, w):
        """(largest violation, description)"""
        w = np.asarray(w, float)
        worst, what = 0.0, ""
        checks = []
        for i in range(self.n):
            checks.append((self.lb[i] - w[i], "lower bound of asset %d (%.6g < %.6g)" % (i, w[i], self.lb[i])))
            checks.append((w[i] - self.ub[i], "upper bound of asset %d (%.6g > %.6g)" % (i, w[i], self.ub[i])))
        for a, b in zip(self.Aeq, self.beq):
            checks.append((abs(float(a @ w) - b), "equality %s.w = %.6g (is %.6g)" % (list(np.round(a, 3)), b, a @ w)))
        for a, b in zip(self.Aub, self.bub):
            checks.append((float(a @ w) - b, "inequality %s.w <= %.6g (is %.6g)" % (list(np.round(a, 3)), b, a @ w)))
        for c in self.nl:
            checks.append((self.nlval(c, w) - c["b"], "%s constraint <= %.6g (is %.6g)" % (c["t"], c["b"], self.nlval(c, w))))
        for v, d in checks:
            if not v <= worst:
                worst, what = v, d
        return worst, what

    @staticmethod
    def nlval(c, w):
        t = c["t"]
        if t == "l1":
            return float(np.abs(w).sum())
        if t == "linf":
            return float(np.abs(w).max())
        if t == "turn":
            return float(np.abs(w - np.array(c["v"])).sum())
        if t == "ssq":
            return float((w ** 2).sum())
        raise AssertionError(t)


# ---------------------------------------------------------------- EF cases


@st.composite
def amended_bounds(draw, n):
    """Long-only bounds, which market_neutral=True replaces by (-1, 1)."""
    k = draw(st.integers(0, 4))
    hi = draw(st.sampled_from([1.0, 0.4, 0.25]))
    passed = [dict(fmt="default"), dict(fmt="pair", lb=[0.0] * n, ub=[hi] * n, asint=draw(st.booleans())), dict(fmt="list", lb=[0.0] * n, ub=[hi] * n),
              dict(fmt="pair", lb=[0.05] * n, ub=[hi] * n), dict(fmt="arrays" if n != 2 else "tuples", lb=[0.0] * (n - 1) + [0.1], ub=[hi] * n)][k]
    if k == 0:
        passed.update(lb=[0.0] * n, ub=[1.0] * n)
    return dict(fmt="amended", lb=[-1.0] * n, ub=[1.0] * n, passed=passed)


@st.composite
def ef_case(draw, nmin=2, nmax=6, short=None, neutral=False, cov_kinds=("pd", "pd", "factor", "diag", "ill"),
            nonlinear=False, cons=True, finite=True, sectors=True, kinds=None):
    n = draw(st.integers(nmin, nmax))
    if short is None:
        short = draw(st.integers(0, 2)) == 0
    if neutral:
        short = True
    total = 0 if neutral else 1
    tick = draw(tickers(n))
    w0 = draw(feasible_point(n, short, total))
    case = dict(n=n, tick=tick, short=short, neutral=bool(neutral), w0=w0, cov=draw(cov_case(n, cov_kinds)),
                mu=mu_ints(draw, n),
                bounds=draw(bounds_case(w0, short, finite)),
                cons=draw(cons_case(w0, nonlinear, kinds)) if cons else [],
                sector=draw(sector_case(tick, w0)) if sectors else None,
                muc=draw(st.sampled_from(MU_CONT)), covc=draw(st.sampled_from(["df", "df", "nd"])))
    if neutral and max(np.abs(w0)) <= 1 and draw(st.integers(0, 3)) == 0:
        case["bounds"] = draw(amended_bounds(n))
    return case


def labels_of(case):
    if case["muc"] == "series" or case["covc"] == "df":
        return list(case["tick"])
    return list(range(case["n"]))


def mu_of(case):
    return np.array(case["mu"], float) / 1000.0


def ef_inputs(case):
    mu, S = mu_of(case), build_cov(case["cov"])
    return mu, S, as_mu(mu, case["muc"], case["tick"]), as_cov(S, case["covc"], case["tick"])


TIGHT = dict(tol_gap_abs=1e-10, tol_gap_rel=1e-10, tol_feas=1e-10)


def solver_kw(case):
    if case.get("solver", "CLARABEL") == "CLARABEL":
        return dict(solver="CLARABEL", solver_options=dict(TIGHT))
    return {}


def apply_cons(opt, case):
    for c in case.get("cons", []):
        opt.add_constraint(con_fn(c))
    if case.get("sector"):
        opt.add_sector_constraints(*sector_args(case["sector"], labels_of(case)))


def make_ef(case, **extra):
    import pypfopt
    mu, S, m, C = ef_inputs(case)
    kw = bounds_kw(case["bounds"])
    kw.update(solver_kw(case))
    kw.update(extra)
    ef = pypfopt.EfficientFrontier(m, C, **kw)
    apply_cons(ef, case)
    return ef, mu, S


# ---------------------------------------------------------------- return samples


@st.composite
def returns_case(draw, n, tmin=8, tmax=30, scale=(1, 2, 5), common=True):
    """T x n returns in units of 0.1 % * scale, with a common factor."""
    T = draw(st.integers(tmin, tmax))
    sc = draw(st.sampled_from(scale))
    R = grid(draw, T, n, -30, 30)
    c = dict(T=T, R=R, sc=sc)
    if common:
        c["f"] = ints(draw, T, -20, 20) if draw(st.booleans()) else [0] * T
    c["drift"] = ints(draw, n, -5, 8)
    return c


def build_returns(c):
    R = np.array(c["R"], float)
    if "f" in c:
        R = R + np.array(c["f"], float)[:, None]
    return (R + np.array(c["drift"], float)[None, :]) * c["sc"] / 1000.0


@st.composite
def gaps_case(draw, T, n):
    """Extra periods with missing returns, and the row index of the frame."""
    if draw(st.integers(0, 3)):
        return dict(rows=[], index=draw(st.sampled_from(["range", "daily", "rev"])))
    rows = [[draw(st.integers(0, T)), draw(st.integers(0, n)), draw(st.integers(-40, 40))] for _ in range(draw(st.integers(1, 3)))]
    return dict(rows=rows, index=draw(st.sampled_from(["range", "daily", "rev"])))


NO_GAPS = dict(rows=[], index="range")


def passed_returns(R, kind, tick, gaps):
    """The returns as passed: the documented behaviour is to leave periods with missing values out."""
    R = np.array(R, float)
    n = R.shape[1]
    for pos, col, val in gaps["rows"]:
        row = np.full(n, val / 100.0)
        row[col if col < n else slice(None)] = np.nan
        R = np.insert(R, min(pos, len(R)), row, axis=0)
    if kind == "nd":
        return R
    idx = make_index("daily", len(R)) if gaps["index"] == "daily" else range(len(R)) if gaps["index"] == "range" else range(len(R) + 3, 3, -1)
    return pd.DataFrame(R, columns=list(tick), index=idx)


@st.composite
def dates(draw, T):
    kind = pick(draw, "range", "daily", "weekly")
    return kind


def make_index(kind, T):
    if kind == "daily":
        return pd.date_range("2015-01-05", periods=T, freq="B")
    if kind == "weekly":
        return pd.date_range("2012-02-03", periods=T, freq="W")
    return pd.RangeIndex(T)


# ---------------------------------------------------------------- outputs


def get_weights(res, labels, what="weights"):
    """Validates a returned weights dict and gives it as an array in label order."""
    from .core import Violation
    if not isinstance(res, dict):
        raise Violation("%s: expected a dict, got %r" % (what, type(res)))
    if list(res.keys()) != list(labels):
        raise Violation("%s: keys %r, expected the tickers %r in order" % (what, list(res.keys()), list(labels)))
    try:
        w = np.array([float(v) for v in res.values()])
    except (TypeError, ValueError):
        raise Violation("%s: non-numeric values %r" % (what, list(res.values())))
    if not np.all(np.isfinite(w)):
        raise Violation("%s: non-finite values %r" % (what, w))
    return w


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))) | (np.isnan(a) & np.isnan(b))
                       | (a == b)))


def expect_close(a, b, what, rtol=1e-9, atol=1e-12):
    from .core import Violation
    if not close(a, b, rtol, atol):
        raise Violation("%s: got %s, expected %s" % (what, np.array2string(np.asarray(a, float), precision=10, threshold=40),
                                                     np.array2string(np.asarray(b, float), precision=10, threshold=40)))


def check_frame(df, labels, what):
    from .core import Violation
    if not isinstance(df, pd.DataFrame):
        raise Violation("%s: expected a DataFrame, got %r" % (what, type(df)))
    if list(df.index) != list(labels) or list(df.columns) != list(labels):
        raise Violation("%s: labels %r/%r, expected %r" % (what, list(df.index), list(df.columns), list(labels)))
    return df.values.astype(float)


def check_series(s, labels, what):
    from .core import Violation
    if not isinstance(s, pd.Series):
        raise Violation("%s: expected a Series, got %r" % (what, type(s)))
    if list(s.index) != list(labels):
        raise Violation("%s: labels %r, expected %r" % (what, list(s.index), list(labels)))
    return s.values.astype(float)
