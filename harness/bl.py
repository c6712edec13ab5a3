"""Black-Litterman cases and reference formulas."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from .core import Skip, Violation
from . import gen


def build_cov(case):
    S = gen.build_cov(case["cov"])
    if case.get("dup"):
        i, j = case["dup"]          # asset j is a copy of asset i
        S = S.copy()
        S[j, :] = S[i, :]
        S[:, j] = S[:, i]
        S[j, j] = S[i, i]
    return S


@st.composite
def bl_case(draw, nmax=6, nmin=2, cov_kinds=("pd", "pd", "factor", "diag"), singular=False, omegas=("none", "none", "default", "diag", "full", "df", "idz")):
    n = draw(st.integers(nmin, nmax))
    c = dict(n=n, tick=draw(gen.tickers(n)), covc=draw(st.sampled_from(["df", "df", "nd"])), cov=draw(gen.cov_case(n, cov_kinds)),
             tau=draw(st.sampled_from([None, 0.05, 0.01, 0.5, 1, 1.0, 0.2])), ra=draw(st.sampled_from([None, 1, 2.5, 0.5, 10])))
    if singular and c["cov"]["kind"] != "cash":
        i = draw(st.integers(0, n - 2))
        c["dup"] = [i, draw(st.integers(i + 1, n - 1))]
    c["vkind"] = draw(st.sampled_from(["dict", "dict", "series", "PQ", "PQ", "Qonly"]))
    if c["vkind"] in ("dict", "series"):
        k = draw(st.integers(1, n))
        c["idx"] = draw(st.permutations(list(range(n))))[:k]
    elif c["vkind"] == "PQ":
        k = draw(st.integers(1, n + 1))
        P = [gen.ints(draw, n, -2, 2) for _ in range(k)]
        for r in P:
            if not any(r):
                r[draw(st.integers(0, n - 1))] = 1
        c["P"] = P
    else:
        k = n
    c["k"] = k
    c["q"] = [x / 200.0 for x in gen.ints(draw, k, -60, 80)]
    c["qc"] = draw(st.sampled_from(["nd", "col", "series", "df"]))
    c["pc"] = draw(st.sampled_from(["nd", "df", "int"]))
    c["pi"] = draw(st.sampled_from(["none", "equal", "series", "col", "nd", "df", "market", "market"]))
    c["piv"] = [x / 200.0 for x in gen.ints(draw, n, -40, 80)]
    c["caps"] = gen.ints(draw, n, 1, 60)
    c["capc"] = draw(st.sampled_from(["dict", "series", "nd", "list"]))
    c["caporder"] = draw(st.permutations(list(range(n))))
    c["rf"] = draw(st.sampled_from([None, 0.0, 0.02, -0.01]))
    c["omega"] = draw(st.sampled_from(omegas))
    c["om"] = gen.ints(draw, k, 1, 60)
    c["omF"] = [gen.ints(draw, k, -4, 4) for _ in range(k)] if c["omega"] in ("full",) else []
    c["conf"] = [draw(st.sampled_from([0.5, 0.25, 0.9, 1, 0, 0.05, 1.0, 0.0, 0.7, 0.999, 0.01, 0.002, 0.33])) for _ in range(k)]
    c["cc"] = draw(st.sampled_from(["list", "nd", "col", "series"]))
    return c


class Model:
    """The documented meaning of a case."""

    def __init__(self, case):
        self.case = c = case
        n, k = c["n"], c["k"]
        self.S = build_cov(c)
        self.labels = list(c["tick"]) if c["covc"] == "df" else list(range(n))
        self.tau = 0.05 if c["tau"] is None else c["tau"]
        self.ra = 1 if c["ra"] is None else c["ra"]
        self.Q = np.array(c["q"], float)
        if c["vkind"] in ("dict", "series"):
            self.P = np.zeros((k, n))
            for r, i in enumerate(c["idx"]):
                self.P[r, i] = 1
        elif c["vkind"] == "PQ":
            self.P = np.array(c["P"], float)
        else:
            self.P = np.eye(n)
        rf = 0.0 if c["rf"] is None else c["rf"]
        if c["pi"] == "none":
            self.pi = np.zeros(n)
        elif c["pi"] == "equal":
            self.pi = np.full(n, 1.0 / n)
        elif c["pi"] == "market":
            w = np.array(c["caps"], float) / sum(c["caps"])
            self.pi = self.ra * self.S @ w + rf
        else:
            self.pi = np.array(c["piv"], float)
        var = np.array([self.tau * float(p @ self.S @ p) for p in self.P])
        o = c["omega"]
        if o in ("none", "default"):
            self.omega = np.diag(var)
        elif o in ("diag", "df"):
            self.omega = np.diag([x / 1000.0 for x in c["om"]])
        elif o == "full":
            F = np.array(c["omF"], float) / 20
            self.omega = F @ F.T + np.diag([x / 1000.0 for x in c["om"]])
        elif o == "zero":
            self.omega = np.zeros((k, k))
        elif o == "idz":
            self.omega = np.diag([1e6 if f == 0 else v * (1 - f) / f for f, v in zip(c["conf"], var)])

    def args(self):
        c = self.case
        n, k = c["n"], c["k"]
        kw = {}
        cov = gen.as_cov(self.S, c["covc"], c["tick"])
        if c["vkind"] in ("dict", "series"):
            v = {self.labels[i]: q for i, q in zip(c["idx"], c["q"])}
            kw["absolute_views"] = v if c["vkind"] == "dict" else pd.Series(list(v.values()), index=list(v.keys()))
        else:
            Q = np.array(c["q"], float)
            kw["Q"] = {"nd": Q, "col": Q.reshape(-1, 1), "series": pd.Series(Q, index=["v%d" % i for i in range(k)]), "df": pd.DataFrame(Q)}[c["qc"]]
            if c["vkind"] == "PQ":
                P = np.array(c["P"])
                kw["P"] = {"nd": P.astype(float), "int": P, "df": pd.DataFrame(P.astype(float), columns=self.labels)}[c["pc"]]
        p = c["pi"]
        if p in ("equal", "market"):
            kw["pi"] = p
        elif p != "none":
            kw["pi"] = {"series": pd.Series(self.pi, index=self.labels), "col": self.pi.reshape(-1, 1).copy(), "nd": self.pi.copy(),
                        "df": pd.DataFrame(self.pi, index=self.labels)}[p]
        if p == "market":
            kw["market_caps"] = self.caps()
            if c["rf"] is not None:
                kw["risk_free_rate"] = c["rf"]
        if c["tau"] is not None:
            kw["tau"] = c["tau"]
        if c["ra"] is not None:
            kw["risk_aversion"] = c["ra"]
        o = c["omega"]
        if o == "default":
            kw["omega"] = "default"
        elif o in ("diag", "full", "zero"):
            kw["omega"] = self.omega.copy()
        elif o == "df":
            kw["omega"] = pd.DataFrame(self.omega.copy())
        elif o == "idz":
            f = np.array(c["conf"], float)
            kw["omega"] = "idzorek"
            kw["view_confidences"] = {"list": list(c["conf"]), "nd": f, "col": f.reshape(-1, 1), "series": pd.Series(f, index=range(5, 5 + k))}[c["cc"]]
        return cov, kw

    def caps(self):
        c = self.case
        if c["capc"] in ("nd", "list") or c["covc"] == "nd":
            v = [float(x) for x in c["caps"]]
            return {"nd": np.array(v), "list": v, "series": pd.Series(v), "dict": dict(enumerate(v))}[c["capc"]]
        d = {self.labels[i]: c["caps"][i] for i in c["caporder"]}
        return d if c["capc"] == "dict" else pd.Series(d)

    def build(self, **over):
        import pypfopt
        cov, kw = self.args()
        kw.update(over)
        return pypfopt.BlackLittermanModel(cov, **kw)

    def conditioned(self):
        A = self.tau * self.P @ self.S @ self.P.T + self.omega
        d = np.sqrt(np.diag(A))
        if d.min() <= 1e-12:
            raise Skip("degenerate view")
        if np.linalg.cond(A / np.outer(d, d)) > 1e7:
            raise Skip("ill-conditioned views")

    def post_rets(self):
        """pi + tau S P' (tau P S P' + Omega)^-1 (Q - P pi)"""
        tS = self.tau * self.S
        A = self.P @ tS @ self.P.T + self.omega
        return self.pi + tS @ self.P.T @ np.linalg.inv(A) @ (self.Q - self.P @ self.pi)

    def post_cov(self):
        tS = self.tau * self.S
        A = self.P @ tS @ self.P.T + self.omega
        return self.S + tS - tS @ self.P.T @ np.linalg.inv(A) @ self.P @ tS

    def bayes(self):
        """The information form, for invertible S and Omega."""
        if np.linalg.cond(self.omega) > 1e5 or np.linalg.cond(self.S) > 1e5:
            return None
        Oi, Si = np.linalg.inv(self.omega), np.linalg.inv(self.tau * self.S)
        M = np.linalg.inv(Si + self.P.T @ Oi @ self.P)
        return M @ (Si @ self.pi + self.P.T @ Oi @ self.Q), self.S + M
