import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import bl, gen

PROP = Prop("C19", "2-6 assets, 1-7 views (absolute dict/Series, or P/Q in every container), every prior, tau, and Omega (default, diagonal, full, DataFrame, "
            "Idzorek, zero); sequences of bl_returns, bl_cov, bl_weights, optimize and portfolio_performance on one object; views permuted; views equal to "
            "the prior; certain views. Also 9-16 assets. Non-trivial: the posterior differs from the prior by > 1e-4 (or, for no surprise, there is a view).",
            ["view systems with condition number below 1e7; both the formula with the KxK inverse and, where Omega and the covariance are invertible, "
             "the information form of Bayes' rule; compared at 1e-7 of the largest value"])
CALLS = ["bl_returns", "bl_cov", "bl_weights", "optimize", "portfolio_performance", "bl_weights2"]


@st.composite
def g(draw, **size):
    c = draw(bl.bl_case(**size))
    c["calls"] = draw(st.lists(st.sampled_from(CALLS), min_size=1, max_size=5)) + [draw(st.sampled_from(["bl_returns", "bl_cov"]))]
    c["vperm"] = draw(st.permutations(list(range(c["k"]))))
    return c


def rets(o, m, what):
    return gen.check_series(o.bl_returns(), m.labels, what + ".bl_returns")


def cov(o, m, what):
    return gen.check_frame(o.bl_cov(), m.labels, what + ".bl_cov")


def close(a, b, scale, what, tol=1e-7):
    if not np.all(np.abs(a - b) <= tol * scale + 1e-13):
        raise Violation("%s: got %s, expected %s" % (what, a.tolist(), b.tolist()))


def use(o, name):
    try:
        if name == "portfolio_performance":
            o.portfolio_performance()
        elif name == "bl_weights2":
            o.bl_weights(risk_aversion=3.3)
        else:
            getattr(o, name)()
    except ValueError:
        if name != "portfolio_performance":
            raise


@PROP.sub("posterior", g(), quick=6000)
def post(case, rec):
    rec.lib = True
    m = bl.Model(case)
    m.conditioned()
    o = m.build()
    er, ec = m.post_rets(), m.post_cov()
    rs = np.abs(m.pi).max() + np.abs(m.Q).max() + 1e-3
    cs = np.abs(m.S).max()
    b = m.bayes()
    done = []
    for name in case["calls"]:
        if name == "bl_returns":
            r = rets(o, m, "after %s" % done)
            close(r, er, rs, "bl_returns after %s" % done)
            if b is not None:
                close(r, b[0], rs, "bl_returns and Bayes' rule after %s" % done, 1e-6)
        elif name == "bl_cov":
            c = cov(o, m, "after %s" % done)
            close(c, ec, cs, "bl_cov after %s" % done)
            if b is not None:
                close(c, b[1], cs, "bl_cov and Bayes' rule after %s" % done, 1e-6)
        else:
            use(o, name)
        done.append(name)
    rec.label("views=" + case["vkind"], "pi=" + case["pi"], "omega=" + case["omega"], "cov=" + case["covc"], "k=%d" % case["k"])
    rec.nt(np.abs(er - m.pi).max() > 1e-4)


@PROP.sub("view_order", g(), quick=1500)
def order(case, rec):
    rec.lib = True
    m = bl.Model(case)
    m.conditioned()
    p = case["vperm"]
    c2 = dict(case, q=[case["q"][i] for i in p], om=[case["om"][i] for i in p], conf=[case["conf"][i] for i in p])
    for key in ("idx", "P"):
        if key in case:
            c2[key] = [case[key][i] for i in p]
    if case["vkind"] == "Qonly":
        c2.update(vkind="PQ", P=[[1 if j == i else 0 for j in range(case["n"])] for i in p])
    over = {}
    if case["omega"] == "full":
        over["omega"] = m.omega[np.ix_(p, p)].copy()
    m2 = bl.Model(c2)
    a, b = m.build(), m2.build(**over)
    rs = np.abs(m.pi).max() + np.abs(m.Q).max() + 1e-3
    close(rets(b, m, "permuted"), rets(a, m, ""), rs, "bl_returns with the views permuted by %s" % p)
    close(cov(b, m, "permuted"), cov(a, m, ""), np.abs(m.S).max(), "bl_cov with the views permuted by %s" % p)
    rec.label("views=" + case["vkind"], "omega=" + case["omega"])
    rec.nt(list(p) != sorted(p))


@PROP.sub("no_surprise", g(), quick=1200)
def nos(case, rec):
    rec.lib = True
    m = bl.Model(case)
    c = dict(case, q=[float(x) for x in m.P @ m.pi])
    m = bl.Model(c)
    m.conditioned()
    r = rets(m.build(), m, "Q = P pi")
    close(r, m.pi, np.abs(m.pi).max() + 1e-3, "bl_returns with views equal to the prior")
    rec.label("views=" + case["vkind"], "pi=" + case["pi"])
    rec.nt(np.abs(m.pi).max() > 0)


@PROP.sub("certain_views", g(), quick=1200)
def cert(case, rec):
    rec.lib = True
    m = bl.Model(dict(case, omega="zero"))
    if np.linalg.matrix_rank(m.P) < len(m.P) or np.linalg.cond(m.P @ m.S @ m.P.T) > 1e5:
        raise Skip("dependent views")
    r = rets(m.build(), m, "certain views")
    close(m.P @ r, m.Q, np.abs(m.Q).max() + np.abs(m.pi).max() * np.abs(m.P).sum(axis=1).max() + 1e-3, "P @ bl_returns with Omega = 0", 1e-6)
    rec.label("views=" + case["vkind"], "pi=" + case["pi"])
    rec.nt(np.abs(m.P @ m.pi - m.Q).max() > 1e-3)


PROP.sub("wide_posterior", g(nmin=9, nmax=16), quick=750)(post)
PROP.sub("wide_view_order", g(nmin=9, nmax=16), quick=300)(order)
