import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import est, gen

PROP = Prop("C18", "Symmetric matrices of size 1-7 with prescribed spectra (positive, with zeros, slightly and strongly indefinite) over six orders of "
            "magnitude, as array or labelled DataFrame, both repair methods; covariance matrices and positive standard deviations. "
            "Also sizes 8-20. Non-trivial: off-diagonal entries, and for the repair a clearly indefinite matrix or a clearly positive one.",
            ["matrices within 1e-9 (relative) of singular are only checked to change by no more than that",
             "the nearest PSD matrix is the one with the negative eigenvalues set to zero (Higham 1988)"])


@st.composite
def sym(draw, lo=1, hi=7):
    n = draw(st.integers(lo, hi))
    kind = draw(st.sampled_from(["pd", "indef", "indef", "zero", "neg", "slight", "cov"]))
    q = gen.ints(draw, n, 1, 50)
    if kind in ("indef", "slight"):
        k = draw(st.integers(1, n))
        q = [-x if i < k else x for i, x in enumerate(q)]
        if kind == "slight":
            q = [x / 1e4 if x < 0 else x for x in q]
    elif kind == "neg":
        q = [-x for x in q]
    elif kind == "zero":
        k = draw(st.integers(1, n))
        q = [0 if i < k else x for i, x in enumerate(q)]
    return dict(n=n, kind=kind, q=q, A=[gen.ints(draw, n, -9, 9) for _ in range(n)], scale=draw(st.sampled_from([1e-2, 1e-4, 1.0, 1e-6, 100.0])),
                tick=draw(gen.tickers(n)), cont=draw(st.sampled_from(["df", "nd"])), fix=draw(st.sampled_from([None, "spectral", "diag"])),
                d=[x / 100.0 for x in gen.ints(draw, n, 1, 60)])


def matrix(c):
    n = c["n"]
    A = np.array(c["A"], float) + 10 * np.eye(n)
    Q, _ = np.linalg.qr(A)
    S = (Q * (np.array(c["q"]) * c["scale"])) @ Q.T
    return (S + S.T) / 2


def wrap(c, S):
    return pd.DataFrame(S.copy(), index=list(c["tick"]), columns=list(c["tick"])) if c["cont"] == "df" else S.copy()


def unwrap(c, out, what):
    if c["cont"] == "df":
        return gen.check_frame(out, c["tick"], what)
    if not isinstance(out, np.ndarray):
        raise Violation("%s: an array became %r" % (what, type(out)))
    return out


@PROP.sub("repair", sym(), quick=6000)
def rep(case, rec):
    rec.lib = True
    from pypfopt import risk_models as rm
    S = matrix(case)
    kw = {} if case["fix"] is None else dict(fix_method=case["fix"])
    m = wrap(case, S)
    out = rm.fix_nonpositive_semidefinite(m, **kw)
    what = "fix_nonpositive_semidefinite(%s)" % case["fix"]
    got = unwrap(case, out, what)
    lo, hi = est.psd_margin(S)
    scale = np.abs(np.linalg.eigvalsh(S)).max()
    if np.abs(unwrap(case, m, what) - S).max() > 0:
        raise Violation("%s changed its argument" % what)
    if lo > 1e-9 * scale:
        if not np.array_equal(got, S):
            raise Violation("%s changed the positive definite matrix %s into %s" % (what, S.tolist(), got.tolist()))
        kind = "positive definite"
    elif lo >= -1e-9 * scale:
        if not np.abs(got - S).max() <= 1e-8 * scale + 2e-16:
            raise Violation("%s changed the singular PSD matrix %s into %s" % (what, S.tolist(), got.tolist()))
        kind = "singular"
    else:
        if lo > -1e-15:
            raise Skip("negative eigenvalue below machine precision")
        want = S - 1.1 * lo * np.eye(case["n"]) if case["fix"] == "diag" else est.nearest_psd(S)
        if not np.abs(got - want).max() <= 1e-10 * scale:
            raise Violation("%s of %s: %s, expected %s" % (what, S.tolist(), got.tolist(), want.tolist()))
        kind = "indefinite"
    if not np.abs(got - got.T).max() <= 1e-12 * scale:
        raise Violation("%s: result not symmetric" % what)
    if not est.psd_margin(got)[0] >= -1e-9 * scale - 1e-15:
        raise Violation("%s: result not positive semidefinite (smallest eigenvalue %g)" % (what, est.psd_margin(got)[0]))
    again = unwrap(case, rm.fix_nonpositive_semidefinite(out, **kw), what)
    if not np.abs(again - got).max() <= 1e-8 * scale + 1e-15:
        raise Violation("%s: a second application changes %s into %s" % (what, got.tolist(), again.tolist()))
    rec.label(kind, case["cont"], "fix=%s" % case["fix"], "n=%d" % case["n"])
    rec.nt(case["n"] > 1 and kind != "singular")


@PROP.sub("corr", sym(), quick=4000)
def corr(case, rec):
    rec.lib = True
    from pypfopt import risk_models as rm
    n = case["n"]
    S = matrix(dict(case, q=[abs(x) + 1 for x in case["q"]]))
    sd = np.array(case["d"])
    labels = list(case["tick"]) if case["cont"] == "df" else list(range(n))
    C = gen.check_frame(rm.cov_to_corr(wrap(case, S)), labels, "cov_to_corr")
    own = np.sqrt(np.diag(S))
    gen.expect_close(C, S / np.outer(own, own), "cov_to_corr", 1e-10, 1e-12)
    if not np.abs(np.diag(C) - 1).max() <= 1e-12:
        raise Violation("cov_to_corr: diagonal %s" % np.diag(C))
    sds = {"df": sd, "nd": list(sd)}[case["cont"]] if case["fix"] != "diag" else pd.Series(sd, index=list(case["tick"]))
    Cin = pd.DataFrame(C.copy(), index=list(case["tick"]), columns=list(case["tick"])) if case["cont"] == "df" else C.copy()
    V = gen.check_frame(rm.corr_to_cov(Cin, sds), labels, "corr_to_cov")
    gen.expect_close(V, C * np.outer(sd, sd), "corr_to_cov", 1e-10, 1e-14)
    back = gen.check_frame(rm.cov_to_corr(pd.DataFrame(V, index=labels, columns=labels)), labels, "cov_to_corr(corr_to_cov)")
    gen.expect_close(back, C, "cov_to_corr(corr_to_cov(C, s))", 1e-9, 1e-11)
    cov2 = gen.check_frame(rm.corr_to_cov(rm.cov_to_corr(wrap(case, S)), own), labels, "corr_to_cov(cov_to_corr)")
    gen.expect_close(cov2, S, "corr_to_cov(cov_to_corr(S), sqrt(diag S))", 1e-9, 1e-11 * np.abs(S).max())
    rec.label(case["cont"], "n=%d" % n)
    rec.nt(n > 1 and np.abs(C - np.eye(n)).max() > 1e-3)


PROP.sub("wide_repair", sym(8, 20), quick=900)(rep)
PROP.sub("wide_corr", sym(8, 20), quick=600)(corr)
