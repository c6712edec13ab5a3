"""Printed reports: what verbose=True prints is what is returned."""
import contextlib, io, math, re
import numpy as np
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import da, gen
from . import c10, c26

PROP = Prop("C33", "portfolio_performance of every class (weights from an optimisation, set_weights or nonconvex_objective) and the module function with verbose True, False and absent; "
            "greedy_portfolio and lp_portfolio of long-only weights, verbose or not, after earlier calls. Non-trivial: verbose=True and the printed return and risk "
            "(or the allocated and desired weights of some asset) differ.",
            ["printed numbers are compared up to half a unit of the last digit shown", "numbers are recognised by the key words of their lines (return; volatility, deviation, at risk; ratio)",
             "long/short allocations print the reports of neither side and are left out"])
LINE = re.compile(r"^(.*\S)\s*:\s*\$?(-?(?:\d[\d,]*\.?\d*(?:[eE][-+]?\d+)?|nan|inf))\s*(%?)$")
ALLOC = re.compile(r"^(.*): allocated (-?[\d.]+|-?nan|-?inf), desired (-?[\d.]+|-?nan|-?inf)$")


@contextlib.contextmanager
def captured():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


def agrees(text, value, pct, what):
    t = text.replace(",", "")
    v = float(value) * (100 if pct else 1)
    if "nan" in t or "inf" in t or not math.isfinite(v):
        if str(float(t)) != str(v):
            raise Violation("%s: printed %s, returned %r" % (what, text, value))
        return
    if "e" in t.lower():
        ok = abs(float(t) - v) <= 1e-2 * abs(v)
    else:
        d = len(t.split(".")[1]) if "." in t else 0
        ok = abs(float(t) - v) <= 0.5 * 10.0 ** -d * (1 + 1e-6) + 1e-9 * abs(v)
    if not ok:
        raise Violation("%s: printed %s%s for the figure %r" % (what, text, "%" if pct else "", value))


def key_of(label):
    s = label.lower()
    if "ratio" in s:
        return 2
    if any(x in s for x in ("volatility", "deviation", "at risk", "risk", "drawdown")):
        return 1
    if "return" in s:
        return 0
    return None


def check_report(text, got, verbose, what):
    if not verbose:
        if text.strip():
            raise Violation("%s prints %r" % (what, text[:200]))
        return
    seen = {}
    for line in text.splitlines():
        m = LINE.match(line.strip())
        if not m:
            continue
        k = key_of(m.group(1))
        if k is None:
            continue
        if k in seen:
            raise Violation("%s prints two figures for %s: %r" % (what, ("return", "risk", "ratio")[k], text[:300]))
        seen[k] = (m.group(2), m.group(3), line)
    for k, v in enumerate(got):
        nm = ("return", "risk", "ratio")[k]
        if v is None:
            if k in seen:
                raise Violation("%s prints %r although no %s is returned" % (what, seen[k][2], nm))
            continue
        if k not in seen:
            raise Violation("%s does not print the %s %r: %r" % (what, nm, v, text[:300]))
        agrees(seen[k][0], v, seen[k][1] == "%", "%s, %s" % (what, nm))


@st.composite
def perf_case(draw):
    c = draw(c10.held())
    c["vb"] = draw(st.lists(st.sampled_from([True, True, False, None]), min_size=1, max_size=3))
    return c


@PROP.sub("performance", perf_case(), quick=2500)
def performance(case, rec):
    rec.lib = True
    if case["kind"] == "CLA" and len(set(case["mu"])) < case["n"]:
        case["mu"] = [x * 10 + i for i, x in enumerate(case["mu"])]
    I = c10.Inst(case)
    k, mode = case["kind"], case["mode"]
    if k == "HRPcov" and min(np.linalg.eigvalsh(I.S)) <= 0:
        raise Skip("covariance not positive definite")
    if k in ("EF", "SV", "CVAR", "CDAR") and case.get("nc"):
        I.o.nonconvex_objective(lambda w, c: ((w - c) ** 2).sum(), objective_args=(np.clip(case["w"], -1, 1),), weights_sum_to_one=False)
    elif mode.startswith("opt") or k in ("CLA", "CVAR", "CDAR"):
        c10.try_opt(I)
    else:
        c10.set_w(I, case["w"], case)
    if not np.all(np.isfinite(np.asarray(I.o.weights, float))):
        raise Skip("weights not finite")
    first = None
    for j, v in enumerate(case["vb"]):
        with captured() as buf:
            got = I.perf(case["rf"][0], v)
        what = "%s.portfolio_performance(verbose=%s)" % (k, v)
        check_report(buf.getvalue(), got, v, what)
        if first is not None and any((a is None) != (b is None) or (a is not None and not math.isclose(a, b, rel_tol=1e-12, abs_tol=1e-15) and a == a)
                                     for a, b in zip(first, got)):
            raise Violation("%s: %r, before %r" % (what, got, first))
        first = got
        rec.nt(bool(v) and (got[0] is None or abs(got[0] - got[1]) > 1e-3))
    rec.label(k, mode, "no mu" if I.none else "mu", "verbose=%s" % case["vb"][0])


@PROP.sub("function", c10.func(), quick=800)
def function(case, rec):
    from pypfopt.base_optimizer import portfolio_performance
    rec.lib = True
    tick, n, w = case["tick"], case["n"], list(case["w"])
    if abs(sum(w)) < 1e-9:
        raise Skip("weights sum to zero")
    mu = None if case["none"] else gen.as_mu(gen.mu_of(case), case["muc"], tick)
    C = gen.as_cov(gen.build_cov(case["cov"]), case["covc"], tick)
    lab = list(tick) if (case["muc"] == "series" and not case["none"]) or case["covc"] == "df" else list(range(n))
    if case["none"] and case["covc"] == "nd":
        raise Skip("no labels")
    W = {lab[i]: w[i] for i in case["order"]} if case["wc"] in ("dict", "odict", "sparse", "extra") else list(w)
    kw = {} if case["rf"] is None else dict(risk_free_rate=case["rf"])
    for v in (case["verbose"], not case["verbose"]):
        with captured() as buf:
            got = portfolio_performance(W, mu, C, verbose=v, **kw)
        check_report(buf.getvalue(), got, v, "portfolio_performance(verbose=%s)" % v)
    rec.label(case["wc"], "no mu" if case["none"] else "mu")
    rec.nt(got[0] is None or abs(got[0] - got[1]) > 1e-3)


# ------------------------------------------------------------------ discrete allocation

@st.composite
def alloc_case(draw, lp=False):
    c = draw(da.da_case(nmax=4, shares=(0.3, 1, 3)) if lp else da.da_case())
    c["lp"] = lp
    c["before"] = draw(st.lists(st.sampled_from(["greedy", "greedy_v"] + (["lp", "lp_v"] if lp else [])), max_size=2))
    return c


def run(o, name, verbose):
    f = o.lp_portfolio if name == "lp" else o.greedy_portfolio
    with captured() as buf:
        r = f() if verbose is None else f(verbose=verbose)
    return r, buf.getvalue()


def check_alloc(case, rec):
    rec.lib = True
    if not 0.9 <= sum(case["w"]) <= 1.1 or not any(x > 0 for x in case["w"]):
        raise Skip("weights do not sum to about one")
    if any("allocated" in str(t) for t in case["tick"]):
        raise Skip("ticker")
    o = da.build(case)
    for b in case["before"]:
        run(o, b[:-2] if b.endswith("_v") else b, b.endswith("_v"))
    name = "lp" if case["lp"] else "greedy"
    verbose = case["verbose"] or None
    res, text = run(o, name, verbose)
    what = "%s_portfolio(verbose=%s) after %s" % (name, verbose, case["before"])
    x, left = da.shares(res, case, what)
    if not verbose:
        if text.strip():
            raise Violation("%s prints %r" % (what, text[:200]))
        rec.label(name, "silent")
        return
    p, w = case["p"], case["w"]
    invested = math.fsum(a * b for a, b in zip(x, p))
    share = [a * b / invested if invested > 0 else 0.0 for a, b in zip(x, p)]
    funds, rmse, lines = [], [], {}
    for line in text.splitlines():
        m = ALLOC.match(line.strip())
        if m:
            if m.group(1) in lines:
                raise Violation("%s reports %r twice: %r" % (what, m.group(1), text[:400]))
            lines[m.group(1)] = m.groups()[1:]
            continue
        m = LINE.match(line.strip())
        if m and "funds" in m.group(1).lower():
            funds.append(m.group(2))
        elif m and "rmse" in m.group(1).lower():
            rmse.append(m.group(2))
    if len(funds) != 1 or len(rmse) != 1:
        raise Violation("%s: one line of remaining funds and one of the error expected: %r" % (what, text[:400]))
    agrees(funds[0], left, False, what + ", funds remaining")
    agrees(rmse[0], math.sqrt(math.fsum((a - b) ** 2 for a, b in zip(w, share)) / len(w)), False, what + ", error")
    if set(lines) != {str(t).strip() for t in case["tick"]}:
        raise Violation("%s: reports %s for the assets %s" % (what, sorted(lines), case["tick"]))
    for i, t in enumerate(case["tick"]):
        a, d = lines[str(t).strip()]
        agrees(a, share[i], False, "%s, share of %r" % (what, t))
        agrees(d, w[i], False, "%s, target of %r" % (what, t))
    rec.label(name, "n=%d" % case["n"])
    rec.nt(any(abs(a - b) > 1e-3 for a, b in zip(share, w)))


PROP.sub("greedy", alloc_case(), quick=2500)(check_alloc)
PROP.sub("lp", alloc_case(True), quick=800)(check_alloc)
