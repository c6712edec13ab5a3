import ast, collections, csv, json, math, os, shutil, tempfile
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import gen

PROP = Prop("C12", "1-14 tickers (strings with spaces, commas, quotes, accents; integers), weights set by dict in any order or left by an optimisation, on BaseOptimizer, EfficientFrontier, "
            "EfficientSemivariance, HRPOpt and BlackLittermanModel (CVaR, CDaR and CLA: after optimising); cutoffs at, just below and above a weight, rounding 1-16 or None; "
            "files csv/json/txt in any letter case, with dots in the path, overwriting, read back with independent parsers. Non-trivial: some weight is cut and another kept and rounded, or a file was read back.",
            ["a rounded value may be any multiple of 10^-rounding within half a unit of the weight", "files are written to a scratch directory removed afterwards"])
EXOTIC = ["BRK,B", 'q"t', "a;b", "0.5", "None", "nan", "A'B", "tab\tx", "#1", "SPY", "ü", "SPY ", " SPY", "spy"]


@st.composite
def base(draw):
    n = draw(st.integers(1, draw(st.sampled_from([8, 8, 8, 14]))))
    tick = draw(gen.tickers(n))
    if isinstance(tick[0], str) and draw(st.integers(0, 2)) == 0:
        m = draw(st.integers(1, n))
        tick = list(draw(st.permutations(EXOTIC))[:m]) + list(tick[m:])
    cutoff = draw(st.sampled_from([None, None, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0, 1e-8, 0.25, 1e-2]))
    c = 1e-4 if cutoff is None else cutoff
    w = []
    for _ in range(n):
        k = draw(st.integers(0, 7))
        if k == 0:
            x = c
        elif k == 1:
            x = math.nextafter(c, 0)
        elif k == 2:
            x = c * (1 + draw(st.integers(-9, 9)) / 1000.0)
        elif k == 3:
            x = draw(st.integers(0, 300)) * 1e-6
        elif k == 4:
            x = draw(st.integers(0, 9999)) / 1e4
        elif k == 5:
            x = draw(st.sampled_from([0.0, 1.0, 0.5, 2.5, 1e-17, 0.99996, 0.000015, 0.12345, 0.123455, 1 / 3.0]))
        else:
            x = draw(st.integers(0, 10 ** 9)) / 1e9 * draw(st.sampled_from([1, 1, 1, 7, 133, 20000]))
        w.append(-x if draw(st.integers(0, 2)) == 0 else x)
    return dict(n=n, tick=list(tick), w=w, cutoff=cutoff, rounding=draw(st.sampled_from(["default", "default", None, 1, 2, 3, 4, 6, 8, 12, 16])),
                kind=draw(st.sampled_from(["BASE", "BASE", "EF", "SV", "HRP", "BL"])), order=draw(st.permutations(list(range(n)))),
                ints=draw(st.integers(0, 12)) == 0)


def build(case):
    import pypfopt
    from pypfopt import base_optimizer
    n, tick, kind = case["n"], case["tick"], case["kind"]
    rng = np.random.RandomState(n)
    if n == 1 and kind in ("HRP", "BL"):
        kind = "EF"
    R = pd.DataFrame(rng.randn(8, n) * 0.02, columns=tick)
    S = pd.DataFrame(np.eye(n) * 0.04, index=tick, columns=tick)
    if kind == "BASE":
        return base_optimizer.BaseOptimizer(n, tickers=list(tick)), kind
    if kind == "EF":
        return pypfopt.EfficientFrontier(pd.Series(np.arange(1, n + 1) / 50.0, index=tick), S), kind
    if kind == "SV":
        from pypfopt.efficient_frontier import EfficientSemivariance
        return EfficientSemivariance(pd.Series(np.arange(1, n + 1) / 50.0, index=tick), R), kind
    if kind == "HRP":
        return pypfopt.HRPOpt(returns=R), kind
    return pypfopt.BlackLittermanModel(S, pi="equal", absolute_views={tick[0]: 0.1}), kind


def weights_of(case):
    return [float(round(x * 3)) for x in case["w"]] if case["ints"] else case["w"]


def held(case):
    """An object holding the weights of the case."""
    o, kind = build(case)
    w = weights_of(case)
    d = {case["tick"][i]: (int(w[i]) if case["ints"] else w[i]) for i in case["order"]}
    before = dict(d)
    o.set_weights(d)
    if d != before:
        raise Violation("%s.set_weights changed its argument" % kind)
    return o, kind, w


def check_clean(got, tick, w, cutoff, rounding, what):
    if not isinstance(got, collections.OrderedDict) or list(got) != list(tick):
        raise Violation("%s: keys %r, expected %r" % (what, list(got), list(tick)))
    cut = kept = 0
    for t, x in zip(tick, w):
        g = got[t]
        if type(g) is not float:
            raise Violation("%s: weight of %r is a %s" % (what, t, type(g).__name__))
        if abs(x) < cutoff:
            ok = g == 0
            cut += x != 0
        elif rounding is None:
            ok = g == x
            kept += 1
        else:
            u = 10.0 ** -rounding
            k = round(g / u)
            ok = abs(g - k * u) <= 1e-12 * max(1.0, abs(g)) and abs(g - x) <= 0.5 * u * (1 + 1e-6) + 1e-15 * max(1.0, abs(x))
            kept += g != x
        if not ok:
            raise Violation("%s: %r for the weight %r (cutoff %r, rounding %r)" % (what, g, x, cutoff, rounding))
    return cut, kept


@PROP.sub("clean", base(), quick=4000)
def clean(case, rec):
    rec.lib = True
    o, kind, w = held(case)
    kw = {}
    if case["cutoff"] is not None:
        kw["cutoff"] = case["cutoff"]
    if case["rounding"] != "default":
        kw["rounding"] = case["rounding"]
    what = "%s.clean_weights(%s)" % (kind, ", ".join("%s=%r" % i for i in kw.items()))
    cutoff, rounding = kw.get("cutoff", 1e-4), kw.get("rounding", 5)
    stored = np.array(o.weights, dtype=float).copy()
    if stored.shape != (case["n"],) or stored.tolist() != list(w):
        raise Violation("%s.set_weights: weights attribute %r, expected %r" % (kind, stored.tolist(), w))
    c, k = check_clean(o.clean_weights(**kw), case["tick"], w, cutoff, rounding, what)
    if np.array(o.weights, dtype=float).tolist() != stored.tolist():
        raise Violation("%s altered the stored weights: %r, were %r" % (what, o.weights, stored))
    # a second cleaning with other parameters still starts from the stored weights
    raw = o.clean_weights(cutoff=0, rounding=None)
    if list(raw) != list(case["tick"]) or [raw[t] for t in case["tick"]] != list(w):
        raise Violation("%s: set_weights then clean_weights(0, None) gives %r, weights set %r" % (kind, dict(raw), w))
    if raw[case["tick"][0]] == w[0]:
        raw[case["tick"][0]] = 12345.0     # the caller's copy
        if np.array(o.weights, dtype=float).tolist() != stored.tolist():
            raise Violation("%s: changing the returned dict changed the stored weights" % kind)
    rec.label(kind, "n=%d" % case["n"], "cutoff=%s" % case["cutoff"], "rounding=%s" % case["rounding"], "cut=%d" % min(c, 3))
    rec.nt(c > 0 and k > 0)


def read_back(path, ext):
    if ext == "csv":
        with open(path, newline="", encoding="utf-8") as f:
            rows = list(csv.reader(f))
        if any(len(r) != 2 for r in rows):
            raise Violation("csv file: rows %r" % (rows,))
        return [(a, float(b)) for a, b in rows], True
    if ext == "json":
        with open(path) as f:
            return list(json.load(f, object_pairs_hook=lambda p: collections.OrderedDict(p)).items()), True
    with open(path) as f:
        return list(ast.literal_eval(f.read()).items()), False


@st.composite
def file_case(draw):
    c = draw(base())
    c["ext"] = draw(st.sampled_from(["csv", "json", "txt", "csv", "json", "txt", "CSV", "Json", "tXt", "TXT", "Csv", "JSON"]))
    c["stem"] = draw(st.sampled_from(["weights", "my.weights", "w.csv", "a b", "x.json", "txt", "csv", ".hidden"]))
    c["sub"] = draw(st.sampled_from(["", "", "d.json", "d.x.y"]))
    c["over"], c["twice"], c["rel"] = draw(st.booleans()), draw(st.booleans()), draw(st.booleans())
    return c


@PROP.sub("files", file_case(), quick=2500)
def files(case, rec):
    rec.lib = True
    o, kind, w = held(case)
    tmp = tempfile.mkdtemp(prefix="verif_c12_")
    cwd = os.getcwd()
    try:
        d = os.path.join(tmp, case["sub"]) if case["sub"] else tmp
        os.makedirs(d, exist_ok=True)
        name = case["stem"] + "." + case["ext"]
        path = os.path.join(d, name)
        if case["over"]:
            with open(path, "w") as f:
                f.write("x" * 2000)
        os.chdir(tmp)
        arg = os.path.join(case["sub"], name) if case["rel"] else path
        if case["twice"]:
            o2, _, _ = held(dict(case, w=[x + 0.25 for x in case["w"]], ints=False))
            o2.save_weights_to_file(arg)
        r = o.save_weights_to_file(arg)
        what = "%s.save_weights_to_file(%r)" % (kind, arg)
        found = sorted(os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(tmp) for f in fs)
        if found != [name]:
            raise Violation("%s wrote %r" % (what, found))
        items, asstr = read_back(path, case["ext"].lower())
        keys = [str(t) if asstr else t for t in case["tick"]]
        got = dict(items)
        if [k for k, _ in items] != keys or len(got) != len(items):
            raise Violation("%s: tickers %r read back, expected %r" % (what, [k for k, _ in items], keys))
        check_clean(collections.OrderedDict((t, float(got[k])) for t, k in zip(case["tick"], keys)), case["tick"], w, 1e-4, 5, what)
        ref = o.clean_weights()
        for t, k in zip(case["tick"], keys):
            if float(got[k]) != ref[t]:
                raise Violation("%s: %r for %r, clean_weights gives %r" % (what, got[k], t, ref[t]))
        if np.array(o.weights, dtype=float).tolist() != list(w):
            raise Violation("%s altered the stored weights" % what)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)
    rec.label(kind, "ext=" + case["ext"], "overwrite" if case["over"] else "new", "int tickers" if isinstance(case["tick"][0], int) else "string tickers")
    rec.nt(True)


BAD = ["xlsx", "csvx", "js", "txt.bak", "jsn", "", "tx", "text", "pickle", "cs v", "csv ", "html", "xml"]


@st.composite
def bad_case(draw):
    c = draw(base())
    c["name"] = draw(st.sampled_from(["w." + b for b in BAD] + ["weights", "w.json.zip", "w.csv.gz"]))
    c["unset"] = draw(st.integers(0, 3)) == 0
    c["badround"] = draw(st.sampled_from([0, -1, 1.5, "2", 2.0, -5]))
    return c


@PROP.sub("refuse", bad_case(), quick=1000)
def refuse(case, rec):
    rec.lib = True
    o = build(case)[0] if case["unset"] else held(case)[0]
    tmp = tempfile.mkdtemp(prefix="verif_c12_")
    try:
        path = os.path.join(tmp, case["name"])
        try:
            o.save_weights_to_file(path)
        except (NotImplementedError, AttributeError) as e:
            if case["unset"] != isinstance(e, AttributeError) and not (case["unset"] and isinstance(e, NotImplementedError)):
                raise Violation("save_weights_to_file(%r) raised %r" % (case["name"], e))
        else:
            raise Violation("save_weights_to_file(%r) was accepted" % case["name"])
        if os.listdir(tmp):
            raise Violation("refused save_weights_to_file(%r) wrote %r" % (case["name"], os.listdir(tmp)))
        if case["unset"]:
            try:
                o.clean_weights()
            except (AttributeError, ValueError):
                pass
            else:
                raise Violation("clean_weights without weights returned")
        else:
            try:
                got = o.clean_weights(rounding=case["badround"])
            except ValueError:
                pass
            else:
                raise Violation("clean_weights(rounding=%r) returned %r" % (case["badround"], got))
    finally:
        shutil.rmtree(tmp)
    rec.label("unset" if case["unset"] else "set", case["name"])
    rec.nt(True)


@st.composite
def opt_case(draw):
    n = draw(st.integers(2, 5))
    tick = draw(gen.tickers(n))
    return dict(n=n, tick=list(tick), kind=draw(st.sampled_from(["EF", "EFnc", "SV", "CVAR", "CDAR", "CLA", "HRP", "BL"])), mu=gen.mu_ints(draw, n), cov=draw(gen.cov_case(n, ("pd", "factor", "diag"))),
                ret=draw(gen.returns_case(n, 5, 10)), cutoff=draw(st.sampled_from([1e-4, 0.05, 0.2])), rounding=draw(st.sampled_from([5, None, 2, 3])),
                method=draw(st.integers(0, 2)))


@PROP.sub("optimised", opt_case(), quick=700)
def optimised(case, rec):
    """The result of an optimisation call, the weights attribute and clean_weights agree."""
    rec.lib = True
    import pypfopt
    from pypfopt import exceptions, objective_functions as of
    from pypfopt.efficient_frontier import EfficientCDaR, EfficientCVaR, EfficientSemivariance
    k, tick, n = case["kind"], case["tick"], case["n"]
    mu = np.array(case["mu"]) / 1000.0 + np.arange(n) * 1.7e-5
    S = gen.build_cov(case["cov"])
    R = gen.build_returns(case["ret"])
    mus, Sd, Rd = pd.Series(mu, index=tick), pd.DataFrame(S, index=tick, columns=tick), pd.DataFrame(R, columns=tick)
    order = tick
    import cvxpy as cp
    try:
        if k == "EF":
            o = pypfopt.EfficientFrontier(mus, Sd)
            res = [o.min_volatility, o.max_quadratic_utility, o.min_volatility][case["method"]]()
        elif k == "EFnc":
            o = pypfopt.EfficientFrontier(mus, Sd)
            res = o.nonconvex_objective(of.portfolio_variance, objective_args=(Sd,), weights_sum_to_one=True)
        elif k == "SV":
            o = EfficientSemivariance(mus, Rd)
            res = o.min_semivariance()
        elif k == "CVAR":
            o = EfficientCVaR(mus, Rd, beta=0.5)
            res = o.min_cvar()
        elif k == "CDAR":
            o = EfficientCDaR(mus, Rd, beta=0.5)
            res = o.min_cdar()
        elif k == "CLA":
            o = pypfopt.CLA(mus, Sd)
            res = o.max_sharpe() if case["method"] and max(mu) > 0 else o.min_volatility()
        elif k == "HRP":
            if np.any(R.std(axis=0) < 1e-6):
                raise Skip("constant column")
            o = pypfopt.HRPOpt(cov_matrix=Sd)
            res = o.optimize()
            order = sorted(tick)
        else:
            o = pypfopt.BlackLittermanModel(Sd, pi=mus, absolute_views={tick[0]: 0.1})
            res = o.bl_weights()
    except (exceptions.OptimizationError, cp.error.SolverError):
        raise Skip("solver gave up")
    what = "%s, optimised" % k
    if not isinstance(res, collections.OrderedDict) or sorted(map(str, res)) != sorted(map(str, order)):
        raise Violation("%s: result %r" % (what, res))
    raw = o.clean_weights(cutoff=0, rounding=None)
    w = [res[t] for t in order]
    if not all(math.isfinite(x) for x in w):
        raise Skip("no finite weights")
    if set(raw) != set(tick):
        raise Violation("%s: clean_weights keys %r" % (what, list(raw)))
    for t in order:
        if raw[t] != res[t]:
            raise Violation("%s: returned %r for %r, the stored weights give %r" % (what, res[t], t, raw[t]))
    c, kk = check_clean(o.clean_weights(case["cutoff"], case["rounding"]), list(raw), [res[t] for t in raw], case["cutoff"], case["rounding"], what)
    rec.label(k)
    rec.nt(c > 0 or kk > 0)
