import io, math, os, re, shutil, tempfile, warnings
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import est, gen, refs, util
from . import c22, c24

PROP = Prop("C32", "matplotlib (Agg) and plotly figures of generated universes: frontiers of EfficientFrontier objects (own or automatic parameter ranges over return, risk and utility, with unreachable values mixed in; bounds, "
            "sector and other constraints) and of CLA objects; bar charts of weights with shorts, zeros and ties; covariance and correlation images of frames and arrays; dendrograms for every linkage method. "
            "What the artists hold is compared with values computed from the inputs: independent optima, matrices and linkage trees; figures are drawn on given or current axes and saved into a scratch directory. "
            "Non-trivial: the figure shows at least two different data points.",
            ["saved files are compared pixel by pixel with a rendering of the axes' figure (png), or parsed for their magic number (pdf, svg)", "filename is not used with interactive figures (they are returned, not saved)",
             "frontier points are compared with fresh optimisations at 1e-5 of the scale and with independent optima"])


def plt_():
    import matplotlib
    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    plt.close("all")
    return plt


class Fig:
    """Axes to draw on, a scratch working directory, and what was saved there."""

    def __init__(self, case):
        self.case = case
        self.plt = plt_()

    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="verif_c32_")
        os.chdir(self.dir)
        where = self.case["where"]
        self.kw = {}
        self.target = None
        if where != "auto":
            fig, self.target = self.plt.subplots(figsize=(3, 2))
            if where == "other":
                self.plt.figure(figsize=(2, 2))     # another figure is current
            if where != "current":
                self.kw["ax"] = self.target
        self.count = len(self.plt.get_fignums())
        f = self.case["save"]
        if f:
            self.path = os.path.join(self.dir, "sub", "plot." + f)
            os.mkdir(os.path.join(self.dir, "sub"))
            self.kw.update(filename=self.path, dpi=40)
        return self

    def listing(self):
        return sorted(os.path.relpath(os.path.join(d, f), self.dir) for d, _, fs in os.walk(self.dir) for f in fs)

    def check(self, ax, what, own=False):
        if self.target is not None and ax is not self.target and not own:
            raise Violation("%s: did not draw on the %s axes" % (what, "given" if "ax" in self.kw else "current"))
        want = ["sub/plot." + self.case["save"]] if self.case["save"] else []
        got = self.listing()
        if got != want:
            raise Violation("%s with filename=%s wrote the files %s" % (what, self.kw.get("filename"), got))
        if self.target is not None and not own:
            for num in self.plt.get_fignums():
                fg = self.plt.figure(num)
                if fg is not self.target.figure and fg.axes:
                    raise Violation("%s drew on another figure" % what)
        if not want:
            return
        data = open(self.path, "rb").read()
        magic = dict(png=b"\x89PNG", pdf=b"%PDF", svg=b"<?xml")[self.case["save"]]
        if not data.startswith(magic):
            raise Violation("%s: the %s file starts with %r" % (what, self.case["save"], data[:10]))
        if self.case["save"] == "png":
            buf = io.BytesIO()
            ax.figure.savefig(buf, dpi=40, format="png")
            buf.seek(0)
            a, b = self.plt.imread(self.path), self.plt.imread(buf)
            if a.shape != b.shape or not np.abs(a - b).max() <= 0.02:
                raise Violation("%s: the saved image is not the figure drawn (%s, %s)" % (what, a.shape, b.shape))

    def __exit__(self, *a):
        os.chdir(self.old)
        self.plt.close("all")
        shutil.rmtree(self.dir)


WHERE = ["auto", "current", "ax", "other"]
SAVE = [None, None, None, "png", "png", "pdf", "svg"]


@st.composite
def fig(draw):
    return dict(where=draw(st.sampled_from(WHERE)), save=draw(st.sampled_from(SAVE)))


def texts(ticklabels):
    return [t.get_text() for t in ticklabels]


def near(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def points(ax, what, interactive):
    """(line xs, line ys, [marker clouds as (k, 2) arrays], annotations)."""
    if interactive:
        lines, clouds = [], []
        for t in ax.data:
            xy = np.column_stack([np.asarray(t.x, float).reshape(-1), np.asarray(t.y, float).reshape(-1)]) if len(t.x) else np.zeros((0, 2))
            (lines if "lines" in (t.mode or "lines") else clouds).append(xy)
        ann = [(a.text, (a.x, a.y)) for a in ax.layout.annotations]
    else:
        lines = [np.array(l.get_xydata(), float).reshape(-1, 2) for l in ax.lines]
        clouds = [np.array(c.get_offsets(), float).reshape(-1, 2) for c in ax.collections]
        ann = [(t.get_text(), t.xy) for t in ax.texts]
    if len(lines) != 1:
        raise Violation("%s: %d lines drawn" % (what, len(lines)))
    return lines[0][:, 0], lines[0][:, 1], clouds, ann


TOKEN = re.compile(r"%\{([a-z]+)((?:\[\d+\])*)(?::([^}]*))?\}")


def hover(trace, j, what):
    """The text plotly shows over point j of a trace."""
    def fill(m):
        v = dict(x=trace.x, y=trace.y, customdata=trace.customdata)[m.group(1)]
        if v is None:
            raise Violation("%s: the hover text needs %s, which the trace has not" % (what, m.group(1)))
        v = v[j]
        for k in re.findall(r"\d+", m.group(2)):
            if int(k) >= len(v):
                raise Violation("%s: the hover text needs %s, the point has %d values" % (what, m.group(0), len(v)))
            v = v[int(k)]
        return format(float(np.squeeze(v)), m.group(3) or "")
    text = TOKEN.sub(fill, trace.hovertemplate)
    if "%{" in text:
        raise Violation("%s: hover text %r keeps a placeholder" % (what, text))
    return text


def check_hover(ax, what, labels, weights, sharpe):
    """Hovering over the frontier shows each asset's weight; over the optimum, the Sharpe ratio as well."""
    def one(trace, j, w):
        text = hover(trace, j, what).replace("<extra>", "<br>").replace("</extra>", "<br>").split("<br>")
        for i, l in enumerate(labels):
            got = [t[len(str(l)) + 2:] for t in text if t.startswith("%s: " % l)]
            if not any(g.endswith("%") and abs(float(g[:-1]) - 100 * w[i]) <= 2e-4 for g in got):
                raise Violation("%s: hovering over point %d of %r shows %s for %r, whose weight is %r" % (what, j, trace.name, got, l, w[i]))
        return text
    for t in ax.data:
        if "lines" in (t.mode or "lines"):
            for j in sorted({0, len(t.x) // 3, len(t.x) - 1}):
                one(t, j, weights[j])
        elif len(t.x) == 1:
            w, sr = sharpe
            text = one(t, 0, w)
            got = [x[8:] for x in text if x.startswith("Sharpe: ")]
            if not (len(got) == 1 and abs(float(got[0]) - sr) <= 1e-3 * abs(sr) + 1e-9):
                raise Violation("%s: hovering over the optimum shows the Sharpe ratio %s, it is %r" % (what, got, sr))
        else:
            hover(t, 0, what)


def check_axes(ax, what, interactive):
    lab = (ax.layout.xaxis.title.text, ax.layout.yaxis.title.text) if interactive else (ax.get_xlabel(), ax.get_ylabel())
    if not ("olatility" in str(lab[0]) or "isk" in str(lab[0])) or "eturn" not in str(lab[1]):
        raise Violation("%s: axes labelled %s" % (what, lab))


def check_assets(case, clouds, ann, mu, S, labels, what):
    sd = np.sqrt(np.diag(S))
    show = case["show_assets"]
    if not show:
        if clouds or ann:
            raise Violation("%s with show_assets=False shows %d marker sets and %d labels" % (what, len(clouds), len(ann)))
        return
    want = np.column_stack([sd, mu])
    if len(clouds) != 1 or not near(clouds[0], want, 1e-12):
        raise Violation("%s: asset markers at %s, the assets have (volatility, return) %s" % (what, [c.tolist() for c in clouds], want.tolist()))
    if case["interactive"]:
        return
    if not case["show_tickers"]:
        if ann:
            raise Violation("%s: labels drawn without show_tickers" % what)
        return
    if sorted(t for t, _ in ann) != sorted(str(l) for l in labels):
        raise Violation("%s: labels %s for the assets %s" % (what, [t for t, _ in ann], labels))
    for t, xy in ann:
        i = [str(l) for l in labels].index(t)
        if not near(xy, want[i], 1e-12):
            raise Violation("%s: label %r at %s, that asset is at %s" % (what, t, xy, want[i]))


@st.composite
def efg(draw):
    case = draw(gen.ef_case(2, 5, cov_kinds=("pd", "pd", "factor", "diag"), kinds=None, nonlinear=False))
    case.update(draw(fig()))
    case["param"] = draw(st.sampled_from(["return", "return", "risk", "utility"]))
    # positions relative to the attainable range; below 0 / above 1 some are unreachable
    case["range"] = draw(st.one_of(st.none(), st.lists(st.integers(-6, 26), min_size=1, max_size=6)))
    case["rangec"] = draw(st.sampled_from(["list", "nd", "tuple"]))
    case["points"] = draw(st.integers(3, 8))
    case["show_assets"] = draw(st.integers(0, 3)) > 0
    case["show_tickers"] = draw(st.booleans())
    case["interactive"] = draw(st.integers(0, 4)) == 0
    if case["range"] is None:
        case["param"] = "return"
    if case["interactive"]:
        case["save"], case["where"] = None, "auto"
    return case


def ef_params(case, F, mu, S):
    """Parameter values around the attainable range."""
    status, low = refs.min_var(F, S)
    _, top = refs.lp(F, -mu)
    if not refs.solved(status) or top is None:
        raise Skip("the reference found no optimum")
    lo, hi = (float(mu @ low), float(mu @ top)) if case["param"] == "return" else (math.sqrt(low @ S @ low), math.sqrt(max(top @ S @ top, low @ S @ low)))
    if case["range"] is None:
        return None, low, top
    if case["param"] == "utility":
        return [0.5 + 0.7 * k for k in case["range"]], low, top
    return [float(lo + (k / 20.0) * max(hi - lo, 1e-3) + 1e-5) for k in case["range"]], low, top


@PROP.sub("frontier", efg(), quick=400)
def frontier(case, rec):
    rec.lib = True
    from pypfopt import exceptions, plotting
    F = gen.Feas(case)
    if F.violation(np.array(case["w0"]))[0] > 1e-9:
        raise Skip("outside the domain")
    ef, mu, S = gen.make_ef(case)
    vals, low, top = ef_params(case, F, mu, S)
    method = dict(risk="efficient_risk", utility="max_quadratic_utility")
    method["return"] = "efficient_return"
    want = None
    if vals is not None:
        want = []
        for v in vals:
            o = gen.make_ef(case)[0]
            kind, r = util.call(getattr(o, method[case["param"]]), v)
            if kind == "ok":
                ret, sd, _ = o.portfolio_performance()
                want.append((sd, ret))
            elif kind == "err" and not isinstance(r, ValueError):
                raise r
        if not want and case["param"] == "utility":
            return rec.label("no reachable value")
        vals = dict(list=list, nd=np.array, tuple=tuple)[case["rangec"]](vals)
    kw = dict(points=case["points"], show_assets=case["show_assets"], show_tickers=case["show_tickers"], interactive=case["interactive"])
    if case["param"] != "return" or (case["range"] and case["points"] % 2):
        kw["ef_param"] = case["param"]
    if vals is not None:
        kw["ef_param_range"] = vals
    what = "plot_efficient_frontier(%s)" % ", ".join("%s=%s" % kv for kv in kw.items())
    with Fig(case) as f:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ax = plotting.plot_efficient_frontier(ef, **dict(kw, **({} if case["interactive"] else f.kw)))
        xs, ys, clouds, ann = points(ax, what, case["interactive"])
        check_axes(ax, what, case["interactive"])
        check_assets(case, clouds, ann, mu, S, gen.labels_of(case), what)
        if case["interactive"]:
            if f.listing():
                raise Violation("%s wrote files %s" % (what, f.listing()))
        else:
            f.check(ax, what)
    sds, mus = math.sqrt(max(np.diag(S))), max(np.abs(mu).max(), 0.01)
    if want is not None:
        if len(xs) != len(want):
            raise Violation("%s: %d points drawn for %d reachable values" % (what, len(xs), len(want)))
        for k, (x, y, (sd, ret)) in enumerate(zip(xs, ys, want)):
            # the volatility of a nearly riskless portfolio is only known through its square
            if not (abs(x - sd) <= 2e-4 * sds and abs(x * x - sd * sd) <= 2e-6 * sds ** 2 and abs(y - ret) <= (1e-3 if case["param"] == "utility" else 2e-5) * mus):
                raise Violation("%s: point %d drawn at (%.8g, %.8g), the optimal portfolio for that value is at (%.8g, %.8g)" % (what, k, x, y, sd, ret))
    else:
        lo, hi = float(mu @ low), float(mu @ top)
        if hi - lo > 1e-3:
            if not 2 <= len(xs) <= case["points"] or len(xs) < case["points"] - 1:
                raise Violation("%s: %d points drawn" % (what, len(xs)))
            if not abs(xs.min() - math.sqrt(low @ S @ low)) <= 2e-4 * sds:
                raise Violation("%s: the lowest volatility drawn is %.8g, the minimum is %.8g" % (what, xs.min(), math.sqrt(low @ S @ low)))
            if len(xs) == case["points"] and not abs(ys.max() - hi) <= 1.1e-4 + 2e-5 * mus:
                raise Violation("%s: the highest return drawn is %.8g, the maximum is %.8g" % (what, ys.max(), hi))
            gap = max(np.diff(np.sort(ys)), default=0)
            if not gap <= 2.1 * (hi - lo) / (case["points"] - 1) + 1e-4:
                raise Violation("%s: returns %s leave a gap in the range [%.6g, %.6g]" % (what, ys, lo, hi))
    # every drawn point is efficient
    for x, y in list(zip(xs, ys)):
        if case["param"] == "utility":
            continue
        # efficient_risk maximises the return only: of several portfolios with that return any may be drawn
        more = 2e-4 * mus if case["param"] == "risk" else 0.0
        status, ref = refs.qp(F, P=2 * S, extra=lambda c: c.add_le(np.arange(case["n"]), -mu, -(y + more)))
        if refs.solved(status) and F.violation(ref)[0] <= 1e-7 and float(mu @ ref) >= y + more - 1e-9 and not x * x <= float(ref @ S @ ref) + 1e-5 * sds ** 2:
            raise Violation("%s: the point (%.8g, %.8g) is not efficient: a portfolio with return %.8g has volatility %.8g" % (what, x, y, y + more, math.sqrt(ref @ S @ ref)))
    rec.label("param=" + case["param"], "range=%s" % (case["rangec"] if vals is not None else None), "interactive" if case["interactive"] else "where=" + case["where"], "save=%s" % case["save"])
    if want is not None and len(want) < len(vals):
        rec.label("unreachable values left out")
    rec.nt(len(set(np.round(xs, 8))) > 1)


@st.composite
def clag(draw):
    case = draw(c22.cla_case(5))
    case.update(draw(fig()))
    case["before"] = draw(st.sampled_from([[], [], ["max_sharpe"], ["efficient_frontier"]]))
    case["points"] = draw(st.sampled_from([30, 41, 60, 100, 5]))
    case["show_assets"] = draw(st.integers(0, 3)) > 0
    case["show_tickers"] = draw(st.booleans())
    case["interactive"] = draw(st.integers(0, 4)) == 0
    if case["interactive"]:
        case["save"], case["where"] = None, "auto"
    return case


@PROP.sub("cla", clag(), quick=250)
def cla(case, rec):
    rec.lib = True
    from pypfopt import plotting
    F = gen.Feas(case)
    c22.domain(case, F)
    o, mu, S, labels = c22.build(case)
    for b in case["before"]:
        o.efficient_frontier(points=case["points"]) if b == "efficient_frontier" else o.max_sharpe()
    fresh = c22.build(case)[0]
    rets, sds, W = fresh.efficient_frontier(points=case["points"])
    kw = dict(points=case["points"], show_assets=case["show_assets"], show_tickers=case["show_tickers"], interactive=case["interactive"])
    what = "plot_efficient_frontier(CLA, %s)" % ", ".join("%s=%s" % kv for kv in kw.items())
    with Fig(case) as f:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ax = plotting.plot_efficient_frontier(o, **dict(kw, **({} if case["interactive"] else f.kw)))
        xs, ys, clouds, ann = points(ax, what, case["interactive"])
        check_axes(ax, what, case["interactive"])
        marks = [c for c in clouds if len(c) == 1]
        if len(marks) != 1:
            raise Violation("%s: %d optimum markers" % (what, len(marks)))
        check_assets(case, [c for c in clouds if c is not marks[0]], ann, mu, S, labels, what)
        if case["interactive"]:
            if f.listing():
                raise Violation("%s wrote files %s" % (what, f.listing()))
            sr = float(mu @ o.weights / math.sqrt(o.weights @ S @ o.weights))
            check_hover(ax, what, labels, [np.asarray(w, float).reshape(-1) for w in W], (o.weights, sr))
        else:
            f.check(ax, what)
    scale, ms = math.sqrt(max(np.diag(S))), max(np.abs(mu).max(), 0.01)
    if not (near(xs, sds, 1e-7 * scale) and near(ys, rets, 1e-9 * ms)):
        raise Violation("%s: the line does not show the critical line's frontier (%d points, %d expected)" % (what, len(xs), len(rets)))
    mx, my = marks[0][0]
    if my > 1e-3:
        w = fresh.max_sharpe()
        w = np.array([float(w[l]) for l in labels])
        if not (abs(mx - math.sqrt(w @ S @ w)) <= 1e-6 * scale and abs(my - float(mu @ w)) <= 1e-6 * ms):
            raise Violation("%s: the optimum marker is at (%r, %r), the max-Sharpe portfolio at (%r, %r)" % (what, mx, my, math.sqrt(w @ S @ w), float(mu @ w)))
        best = max(float(y) / float(x) for x, y in zip(xs, ys))
        if not my / mx >= best - 1e-6 * abs(best):
            raise Violation("%s: the optimum marker has ratio %r, the line reaches %r" % (what, my / mx, best))
    for x, y in list(zip(xs, ys))[:: max(1, len(xs) // 4)]:
        status, ref = refs.qp(F, P=2 * S, extra=lambda c: c.add_le(np.arange(case["n"]), -mu, -y))
        if refs.solved(status) and F.violation(ref)[0] <= 1e-7 and float(mu @ ref) >= y - 1e-9 and not x * x <= float(ref @ S @ ref) + 5e-6 * scale ** 2:
            raise Violation("%s: the point (%.8g, %.8g) is not efficient" % (what, x, y))
    rec.label("n=%d" % case["n"], "interactive" if case["interactive"] else "where=" + case["where"], "save=%s" % case["save"], *["after " + b for b in case["before"]])
    rec.nt(len(set(np.round(xs, 8))) > 1)


@st.composite
def wg(draw):
    n = draw(st.integers(1, 9))
    case = dict(n=n, tick=draw(gen.tickers(n)), w=gen.ints(draw, n, -40, 100), order=draw(st.permutations(list(range(n)))), src=draw(st.sampled_from(["dict", "dict", "OrderedDict", "np"])), den=draw(st.sampled_from([100.0, 7.0, 1.0])))
    case.update(draw(fig()))
    return case


@PROP.sub("weights", wg(), quick=300)
def weights(case, rec):
    rec.lib = True
    import collections
    from pypfopt import plotting
    vals = {case["tick"][i]: case["w"][i] / case["den"] for i in case["order"]}
    by = {str(t): v for t, v in vals.items()}
    if case["src"] == "OrderedDict":
        d = collections.OrderedDict(vals)
    elif case["src"] == "np":
        d = {k: np.float64(v) for k, v in vals.items()}
    else:
        d = dict(vals)
    with Fig(case) as f:
        ax = plotting.plot_weights(d, **f.kw)
        f.check(ax, "plot_weights")
        ax.figure.canvas.draw()
        if list(d.items()) != list(vals.items()):
            raise Violation("plot_weights changed its argument to %s" % d)
        bars = list(ax.patches)
        if len(bars) != len(vals):
            raise Violation("plot_weights drew %d bars for %d assets" % (len(bars), len(vals)))
        lab = list(zip(ax.get_yticks(), texts(ax.get_yticklabels())))
        if sorted(t for _, t in lab) != sorted(by):
            raise Violation("plot_weights: labels %s for the assets %s" % ([t for _, t in lab], sorted(by)))
        shown = []
        for b in bars:
            y = b.get_y() + b.get_height() / 2.0
            t = [t for p, t in lab if abs(p - y) < 1e-9]
            if len(t) != 1:
                raise Violation("plot_weights: labels %s at the bar at %r" % (t, y))
            x0, x1 = b.get_x(), b.get_x() + b.get_width()
            v = x1 if abs(x0) <= abs(x1) else x0
            if min(abs(x0), abs(x1)) > 1e-12 or not abs(v - by[t[0]]) <= 1e-9 * max(1, abs(v)):
                raise Violation("plot_weights: the bar of %s runs from %r to %r, its weight is %r" % (t[0], x0, x1, by[t[0]]))
            shown.append((ax.transData.transform((0, y))[1], by[t[0]], t[0]))
        shown.sort(key=lambda s: -s[0])     # from the top
        ws = [s[1] for s in shown]
        if any(a < b for a, b in zip(ws, ws[1:])):
            raise Violation("plot_weights: bars from the top %s are not sorted descending" % [(s[2], s[1]) for s in shown])
        lo, hi = ax.get_xlim()
        if lo > min(ws + [0]) or hi < max(ws + [0]):
            raise Violation("plot_weights: limits %s cut off weights %s" % ((lo, hi), ws))
    rec.label("where=" + case["where"], "save=%s" % case["save"], "shorts" if min(vals.values()) < 0 else "long only")
    rec.nt(len(set(vals.values())) > 1)


@st.composite
def cg(draw):
    n = draw(st.integers(1, 6))
    case = dict(n=n, tick=draw(gen.tickers(n)), cov=draw(gen.cov_case(n, ("pd", "pd", "diag", "factor"))), covc=draw(st.sampled_from(["df", "df", "nd"])), corr=draw(st.sampled_from([None, False, True, True])), show=draw(st.sampled_from([None, True, False])))
    case.update(draw(fig()))
    return case


@PROP.sub("covariance", cg(), quick=300)
def covariance(case, rec):
    rec.lib = True
    from pypfopt import plotting
    S = gen.build_cov(case["cov"])
    A = gen.as_cov(S, case["covc"], case["tick"])
    kw = {k: v for k, v in (("plot_correlation", case["corr"]), ("show_tickers", case["show"])) if v is not None}
    what = "plot_covariance(%s)" % kw
    with Fig(case) as f:
        kw.update({k: v for k, v in f.kw.items() if k != "ax"})
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ax = plotting.plot_covariance(A, **kw)
        f.check(ax, what, own=True)
        ax.figure.canvas.draw()
        sd = np.sqrt(np.diag(S))
        want = S / np.outer(sd, sd) if case["corr"] else S
        ims = list(ax.images)
        if len(ims) != 1 or not near(np.asarray(ims[0].get_array()), want, 1e-9 * max(np.abs(want).max(), 1e-3)):
            raise Violation("%s shows %s, the %s is %s" % (what, [np.asarray(i.get_array()).tolist() for i in ims], "correlation" if case["corr"] else "covariance", want.tolist()))
        if not np.array_equal(np.asarray(A), S):
            raise Violation("%s changed its argument" % what)
        x0, x1, y1, y0 = ims[0].get_extent()
        if case["show"] is not False:
            names = [str(t) for t in (case["tick"] if case["covc"] == "df" else range(case["n"]))]
            n = case["n"]
            for axis, pos, lab, a, b in (("x", ax.get_xticks(), texts(ax.get_xticklabels()), x0, x1), ("y", ax.get_yticks(), texts(ax.get_yticklabels()), y0, y1)):
                at = {}
                for p, t in zip(pos, lab):
                    if t:
                        at.setdefault(t, []).append(int(math.floor((p - a) / (b - a) * n)))
                if at != {t: [i] for i, t in enumerate(names)}:
                    raise Violation("%s: %s labels %s at %s for the assets %s" % (what, axis, lab, list(pos), names))
        elif case["covc"] == "df" and {t for t in case["tick"] if isinstance(t, str) and not t.isdigit()} & set(texts(ax.get_xticklabels()) + texts(ax.get_yticklabels())):
            raise Violation("%s: tickers shown" % what)
    rec.label("corr=%s" % case["corr"], "show=%s" % case["show"], case["covc"], "save=%s" % case["save"])
    rec.nt(case["n"] > 1)


@st.composite
def dg(draw):
    case = draw(c24.g())
    case.update(draw(fig()))
    case["n_opt"] = draw(st.integers(0, 3))
    case["show"] = draw(st.sampled_from([None, True, False]))
    return case


@PROP.sub("dendrogram", dg(), quick=300)
def dendrogram(case, rec):
    rec.lib = True
    from pypfopt import plotting
    R = c24.returns(case)
    n, tick = case["n"], list(case["tick"])
    C = est.sample_cov(R)
    if np.diag(C).min() < 1e-8:
        raise Skip("constant returns")
    d = c24.corr_dist(C)
    ds = sorted(d)
    if min([y - x for x, y in zip(ds, ds[1:])] + [1.0]) < 1e-4 or ds[0] < 0.01:
        raise Skip("tied distances")
    o = c24.make(case["inp"], R, C, tick)
    method = "single"
    if case["n_opt"]:
        m = case["methods"][-1]
        for k in case["methods"]:
            o.optimize() if k is None else o.optimize(linkage_method=k)
        method = m or "single"
    Z = c24.linkage(d, method)
    # the merges: sets of tickers and their heights
    tick = [str(t) for t in tick]
    sets, want = [frozenset([t]) for t in tick], []
    for a, b, h, _ in Z:
        sets.append(sets[int(a)] | sets[int(b)])
        want.append((float(h), sets[-1]))
    inverted = any(want[i][0] < want[j][0] - 1e-9 for i in range(len(want)) for j in range(i) if want[j][1] < want[i][1])
    kw = {} if case["show"] is None else dict(show_tickers=case["show"])
    what = "plot_dendrogram(%s) after %s" % (kw, case["methods"] if case["n_opt"] else "no optimisation")
    with Fig(case) as f:
        kw.update(f.kw)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ax = plotting.plot_dendrogram(o, **kw)
        f.check(ax, what)
        ax.figure.canvas.draw()
        lab = [t for t in texts(ax.get_xticklabels()) if t]
        segs = [np.asarray(s, float) for c in ax.collections for s in c.get_segments()]
        if len(segs) != n - 1:
            raise Violation("%s: %d links for %d assets" % (what, len(segs), n))
        if case["show"] is False:
            if lab:
                raise Violation("%s: labels %s shown" % (what, lab))
            got = sorted(float(s[:, 1].max()) for s in segs)
            if not inverted and not near(got, sorted(h for h, _ in want), 1e-5):
                raise Violation("%s: links at heights %s, the clusters merge at %s" % (what, got, sorted(h for h, _ in want)))
        else:
            if sorted(lab) != sorted(tick):
                raise Violation("%s: leaves %s for the assets %s" % (what, lab, tick))
            pos = {round(float(x), 6): t for x, t in zip(ax.get_xticks(), texts(ax.get_xticklabels()))}
            if not inverted:
                nodes = {(x, 0.0): frozenset([t]) for x, t in pos.items()}      # (centre, height) -> leaves under it
                got = []
                for s in sorted(segs, key=lambda s: s[:, 1].max()):
                    h = float(s[:, 1].max())
                    ends = [(round(float(s[k, 0]), 6), float(s[k, 1])) for k in (0, -1)]
                    under = []
                    for x, y in ends:
                        hit = [v for (cx, cy), v in nodes.items() if abs(cx - x) < 1e-4 and abs(cy - y) < 1e-9]
                        if len(hit) != 1:
                            raise Violation("%s: a link hangs at (%r, %r) where there is no cluster" % (what, x, y))
                        under.append(hit[0])
                    nodes[(round((ends[0][0] + ends[1][0]) / 2.0, 6), h)] = under[0] | under[1]
                    got.append((h, under[0] | under[1]))
                if {s for _, s in got} != {s for _, s in want}:
                    raise Violation("%s: shows the clusters %s, the %s linkage has %s" % (what, [sorted(s) for _, s in got], method, [sorted(s) for _, s in want]))
                hs = dict((s, h) for h, s in want)
                for h, s in got:
                    if not abs(h - hs[s]) <= 1e-5:
                        raise Violation("%s: cluster %s drawn at height %r, it merges at %r" % (what, sorted(s), h, hs[s]))
    rec.label("method=" + method, "show=%s" % case["show"], "where=" + case["where"], "save=%s" % case["save"], "n=%d" % n, "not optimised" if not case["n_opt"] else "optimised")
    rec.nt(n > 2)
