import numpy as np
from hypothesis import strategies as st
from ..core import Prop, Skip, Violation
from .. import gen, opt, util
from .c07 import perf as risk_perf

PROP = Prop("C09", "Histories of 2-8 operations (solve with a method/parameter/neutrality, add_objective, add_constraint, portfolio_performance, "
            "clean_weights, set_weights, deepcopy (before or after solving) and switching between the copies) on one instance of each class, each solve compared with a fresh instance given the same objectives, constraints and "
            "parameters. Non-trivial: at least two solve calls, of which at least one after the first returned weights or was refused with an "
            "InstantiationError.",
            ["solver=CLARABEL with tight tolerances; objective values compared at 1e-5 relative"])

PARAMETRISED = {"max_quadratic_utility", "efficient_risk", "efficient_return"}
RISK_F = [1.1, 1.001, 1.5, 3.0, 0.9, 0.3, 20.0]
RET_D = [0.001, 0.01, 0.05, 0.3, -0.01, -1.0, 0.0001]


@st.composite
def par(draw, method):
    return draw(st.sampled_from({"max_quadratic_utility": opt.DELTAS, "max_sharpe": [0.02, 0.001, 0.05, 0.3, -5],
                                 "efficient_risk": RISK_F, "efficient_return": RET_D}.get(method, [None])))


@st.composite
def g(draw):
    kind = draw(st.sampled_from(["EF", "EF", "SV", "CVAR", "CDAR"]))
    main = draw(st.sampled_from([m for m in opt.METHODS[kind] if m in PARAMETRISED] + [draw(st.sampled_from(opt.METHODS[kind]))]))
    neutral = (kind, main) in opt.NEUTRAL_OK and draw(st.integers(0, 3)) == 0
    case = draw(opt.opt_case(kind, main, neutral=neutral, nmax=draw(st.sampled_from([4, 4, 4, 12])), nonlinear=True, finite=True, cov_kinds=("pd", "factor", "diag")))
    if case["muc"] == "none":
        case["muc"] = "series"
    ops = []
    if draw(st.integers(0, 2)) == 0:
        ops.append(["obj", draw(opt.objs_case(case["n"], case["w0"], 1, 1))[0]])
    if draw(st.integers(0, 3)) == 0:
        ops.append(["perf"])
    early = draw(st.integers(0, 3)) == 0
    if early:       # a copy made before anything is solved, which goes its own way
        ops.append(["copy", draw(st.booleans())])
        c = draw(gen.cons_case(case["w0"], False, None, 1)) if draw(st.booleans()) else []
        ops.append(["con", c[0]] if c else ["obj", draw(opt.objs_case(case["n"], case["w0"], 1, 1))[0]])
        if draw(st.booleans()):
            ops.append(["swap"])
    ops.append(["solve", main, draw(par(main)), neutral])
    for _ in range(draw(st.integers(1, 5))):
        what = draw(st.sampled_from(["same", "same", "same", "other", "neutral", "obj", "con", "perf", "clean", "copy", "copy", "swap"] + (["set"] if kind in ("EF", "SV") else [])))
        if what == "same":
            ops.append(["solve", main, draw(par(main)), neutral])
        elif what == "other":
            m = draw(st.sampled_from(opt.METHODS[kind]))
            ops.append(["solve", m, draw(par(m)), neutral and (kind, m) in opt.NEUTRAL_OK])
        elif what == "neutral":
            ops.append(["solve", main, draw(par(main)), (not neutral) and (kind, main) in opt.NEUTRAL_OK])
        elif what == "obj":
            ops.append(["obj", draw(opt.objs_case(case["n"], case["w0"], 1, 1))[0]])
        elif what == "con":
            c = draw(gen.cons_case(case["w0"], False, None, 1))
            if c:
                ops.append(["con", c[0]])
        elif what == "copy":
            ops.append([what, draw(st.booleans())])
        elif what == "set":
            v = gen.ints(draw, case["n"], -2, 6)
            v[0] += 1 - min(0, sum(v)) if sum(v) <= 0 else 0
            ops.append(["set", [x / float(sum(v)) for x in v]])
            ops.append(["solve", main, [x[2] for x in ops if x[:2] == ["solve", main]][-1], neutral])        # the same call once more
        else:
            ops.append([what])
    if early:
        ops += [["swap"], ["solve", main, draw(par(main)), neutral]]
    case["ops"] = ops
    return case


def attempt(m, o):
    """('ok', weights) or (exception class name, text)."""
    import cvxpy
    from pypfopt import exceptions
    import warnings
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            res = m.run(o)
        if any("Solution may be inaccurate" in str(x.message) for x in ws):
            raise Skip("solver reports an inaccurate solution")
        return "ok", res
    except exceptions.InstantiationError as e:
        return "inst", e
    except exceptions.OptimizationError as e:
        if any(s in " ".join(map(str, e.args)) for s in util.NUMERIC_TROUBLE):
            raise Skip("solver gave up")
        return "opt", e
    except cvxpy.error.SolverError:
        raise Skip("solver error")
    except ValueError as e:
        return "value", e


@PROP.sub("history", g(), quick=3000)
def history(case, rec):
    from pypfopt import exceptions
    ops = case["ops"]
    base = opt.Model(dict(case, objs=[]))
    if base.F.violation(base.w0)[0] > 1e-9:
        raise Skip("outside the domain")
    rec.lib = True
    inst = base.build()
    objs, cons = [], list(case["cons"])
    built = None            # (method, neutral) of the first call that reached the solver
    succeeded = tainted = False
    held = held_model = None
    solves = later = 0
    parked = []             # the other copies, with what is known about them
    for k, op in enumerate(ops):
        where = "operation %d %r of %s" % (k, op[:4], base.name.split(".")[0])
        before = None if inst.weights is None else np.array(inst.weights, float)
        if op[0] in ("obj", "con"):
            try:
                if op[0] == "obj":
                    opt.add_objs(inst, [op[1]])
                else:
                    inst.add_constraint(gen.con_fn(op[1]))
                added = True
            except exceptions.InstantiationError:
                added = False
            if added and succeeded:
                raise Violation("%s: accepted after the problem was solved" % where)
            if not added and built is None:
                raise Violation("%s: refused although nothing has been solved" % where)
            if added:
                (objs if op[0] == "obj" else cons).append(op[1])
            rec.label(op[0] + (" accepted" if added else " refused"))
        elif op[0] == "solve":
            _, method, p, neutral = op
            c = dict(case, objs=list(objs), cons=list(cons), method=method, par=p, neutral=neutral)
            m = opt.Model(c)
            if method == "max_sharpe" and any(x["t"] in ("turn", "ssq") for x in cons):
                raise Skip("outside the domain")
            solves += 1
            fresh = m.build()
            fk, fr = attempt(m, fresh)
            ik, ir = attempt(m, inst)
            legit = built is None or (built == (method, neutral) and method in PARAMETRISED and not tainted)
            if ik == "ok":
                w = gen.get_weights(ir, m.labels, where)
                if fk != "ok":
                    raise Violation("%s returned %s, a fresh instance raises %r" % (where, w, fr))
                wf = gen.get_weights(fr, m.labels, where)
                m.check_weights(w, 5e-6)
                if method == "max_sharpe":
                    a, b, t = -m.sharpe(w), -m.sharpe(wf), 1e-5
                    if objs:
                        a = b = 0
                        if np.abs(w - wf).max() > 1e-3:
                            raise Violation("%s: weights %s, a fresh instance gives %s" % (where, w, wf))
                else:
                    a, b, t = m.obj(w), m.obj(wf), 1e-5 * max(m.obj_scale(w), m.obj_scale(wf))
                if not abs(a - b) <= t:
                    raise Violation("%s: objective value %.10g (weights %s), a fresh instance gets %.10g (weights %s)"
                                    % (where, a, np.round(w, 6), b, np.round(wf, 6)))
                if not np.allclose(np.asarray(inst.weights, float), w, rtol=0, atol=1e-12):
                    raise Violation("%s: weights attribute %s differs from the result %s" % (where, inst.weights, w))
                held, held_model, succeeded = w, m, True
                if built is not None:
                    later += 1
                built = built or (method, neutral)
            else:
                # a switch of neutrality may also be refused because the target is out of reach in the mode in force
                refused = ik == "inst" or (ik == "value" and method == "efficient_return" and built and built[1] != neutral)
                if fk == "ok" and (legit or not refused):
                    raise Violation("%s raised %r, a fresh instance returns %s" % (where, ir, dict(fr)))
                after = None if inst.weights is None else np.array(inst.weights, float)
                if (before is None) != (after is None) or (before is not None and not np.array_equal(before, after)):
                    raise Violation("%s raised %r and changed the stored weights from %s to %s" % (where, ir, before, after))
                if ik == "inst":
                    tainted = True
                    later += 1
                elif ik == "opt":
                    if built is None:
                        built = (method, neutral)
                elif built is not None and method != built[0]:
                    tainted = True      # a refused attempt at another method: the instance may ask to be replaced
            rec.label(m.name, "outcome %s/fresh %s" % (ik, fk))
        elif op[0] in ("copy", "swap"):
            if op[0] == "copy":
                twin = inst.deepcopy()
                if type(twin) is not type(inst) or twin is inst:
                    raise Violation("%s: deepcopy returned %r" % (where, twin))
                parked.append((twin, list(objs), list(cons), built, succeeded, tainted, held, held_model))
                rec.label("copied " + ("after" if built else "before") + " solving")
            if parked and (op[0] == "swap" or op[1]):
                state = (inst, objs, cons, built, succeeded, tainted, held, held_model)
                inst, objs, cons, built, succeeded, tainted, held, held_model = parked.pop(0)
                parked.append(state)
        elif op[0] == "set":
            if held is None:
                continue
            held = np.array(op[1])
            inst.set_weights({t: float(x) for t, x in list(zip(held_model.labels, held))[::-1]})
            if held_model.method == "max_sharpe":
                continue        # which rate the ratio should use is C10's matter
        elif op[0] == "clean":
            if held is None:
                continue
            gen.expect_close(list(inst.clean_weights(cutoff=0, rounding=None).values()), held, where + ": clean_weights", atol=1e-12)
            continue
        if op[0] == "perf" or held is not None:
            check_perf(inst, held, held_model, where)
        for other in parked:
            after = None if other[0].weights is None else np.asarray(other[0].weights, float)
            if (after is None) != (other[6] is None) or (after is not None and np.abs(after - other[6]).max() > 1e-12):
                raise Violation("%s: the weights of another copy changed from %s to %s" % (where, other[6], after))
            if after is not None:
                check_perf(other[0], other[6], other[7], where + ", on another copy")
    rec.nt(solves >= 2 and later >= 1)
    rec.label("%d solves" % solves)


def check_perf(inst, held, m, where):
    if held is None:
        try:
            r = inst.portfolio_performance()
        except Exception:
            return
        if r is not None and any(isinstance(x, float) and np.isfinite(x) for x in r):
            raise Violation("%s: performance %r before any weights exist" % (where, r))
        return
    kind = m.kind
    if kind in ("CVAR", "CDAR"):
        m.opt = inst
        risk_perf(m, held, False)
        return
    r = inst.portfolio_performance()
    rf = m.par if m.method == "max_sharpe" else 0.0
    risk = m.risk(held)
    exp = [m.ret(held), risk]
    gen.expect_close(r[:2], exp, where + ": portfolio_performance", rtol=1e-7, atol=1e-9)
    if risk > 1e-6:
        gen.expect_close(r[2], (m.ret(held) - rf) / risk, where + ": ratio", rtol=1e-6, atol=1e-8)
