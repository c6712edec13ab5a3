"""Runner: generates cases with Hypothesis in worker processes, shrinks failures,
writes replay files and evidence. A case is a plain JSON value; a check is a
function of the case alone, so a replay file needs no Hypothesis."""
import collections, contextlib, hashlib, io, json, os, signal, sys, time, traceback, warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CPU_LIMIT = 40.0       # CPU seconds for one case (typical: 0.02)
SHRINK_SECONDS = 25.0
WALL_LIMIT = {"quick": 600.0, "thorough": 6 * 3600.0}


class Violation(Exception):
    """The property does not hold for this case."""


class Skip(Exception):
    """The case turned out to lie outside the domain or could not be decided."""


class Hang(Violation):
    pass


class Rec:
    """What one case did: labels, non-triviality, inconclusive notes."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.notes = []
        self.lib = False

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    @contextlib.contextmanager
    def library(self):
        """Marks that library code is (or has been) running for this case."""
        self.lib = True
        yield


class Sub:
    def __init__(self, name, gen, check, quick, thorough=None, shards=8):
        self.name, self.gen, self.check = name, gen, check
        self.quick, self.thorough, self.shards = quick, quick * 20 if thorough is None else thorough, shards


class Prop:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.subs = []

    def sub(self, name, gen, quick, thorough=None, shards=8):
        def deco(f):
            self.subs.append(Sub(name, gen, f, quick, thorough, shards))
            return f
        return deco

    def get(self, name):
        for s in self.subs:
            if s.name == name:
                return s
        raise KeyError(name)


def canon(case):
    return json.dumps(case, sort_keys=True, allow_nan=True)


def _alarm(signum, frame):
    raise Hang("no result after %.0f s of CPU time" % CPU_LIMIT)


def _lib_frame(tb):
    root = os.path.realpath(os.path.join(REPO, "pypfopt")) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def run_case(sub, case, rec):
    """Returns None, or the violation message. Harness errors propagate."""
    import numpy as np
    signal.signal(signal.SIGVTALRM, _alarm)
    # repeated: an exception raised inside a garbage-collection callback is lost
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT, 3.0)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            sub.check(json.loads(canon(case)), rec)
        return None
    except Skip as e:
        rec.notes.append(str(e))
        return None
    except Violation as e:
        return "%s%s" % ("" if not isinstance(e, Hang) else "HANG: ", e)
    except (MemoryError, KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        if _lib_frame(e.__traceback__) or rec.lib:
            tail = traceback.format_exception(type(e), e, e.__traceback__)[-4:]
            return "unexpected %s: %s | %s" % (type(e).__name__, str(e)[:300], "".join(tail)[-700:])
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def derive_seed(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class _Found(Exception):
    pass


_STOP = None     # shared flag: a violation has been found somewhere


def run_task(args):
    """One (sub-check, shard) campaign in a worker process."""
    pid, subname, shard, n, seed, tier, deadline = args
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    prop = _PROP[0]
    sub = prop.get(subname)
    st = dict(sub=subname, evals=0, nontrivial=set(), labels=collections.Counter(), notes=collections.Counter(),
              samples=[], violation=None, error=None, truncated=False, invalid=0)
    best = {}
    t_fail = [None]

    # Hypothesis follows each generated case by up to five copies with a part repeated elsewhere in it. Most shards
    # do without, so that (nearly) every case is a draw of its own; one in four keeps them for the repetitions.
    from hypothesis.internal.conjecture import engine
    if not hasattr(engine, "_mutations"):
        engine._mutations = getattr(engine.ConjectureRunner, "generate_mutations_from", None)
    if engine._mutations is not None:
        engine.ConjectureRunner.generate_mutations_from = (
            engine._mutations if shard % 4 == 3 else (lambda self, data: None))

    @hypothesis.seed(derive_seed(seed, pid, subname, shard))
    @settings(max_examples=n, database=None, deadline=None, derandomize=False,
              phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck),
              report_multiple_bugs=False, print_blob=False)
    @given(sub.gen)
    def test(case):
        now = time.monotonic()
        if t_fail[0] is None:
            if now > deadline:
                st["truncated"] = True
                return
            if _STOP is not None and _STOP.value:
                return
        elif now - t_fail[0] > SHRINK_SECONDS:
            return
        rec = Rec()
        msg = run_case(sub, case, rec)
        if t_fail[0] is None:
            st["evals"] += 1
            key = canon(case)
            if rec.nontrivial and not rec.notes:
                st["nontrivial"].add(hashlib.sha1(key.encode()).digest()[:10])
                if len(st["samples"]) < 2 and len(key) < 1500 and st["evals"] > 3:
                    st["samples"].append(dict(sub=subname, case=case, labels=rec.labels))
            for l in set(rec.labels):
                st["labels"][l] += 1
            for x in rec.notes:
                st["notes"][x] += 1
        if msg is not None:
            if t_fail[0] is None:
                t_fail[0] = time.monotonic()
            size = len(canon(case))
            if "case" not in best or size <= best["size"]:
                best.update(case=case, msg=msg, size=size)
            if msg.startswith("HANG"):
                t_fail[0] -= SHRINK_SECONDS
            raise _Found()

    try:
        test()
    except (_Found, hypothesis.errors.HypothesisException) as e:
        if not best:
            st["error"] = "hypothesis: %r" % (e,)
    except BaseException as e:
        if not best:
            st["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    if best:
        st["violation"] = best
        if _STOP is not None:
            _STOP.value = 1
    return st


_PROP = [None]


def write_replay(pid, subname, best, tag):
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s_%s.json" % (pid, tag))
    with open(path, "w") as f:
        json.dump(dict(property=pid, sub=subname, message=best["msg"], case=best["case"]), f, indent=1)
    return os.path.relpath(path, ROOT)


def load_findings(pid):
    """Lines `KNOWN-FINDING: property=C07 replay=known/KF1.json text` of known_findings.txt."""
    out = []
    with open(os.path.join(ROOT, "known_findings.txt")) as f:
        for line in f:
            p = line.split(None, 3)
            if len(p) == 4 and p[0] == "KNOWN-FINDING:" and p[1] == "property=" + pid:
                path = p[2].split("=", 1)[1]
                with open(os.path.join(ROOT, path)) as fp:
                    j = json.load(fp)
                out.append((path, j["sub"], j["case"], p[3].strip()))
    return out


def load_regress(pid):
    d = os.path.join(ROOT, "regress", pid)
    out = []
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith(".json"):
                with open(os.path.join(d, f)) as fp:
                    j = json.load(fp)
                out.append((f, j["sub"], j["case"]))
    return out


QUICK_FACTOR = 2.5      # cases of a quick run per case asked for by a sub-check (thorough: 20, unless it says otherwise)


def run_property(prop, tier, seed, scale=1.0, jobs=8, only=None):
    import concurrent.futures as cf, multiprocessing as mp
    global _STOP
    t0 = time.monotonic()
    _PROP[0] = prop
    ctx = mp.get_context("fork")
    _STOP = ctx.Value("i", 0)
    deadline = t0 + WALL_LIMIT[tier]
    violations, errors, known = [], [], []
    evals = 0
    nontriv, labels, notes, samples = {}, {}, collections.Counter(), []
    per_sub = collections.OrderedDict((s.name, 0) for s in prop.subs)

    # recorded findings: reproduce exactly the listed input
    for fid, subname, case, text in load_findings(prop.pid):
        rec = Rec()
        msg = run_case(prop.get(subname), case, rec)
        evals += 1
        if msg is not None:
            known.append((fid, text))
    # regression corpus
    for fname, subname, case in load_regress(prop.pid):
        if only and subname != only:
            continue
        rec = Rec()
        try:
            msg = run_case(prop.get(subname), case, rec)
        except KeyError:
            errors.append("regress/%s names unknown sub-check %s" % (fname, subname))
            continue
        evals += 1
        per_sub[subname] += 1
        if msg is not None:
            violations.append((subname, dict(case=case, msg=msg, size=0), "regress:" + fname))
    tasks = []
    for s in prop.subs:
        if only and s.name != only:
            continue
        total = s.quick * QUICK_FACTOR if tier == "quick" else s.thorough
        if not total:       # replay-only
            continue
        total = max(s.shards, int(total * scale))
        for sh in range(s.shards):
            n = total // s.shards + (1 if sh < total % s.shards else 0)
            if n:
                tasks.append((prop.pid, s.name, sh, n, seed, tier, deadline))
    tasks.sort(key=lambda t: (t[2], t[1]))
    truncated = False
    if not violations:
        try:
            with cf.ProcessPoolExecutor(max_workers=jobs, mp_context=ctx) as ex:
                for st in ex.map(run_task, tasks):
                    evals += st["evals"]
                    per_sub[st["sub"]] += st["evals"]
                    nontriv.setdefault(st["sub"], set()).update(st["nontrivial"])
                    labels.setdefault(st["sub"], collections.Counter()).update(st["labels"])
                    notes.update(st["notes"])
                    if len([x for x in samples if x["sub"] == st["sub"]]) < 2:
                        samples.extend(st["samples"][:1])
                    truncated |= st["truncated"]
                    if st["violation"]:
                        violations.append((st["sub"], st["violation"], "generated"))
                    if st["error"]:
                        errors.append(st["error"])
        except cf.process.BrokenProcessPool as e:
            errors.append("worker process died: %r" % (e,))
    wall = time.monotonic() - t0
    dn = sum(len(v) for v in nontriv.values())
    ev = dict(property=prop.pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=dn, rule=prop.rule, samples=samples[:8],
                            per_subcheck={k: dict(evaluations=v, distinct_nontrivial=len(nontriv.get(k, ())),
                                                  classes=dict(sorted(labels.get(k, {}).items(), key=lambda kv: -kv[1])[:40]))
                                          for k, v in per_sub.items()},
                            inconclusive=dict(notes), truncated_by_time=truncated,
                            known_findings=[k[0] for k in known]),
              assumptions=prop.assumptions, wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", prop.pid + ".json")
    txt = json.dumps(ev, indent=1, default=str)
    if len(txt) > 60000:
        ev["coverage"]["samples"] = ev["coverage"]["samples"][:2]
        txt = json.dumps(ev, indent=1, default=str)
    with open(path + ".tmp", "w") as f:
        f.write(txt)
    os.replace(path + ".tmp", path)

    for fid, text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop.pid, text))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d inconclusive, %.1fs%s" % (
        prop.pid, tier, seed, evals, dn, sum(notes.values()), wall, " (truncated by time)" if truncated else ""))
    if violations:
        violations.sort(key=lambda v: v[1]["size"])
        for i, (subname, best, origin) in enumerate(violations[:3]):
            rp = write_replay(prop.pid, subname, best, "%s_%d" % (subname, i))
            print("  [%s] %s" % (subname, best["msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (prop.pid, rp))
        return 1
    if errors:
        print("HARNESS ERROR in %d task(s):\n%s" % (len(errors), errors[0]), file=sys.stderr)
        return 2
    return 0


def replay(prop, path):
    with open(path) as f:
        j = json.load(f)
    rec = Rec()
    msg = run_case(prop.get(j["sub"]), j["case"], rec)
    if msg is None:
        print("%s: replay of %s: property held (%s)" % (prop.pid, path, "; ".join(rec.notes) or "decided"))
        return 0
    print("  " + msg)
    print("VIOLATION property=%s replay=%s" % (prop.pid, path))
    return 1
