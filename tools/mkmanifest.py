"""Writes MANIFEST.json from the table below; a property is claimed when its check module exists."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
T = {  # property: (technique, what bounds the claim)
    "C01": ("PBT: generated constraint systems, direct residual check, LP/SOCP feasibility reference",
            "2-6 assets, generated bounds/constraint formats; tolerance 2e-6"),
    "C02": ("PBT: differential against an independently built QP (Clarabel) and feasibility check", "2-6 assets, generated data"),
    "C03": ("PBT: differential against a bisection/conic tangency reference", "2-6 assets, linear constraints"),
    "C04": ("PBT: differential against conic references, unreachable targets from LP/QP extremes", "2-6 assets, generated targets"),
    "C05": ("PBT: differential against independently assembled conic problems over generated objective terms", "1-3 extra terms"),
    "C06": ("PBT: differential against independent SOCP for the documented semivariance", "8-30 periods, 2-6 assets"),
    "C07": ("PBT: differential against independent LP and a direct CVaR evaluation", "8-30 periods, 2-6 assets"),
    "C08": ("PBT: differential against independent LP and a direct CDaR evaluation", "8-30 periods, 2-6 assets"),
    "C09": ("stateful PBT: generated operation histories against a fresh-instance model", "histories of 2-8 operations"),
    "C10": ("PBT: performance figures against direct formulas over all classes and entry points", "generated weights and data"),
    "C11": ("metamorphic PBT: permutation of assets, change of container", "generated data, 2-6 assets"),
    "C12": ("PBT: reference model for cleaning plus file round-trips", "generated labels/weights; scratch directory"),
    "C13": ("PBT: definitions and round-trips", "generated prices/returns with gaps"),
    "C14": ("PBT: definitions (loop implementations) and metamorphic relations", "generated prices with gaps"),
    "C15": ("PBT: reference CAPM and metamorphic relations", "generated prices/returns"),
    "C16": ("PBT: loop reference implementations and metamorphic relations", "generated prices with gaps"),
    "C17": ("PBT: reference shrinkage formulas, invariants, scaling relation", "generated returns, T<N included"),
    "C18": ("PBT: independent eigen-projection, idempotence, round-trips", "2-7 assets"),
    "C19": ("PBT: two independent posterior formulas, order/repetition relations", "1-6 assets/views"),
    "C20": ("PBT: reference construction of Q, P, pi, Omega", "1-6 assets/views"),
    "C21": ("PBT: independent normal-equation solution and performance formulas", "1-6 assets"),
    "C22": ("PBT: differential against an independent QP and frontier search", "2-8 assets"),
    "C23": ("PBT: per-point feasibility and QP optimality of the frontier", "2-8 assets"),
    "C24": ("PBT: independent re-implementation of HRP, metamorphic relations", "2-12 assets"),
    "C25": ("PBT: invariants, greedy reference and metamorphic relations", "1-10 assets (more without the last clause)"),
    "C26": ("PBT: exhaustive integer search as reference", "1-4 assets, small share counts"),
    "C27": ("PBT: composition of one-sided allocations", "1-8 assets"),
    "C28": ("PBT: direct formulas, numeric against symbolic", "1-7 assets"),
    "C29": ("PBT: differential against conic references", "2-5 assets, convex objectives"),
    "C30": ("PBT: generated invalid mutations of valid calls with the documented exception as oracle", "table of documented refusals"),
    "C31": ("PBT: deep snapshots of arguments around generated calls, repeat runs, aliasing probes", "all public entry points"),
    "C33": ("PBT: printed figures parsed and compared with the returned ones and a direct recomputation", "all classes; long-only allocations"),
    "C34": ("PBT: warnings issued by generated calls compared with the situations present", "optimisers, estimators, matrices, BL, plots"),
    "C35": ("PBT: recorded solver calls against the request; differential between solvers", "2-4 assets; CLARABEL, ECOS, OSQP, SCS, ECOS_BB, SCIPY"),
    "C32": ("PBT: drawn artists compared with independently computed data", "Agg back end; scratch directory"),
}
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(l)["id"]
    tech, note = T[pid]
    if os.path.exists(os.path.join(ROOT, "harness", "props", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": "%s harness/run.py %s" % (PY, pid),
                       "thorough_cmd": "VERIF_TIER=thorough %s harness/run.py %s" % (PY, pid),
                       "evidence_file": "evidence/%s.json" % pid, "technique": tech, "level": "exploration",
                       "level_note": "generated-input search, not exhaustive: " + note})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": PY + " harness/run.py setup", "checks": checks, "not_applicable": na}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
