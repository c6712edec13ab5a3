"""python3 tools/try_seeded.py [ids]: runs each planted bug's check on a scratch copy and rewrites the table in DESIGN.md."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(ROOT, "DESIGN.md")
text = open(D).read()
a, b = text.index("<!-- seeded -->"), text.index("<!-- /seeded -->")
old = {}
for l in text[a:b].splitlines():
    c = [x.strip() for x in l.strip("|").split("|")]
    if len(c) == 4 and c[0] not in ("bug", "---"):
        old[c[0]] = c[2]
ids = sorted(os.listdir(os.path.join(ROOT, "seeded")))
todo = sys.argv[1:] or ids
if todo == ["--new"]:
    todo = [i for i in ids if i not in old]
if todo == ["--missed"]:
    todo = [i for i in ids if not old.get(i, "").startswith("caught")]
for i in todo:
    meta = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
    t = tempfile.mkdtemp(prefix="seeded")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git apply %s/seeded/%s/patch.diff" % (t, t, ROOT, i), shell=True)
        p = subprocess.run(["/opt/venv/bin/python", ROOT + "/harness/run.py", meta["property"]], env=dict(os.environ, VERIF_REPO=t), capture_output=True, text=True)
        hit = p.returncode == 1 and "VIOLATION property=" in p.stdout
        sub = [l.split("]")[0].strip(" [") for l in p.stdout.splitlines() if l.startswith("  [")]
        old[i] = "caught by " + ", ".join(dict.fromkeys(sub)) if hit else "missed"
        print(i, meta["property"], old[i], "" if hit else p.stdout[-300:], flush=True)
    finally:
        shutil.rmtree(t)
rows = ["| bug | property | quick check | needs |", "|---|---|---|---|"]
for i in ids:
    meta = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, meta["property"], old.get(i, "not run"), meta["needs"].replace("|", "/")))
text = open(D).read()
a, b = text.index("<!-- seeded -->"), text.index("<!-- /seeded -->")
open(D, "w").write(text[:a] + "<!-- seeded -->\n" + "\n".join(rows) + "\n" + text[b:])
