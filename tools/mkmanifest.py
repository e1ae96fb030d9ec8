"""Writes MANIFEST.json from properties.jsonl and the checks present (docstring, TECHNIQUE, NOTE)."""
import ast, json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = ["e19f45b"]
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(V, "harness", "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "no check built yet"})
        continue
    t = ast.parse(open(f).read())
    d = {}
    for s in t.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
            try:
                d[s.targets[0].id] = ast.literal_eval(s.value)
            except ValueError:
                pass
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']}",
                   "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
                   "technique": d.get("TECHNIQUE", "runtime monitoring: differential oracle over generated histories"),
                   "level": d.get("LEVEL", "exploration"),
                   "level_note": d.get("NOTE", ast.get_docstring(t) or "") + " " + " ".join(d.get("ASSUMPTIONS", []))})
full = [subprocess.run(["git", "-C", "/repo", "rev-parse", h], capture_output=True, text=True).stdout.strip() for h in HOOKS]
json.dump({"version": 1, "setup_cmd": "mkdir -p evidence replays && bash tools/setup.sh",
           "hooks": {"guard": "VANILLAPLUSJS_MONITOR", "enable": "environment variable set by harness/run.py; no separate build", "source_commits": full},
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
