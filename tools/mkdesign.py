"""Writes DESIGN.md from design/*, the checks, known_findings.txt and seeded/*/meta.json."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *p: open(os.path.join(V, *p)).read()
out = [rd("design", "head.md")]
why = json.loads(rd("design", "props.json"))
cost = json.loads(rd("design", "cost.json")) if os.path.exists(os.path.join(V, "design", "cost.json")) else {}
caught = json.loads(rd("design", "caught.json")) if os.path.exists(os.path.join(V, "design", "caught.json")) else {}
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    d = {}
    for s in ast.parse(rd("harness", "checks", i.lower() + ".py")).body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
            try:
                d[s.targets[0].id] = ast.literal_eval(s.value)
            except ValueError:
                pass
    out.append(f"### {i} {p['title']}\n\n*{p['statement']}*\n")
    out.append(f"* Workload and measure: {d.get('RULE', '')}.")
    out.append(f"* Decided by: {why[i][0]}")
    out.append(f"* Beyond the tests: {why[i][1]}")
    for a in d.get("ASSUMPTIONS", []) + ([d["NOTE"]] if "NOTE" in d else []):
        out.append(f"* Assumed: {a}.")
    if i in cost:
        out.append(f"* Cost: {cost[i]}")
    out.append("")
out.append("## 3. Defects found\n\nAll violations seen on the original tree, each repaired by its own `fix:` commit in /repo unless listed as a\nfinding (recorded in `known_findings.txt`; findings are matched by the exact mechanism named in `key`, so\nother violations of the same property are still reported).\n")
rows = [l.strip() for l in open(os.path.join(V, "known_findings.txt")) if l.startswith(("fixed:", "finding:"))]
for kind in ("finding:", "fixed:"):
    out.append(f"{'Open' if kind == 'finding:' else 'Repaired'}:\n")
    for l in rows:
        if l.startswith(kind):
            _, prop, k, txt = l.split(" ", 3)
            out.append(f"* {prop.split('=')[1]} `{k}` {txt}".replace("key=", "").replace("<", "&lt;"))
    out.append("")
out.append("Each repair was also reverted on its own in a scratch copy, to see that the check named reports it again.\n")
out.append("## 4. Planted bugs\n\n`seeded/<id>/`, written from the property and the code; all pass the existing tests. Caught by:\n")
out.append("| id | property | what it breaks | caught by (quick) |\n|---|---|---|---|")
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    out.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {', '.join(caught.get(n, [])) or '?'} |".replace("<", "&lt;"))
out.append("")
if os.path.exists(os.path.join(V, "design", "mutants.md")):
    out.append(rd("design", "mutants.md"))
out.append(rd("design", "tail.md"))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
