"""Every file access of every build and scan step is recorded (audit hook) and compared with what the step declared."""
import os
from common import CaseResult
import project as P, world as W

PROPERTY = "C06"
TECHNIQUE = "runtime monitoring: file-access trace of every build/scan step checked against declared and recorded dependencies and outputs"
RULE = ("random projects and histories (initial and incremental builds, 1-8 workers); for each step: files opened for reading must be the source, "
        "its recorded dependencies, their recorded outputs or its own outputs; files written that still exist afterwards must be declared outputs; "
        "what is recorded must be what was declared. Distinct by (step kind, file kind, accessed kind, first/incremental)")

def cases(tier, rng):
    n = 90 if tier == "quick" else 1400
    return [{"seed": rng.randrange(1 << 60), "images": rng.random() < .3, "n": rng.choice([4, 8, 12, 18]), "steps": rng.choice([1, 2, 4]),
             "symlinks": rng.random() < .3, "flip": rng.random() < .3} for _ in range(n)]


def load(w, name):
    from vanillaplusjs.build.graph import FileDependencyGraph
    with open(os.path.join(w.folder, "out", name)) as f:
        return FileDependencyGraph.load(f)


def check(R, w, events, first):
    deps = load(w, "dependency_graph.json")
    outs = load(w, "output_graph.json")
    srcs = set(w.proj.nodes)
    kinds = {p: n.kind for p, n in w.proj.nodes.items()}
    written_by = {}
    for s in W.steps_of(events):
        f = s["f"]
        R.count("steps_" + s["kind"])
        ch = set(deps.get_children(f)) if f in deps else set()
        mine = set(outs.get_children(f)) if f in outs else set()
        allowed = {f} | ch | mine
        # the placeholder of an image list stands for the list
        for c in ch | {d for c in ch if c.endswith(".images.js") and c in deps for d in deps.get_children(c)}:
            if c in outs:
                allowed |= set(outs.get_children(c))
        for e in s["io"]:
            p = e["f"]
            if p is None or not p.startswith(("src/", "out/", "artifacts/")):
                continue
            if e["op"] == "r":
                if p.startswith("artifacts/") and os.path.basename(p) in ("metadata.json", "placeholder.json", "counter.txt"):
                    # to find its slot among those of the image
                    R.expect(any(p.startswith("artifacts/" + os.path.splitext(c)[0][len(P.PUB):] + "/") for c in ch | {f}), "undeclared-read",
                             f"{s['kind']} of {f} read {p}; its recorded dependencies are {sorted(ch)[:8]}", history=w.history)
                    R.count("slots_read")
                elif p in srcs or p.startswith(("out/www/", "artifacts/")):
                    R.count("reads")
                    R.expect(p in allowed, "undeclared-read",
                             f"{s['kind']} of {f} read {p}; its recorded dependencies are {sorted(ch)[:8]}", history=w.history)
                    R.key(s["kind"], kinds.get(f), kinds.get(p, os.path.splitext(p)[1]), first)
                else:
                    R.expect(not os.path.isfile(os.path.join(w.folder, p)), "undeclared-read",
                             f"{s['kind']} of {f} read {p}", history=w.history)
            elif e["op"] in ("w", "ln", "mv"):
                q = e.get("f2") or p
                written_by.setdefault(q, []).append(s)
                R.count("writes")
        if s["kind"] == "build" and s["ok"]:
            declared = set(s["produced"]) | set(s["reused"])
            R.expect(declared == mine, "recorded-outputs-not-declared",
                     f"{f} declared the outputs {sorted(declared - mine)[:4]} which are not recorded, or {sorted(mine - declared)[:4]} is recorded but not declared", history=w.history)
            srcdeps = {c for c in s["children"] if c.startswith("src/") and c != f}
            R.expect(srcdeps <= ch, "dependency-not-recorded", f"{f} declared {sorted(srcdeps - ch)[:4]} which is not recorded", history=w.history)
    for q, ss in written_by.items():
        if q.startswith(("out/www/", "src/", "artifacts/")) and os.path.lexists(os.path.join(w.folder, q)) and not os.path.isdir(os.path.join(w.folder, q)):
            for s in ss:
                if s["kind"] == "scan":
                    R.expect(not q.startswith("out/www/"), "scan-writes-output", f"scan of {s['f']} wrote {q}", history=w.history)
                    continue
                R.expect(q in s["produced"] or q in s["reused"], "undeclared-write", f"build of {s['f']} wrote {q} without declaring it", history=w.history)


def run_case(case, tmp):
    R = CaseResult()
    w = W.World(case, tmp)
    for step in range(case["steps"] + 1):
        if step:
            w.edit(flip=.4 if case["flip"] else 0)
        try:
            ev = w.build(monitor=True)
        except P.BuildFailed as e:
            w.failed(R, e)
            break
        check(R, w, ev, step == 0)
        R.count("builds")
        if R.violations:
            break
    R.sample({"case": case, "history": w.history[:3]})
    return R


def finalize(results, tier, counters):
    return [] if counters.get("reads", 0) > 500 and counters.get("writes", 0) > 500 else ["the monitor saw too few file accesses"]
