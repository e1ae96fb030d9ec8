"""Every build is traced under random delays: which sources are built, when each step starts and ends, which files it touches."""
import os, random
from common import CaseResult
import project as P, world as W

PROPERTY = "C07"
TECHNIQUE = "runtime monitoring: event trace of every build step under injected delays, checked offline for exactly-once, ordering and write races"
RULE = ("random projects and histories (initial and incremental builds, mode flips), 2-8 workers, random delay at the start and end of each step; the "
        "set of sources built must contain everything that changed or reaches a change in the reference graph of the generated project and nothing that "
        "neither changed, reaches a change nor shares an output with such a source; each is built once, after its dependencies ended; two steps "
        "overlapping in time never touch one generated file if one writes it. Distinct by (kinds of changed and rebuilt files, first, pairs overlapping)")


def cases(tier, rng):
    n = 150 if tier == "quick" else 1500
    return [{"seed": rng.randrange(1 << 60), "n": rng.choice([5, 9, 14, 22]), "steps": rng.choice([2, 3, 4]),
             "symlinks": rng.random() < .3, "flip": rng.random() < .4, "icons": rng.random() < .35} for _ in range(n)]


class Model:
    """The references of a generated project at one moment."""

    def __init__(self, proj):
        self.kind = {p: n.kind for p, n in proj.nodes.items()}
        self.deps, self.outs, self.uses, soft = {}, {}, {}, {}
        for p, n in proj.nodes.items():
            d = {x[k] for x in n.refs for k in ("to", "via") if x.get(k) and x["t"] != "iconurl" and (x["t"] != "icon" or proj.icon_cols(x))}
            soft[p] = {x[k] for x in n.refs for k in ("to", "via") if x["t"] == "iconurl"} - {p}
            o = set()
            self.uses[p] = {("icon", x["to"], x["col"]) for x in n.refs if x["t"] == "iconurl"}
            for x in n.refs:
                if x["t"] == "icon":
                    d.add(P.MAIN)
                    o |= {("icon", x["to"], c) for c in proj.icon_cols(x)}
                elif x["t"] == "data":
                    o.add(("data", x["svg"]))
                elif x["t"] == "iconurl":
                    o.add(("icon", x["to"], x["col"]))  # it follows whoever produces that file
            d.discard(p)
            self.deps[p], self.outs[p] = d, o
        # what a partial refers to belongs to the pages showing it; the partial itself publishes nothing
        full = dict(self.deps)
        for p, k in self.kind.items():
            if k == "html":
                seen, stack = set(), [p]
                while stack:
                    for d in self.deps[stack.pop()]:
                        if d not in seen:
                            seen.add(d)
                            if self.kind.get(d) == "partial":
                                stack.append(d)
                full[p] = seen
        self.may = {p: d | soft[p] for p, d in self.deps.items()}
        self.deps = {p: (set() if self.kind[p] == "partial" else d) for p, d in full.items()}


def closure(start, models, shared):
    """Everything reaching `start` in any of the models, also through shared outputs if asked."""
    rev, prod = {}, {}
    for m in models:
        for p, ds in list(m.deps.items()) + (list(m.may.items()) if shared else []):
            for d in ds:
                rev.setdefault(d, set()).add(p)
        for p, os_ in m.outs.items():
            for o in os_:
                prod.setdefault(o, set()).add(p)
    res, stack = set(start), list(start)
    while stack:
        p = stack.pop()
        nxt = set(rev.get(p, ()))
        if shared:
            for m in models:
                for o in m.outs.get(p, ()):
                    nxt |= prod.get(o, set())
        for q in nxt - res:
            res.add(q)
            stack.append(q)
    return res


def overlap(a, b):
    return a["begin"] < b["end"] and b["begin"] < a["end"]


def check(R, w, events, old, new, ops, flipped, first):
    steps = W.steps_of(events)
    builds = [s for s in steps if s["kind"] == "build"]
    by = {}
    for s in builds:
        by.setdefault(s["f"], []).append(s)
    R.count("build_steps", len(builds))
    for f, ss in by.items():
        R.expect(len(ss) == 1, "built-twice", f"{f} was built {len(ss)} times in one build", history=w.history)
    changed = {p for op, p in ops if op in ("create", "modify")}
    gone = {p for op, p in ops if op == "delete"}
    real = {p for p in changed if w.content_changed.get(p)} | gone
    if flipped and P.CONST in new.kind:
        changed.add(P.CONST)
        real.add(P.CONST)
    need = {p for p in closure(real, [new], False) | changed if p in new.kind}
    may = {p for p in closure(changed | gone, [m for m in (old, new) if m], True) if p in new.kind}
    missing = need - set(by)
    R.expect(not missing, "not-rebuilt", f"{sorted(missing)[:5]} must be built after {sorted(changed | gone)[:6]} changed, but was not", history=w.history)
    extra = set(by) - may
    R.expect(not extra, "rebuilt-needlessly", f"{sorted(extra)[:5]} neither changed nor depends on what changed ({sorted(changed | gone)[:6]}), but was built", history=w.history)
    from vanillaplusjs.build.graph import FileDependencyGraph
    with open(os.path.join(w.folder, "out/dependency_graph.json")) as fh:
        rec = FileDependencyGraph.load(fh)
    for f, ss in by.items():
        ds = set(new.deps.get(f, ())) | (set(rec.get_children(f)) if f in rec else set())
        for d in ds & set(by):
            if d == f:
                continue
            R.count("order_pairs")
            R.expect(by[d][0]["end"] <= ss[0]["begin"], "started-before-dependency",
                     f"{f} began building before its dependency {d} was built", history=w.history)
        for o in new.uses.get(f, ()):
            prods = [p for p in by if p != f and o in new.outs[p] and o not in new.uses[p]]
            own = any(o == ("icon", x["to"], c) for x in w.proj.nodes[f].refs if x["t"] == "icon" for c in w.proj.icon_cols(x))
            if prods and not own:
                R.expect(any(by[p][0]["end"] <= ss[0]["begin"] for p in prods), "started-before-dependency",
                         f"{f} began building before any of {prods}, which generate {o}, was built", history=w.history)
    pairs = set()
    acc = {}
    for s in steps:
        for e in s["io"]:
            for q, op in ((e["f"], "w" if e["op"] != "r" else "r"), (e.get("f2"), "w")):
                if q and q.startswith(("out/www/", "artifacts/")) and e["op"] != "mkdir":
                    acc.setdefault(q, {}).setdefault(s["begin"], (s, set()))[1].add(op)
    for q, m in acc.items():
        v = list(m.values())
        for i, (a, oa) in enumerate(v):
            for b, ob in v[i + 1:]:
                R.count("shared_accesses")
                if ("w" in oa or "w" in ob) and overlap(a, b):
                    R.expect(False, "race", f"{q}: {a['kind']} of {a['f']} ({'/'.join(sorted(oa))}) and {b['kind']} of {b['f']} ({'/'.join(sorted(ob))}) overlapped", history=w.history)
                else:
                    R.eval()
    for i, a in enumerate(builds):
        for b in builds[i + 1:]:
            if overlap(a, b):
                R.count("overlapping_steps")
                pairs.add(tuple(sorted((new.kind.get(a["f"], "?"), new.kind.get(b["f"], "?")))))
    R.key(first, flipped, sorted({new.kind.get(p, (old.kind if old else {}).get(p)) for p in changed | gone if True}, key=str), sorted({new.kind.get(p, "?") for p in by}), sorted(pairs))


ICONS = {"css", "icon", "nest", "dataimg", "static"}


def run_case(case, tmp):
    R = CaseResult()
    w = W.World(case, tmp, features=set(ICONS) if case.get("icons") else None)
    old = None
    for step in range(case["steps"] + 1):
        was = w.dev
        before = dict(w.disk.have) if step else {}
        if step:
            w.edit(flip=.4 if case["flip"] else 0)
        w.content_changed = {p: before.get(p) != b for p, b in w.disk.have.items()}
        new = Model(w.proj)
        try:
            ev = w.build(monitor=True, workers=w.rng.choice([2, 4, 8, 8]),
                         delay=W.jitter(f"{case['seed']}/{step}", {"build", "build-end", "scan"}, w.rng.choice([.01, .04, .1])))
        except P.BuildFailed as e:
            w.failed(R, e)
            break
        check(R, w, ev, old, new, w.ops, w.dev != was, step == 0)
        R.count("builds")
        if R.violations:
            break
        old = new
    R.sample({"case": case, "history": w.history[:3]})
    return R


def finalize(results, tier, counters):
    need = {"overlapping_steps": 300, "order_pairs": 300, "build_steps": 500, "shared_accesses": 100}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
