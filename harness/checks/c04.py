"""After each build the served folder is compared with what the model of the sources says must be there."""
import os
from common import CaseResult
import project as P, world as W, refs

PROPERTY = "C04"
TECHNIQUE = "runtime monitoring: served-folder conservation checker (model of sources, sidecars, recorded outputs) after every build of random histories"
RULE = ("random projects and histories with many deletions, renames, file/folder swaps and removed pieces; after each build: every public "
        "source has its file, every other file is referenced by a served file, the number of generated scripts/stylesheets equals the number of "
        "inline pieces (partials expanded), every file has a correct .hash and no .hash stands alone, no folder is empty, and the recorded "
        "outputs are exactly the files present. Distinct by (edit kinds, change in the set of served files)")


def cases(tier, rng):
    n = 110 if tier == "quick" else 1700
    return [{"seed": rng.randrange(1 << 60), "n": rng.choice([3, 6, 10, 16]), "steps": rng.choice([2, 4, 7]),
             "symlinks": rng.random() < .4, "flip": rng.random() < .2} for _ in range(n)]


def pieces(proj, path, kind):
    n = proj.nodes[path]
    c = sum(1 for x in n.refs if x["t"] == kind)
    return c + sum(pieces(proj, x["to"], kind) for x in n.refs if x["t"] == "tpl")


def check(R, w, out):
    h = w.history
    files = {p for p in out if not p.endswith(".hash")}
    want = {p[len(P.PUB):] for p in w.proj.nodes if p.startswith(P.PUB)}
    R.expect(want <= files, "source-not-served", f"not served: {sorted(want - files)[:5]}", history=h)
    extra = files - want
    named = {t.lstrip("/") for p in files if p.endswith((".html", ".css", ".js")) for t, _, _ in refs.tagged(out[p])}
    R.expect(extra <= named, "left-behind", f"served but neither a source nor referenced by anything served: {sorted(extra - named)[:5]}", history=h)
    for ext, kind in ((".js", "inline"), (".css", "style")):
        exp = sum(pieces(w.proj, p, kind) for p, n in w.proj.nodes.items() if n.kind == "html")
        got = sorted(p for p in extra if p.endswith(ext))
        R.expect(len(got) == exp, "generated-count", f"{exp} inline {kind} pieces, generated files {got}", history=h)
        R.count("pieces", exp)
    for p in files:
        R.expect(p + ".hash" in out and out[p + ".hash"].decode() == refs.b64(out[p]), "wrong-sidecar",
                 f"sidecar of {p} is {out.get(p + '.hash')!r}, its bytes hash to {refs.b64(out[p])}", history=h)
    lone = sorted(p for p in out if p.endswith(".hash") and p[:-5] not in files)
    R.expect(not lone, "lone-sidecar", f"sidecars without a file: {lone[:5]}", history=h)
    e = P.empty_dirs(os.path.join(w.folder, "out/www"))
    R.expect(not e, "empty-folder", f"empty served folders: {e}", history=h)
    from vanillaplusjs.build.graph import FileDependencyGraph
    with open(os.path.join(w.folder, "out/output_graph.json")) as f:
        g = FileDependencyGraph.load(f)
    rec = {p[len("out/www/"):] for p in g.nodes if p.startswith("out/www/")}
    R.expect(rec == set(out), "recorded-outputs-differ",
             f"recorded but absent: {sorted(rec - set(out))[:5]}; present but not recorded: {sorted(set(out) - rec)[:5]}", history=h)
    lone = [p for p in g.nodes if p.startswith("out/www/") and not g.get_parents(p)]
    R.expect(not lone, "recorded-output-without-producer", f"no source is recorded to produce {lone[:5]}", history=h)
    R.count("files", len(files))
    R.count("generated", len(extra))


def run_case(case, tmp):
    R = CaseResult()
    w = W.World(case, tmp)
    prev = None
    for step in range(case["steps"] + 1):
        if step:
            w.edit(flip=.2 if case["flip"] else 0)
        try:
            w.build()
        except P.BuildFailed as e:
            w.failed(R, e)
            break
        out = w.out()
        check(R, w, out)
        R.count("builds")
        if prev is not None and set(out) != prev:
            R.count("builds_removing_files", bool(prev - set(out)))
            R.key(sorted({str(e).split()[0] for e in w.history[-1]}), len(prev - set(out)), len(set(out) - prev))
        prev = set(out)
        if R.violations:
            break
    R.sample({"case": case, "history": w.history[:4]})
    return R
