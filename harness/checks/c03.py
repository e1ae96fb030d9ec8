"""After each build every version tag in every served file is compared with the hash of the bytes served at that path."""
import os
from common import CaseResult
import project as P, world as W, refs

PROPERTY = "C03"
TECHNIQUE = "runtime monitoring: offline tag/hash checker over the served folder after every build of random histories"
RULE = ("random projects and histories of 1-8 edit batches; after each build (a) every `?v=` tag found in any served text and (b) every "
        "reference found by parsing pages, stylesheets and scripts to a served file must carry the hash of the bytes served there and the "
        "processor version. Distinct by (referrer kind, reference kind, target kind, what was edited)")


def cases(tier, rng):
    n = 110 if tier == "quick" else 1700
    return [{"seed": rng.randrange(1 << 60), "images": rng.random() < .3, "n": rng.choice([5, 8, 12, 18]), "steps": rng.choice([1, 3, 5, 8]),
             "symlinks": rng.random() < .3, "flip": rng.random() < .5} for _ in range(n)]


def check(R, out, w, pv):
    what = sorted({str(e).split()[0] for e in w.history[-1]})
    for p, b in out.items():
        if not p.endswith((".html", ".css", ".js")):
            continue
        for path, v, got_pv in refs.tagged(b):
            t = path.lstrip("/")
            R.count("tags")
            if not R.expect(t in out, "tag-names-no-file", f"{p} refers to {path} which is not served", history=w.history):
                continue
            R.expect(v == refs.b64(out[t]), "wrong-version-tag",
                     f"{p} refers to {path} with version {v}, the served bytes hash to {refs.b64(out[t])}", history=w.history)
            R.expect(got_pv == pv, "wrong-processor-version", f"{p} refers to {path} with pv={got_pv}, expected {pv}")
            R.key(os.path.splitext(p)[1], os.path.splitext(t)[1], what)
        rs = []
        if p.endswith(".html"):
            rs = [u for k, u in refs.html_refs(b) if k in ("stylesheet", "preload", "script")]
        elif p.endswith(".css"):
            rs = [u for u in refs.css_urls(b) if u.startswith("/")]
        else:
            rs = refs.js_imports(b)
        for u in rs:
            path, v, got_pv = refs.split(u)
            R.count("references")
            if path.startswith("/") or p.endswith(".js"):
                t = path.lstrip("/")
                R.expect(path.startswith("/") and t in out, "reference-names-no-file", f"{p} refers to {u} which is not served", history=w.history)
                R.expect(v is not None, "unversioned-reference", f"{p} refers to {u} without a version", history=w.history)


def run_case(case, tmp):
    R = CaseResult()
    w = W.World(case, tmp)
    import vanillaplusjs.constants as K
    for step in range(case["steps"] + 1):
        if step:
            w.edit(flip=.5 if case["flip"] else 0)
        try:
            w.build()
        except P.BuildFailed as e:
            w.failed(R, e)
            break
        check(R, w.out(), w, K.PROCESSOR_VERSION)
        R.count("builds")
        if R.violations:
            break
    R.sample({"case": case, "history": w.history[:3]})
    return R


def finalize(results, tier, counters):
    return [] if counters.get("tags", 0) > 200 else ["too few version tags seen"]
