"""Image artifacts are kept, removed and made again in every combination; what is written, and what changes, is watched."""
import json, os, random, shutil, time
from common import CaseResult
import imggen as I, minisite as S, project as P, vpmon
from checks import c24
from world import stat_tree, diff_stat

PROPERTY = "C26"
TECHNIQUE = "runtime monitoring: real builds in copies of a project and over histories which remove the output folder, artifacts or single files; monitors compare bytes, inodes and times of all artifacts and record every file opened for writing (audit hook)"
RULE = ("the random sites of C24 with random settings; builds in fresh copies without artifacts (also with other numbers of worker processes), rebuilds after removing the output folder, after rewriting the settings in another order of keys, in development mode, after touching pages and adding a page with the same requests; rebuilds after removing single artifacts, "
        "metadata, counters and whole slots. Distinct by (operation, formats, exports, modes of the images) ")
ASSUMPTIONS = ["the same version of Pillow", "equally good exports are listed in the same order", "artifacts are only removed as a whole file, not altered"]
TIMEOUT = 300


def cases(tier, rng):
    q = tier == "quick"
    return [{"seed": rng.randrange(1 << 60), "steps": 4 if q else 8} for _ in range(48 if q else 500)]


def shuffled(r, v):
    """The same settings written in another order (exports keep theirs: it decides between equally good ones)."""
    def go(v, keep=False):
        if not isinstance(v, dict):
            return v
        items = [(k, go(x, k == "exports")) for k, x in v.items()]
        if not keep:
            r.shuffle(items)
        return dict(items)
    return go(v)


def respelled(r, st):
    """... and with the exports in another order as well (nothing is made again then)."""
    st = shuffled(r, st)
    for f in st["formats"].values():
        items = list(f["exports"].items())
        r.shuffle(items)
        f["exports"] = dict(items)
    return st


def slots(folder):
    """The artifacts without the numbers of the slots: multiset of (image folder, files and what they hold)."""
    res = {}
    root = os.path.join(folder, "artifacts")
    by = {}
    for p, b in P.tree(root).items():
        d, f = p.rsplit("/", 1)
        by.setdefault(d, {})[f] = b
    out = []
    for d, fs in by.items():
        head, _, num = d.rpartition("/")
        if num.isdigit() and "counter.txt" not in fs:
            out.append((head, tuple(sorted((f, b.replace(("/" + num + "/").encode(), b"/N/") if f.endswith(".json") else b) for f, b in fs.items()))))
        else:
            out.append((d, tuple(sorted(fs.items()))))
    return sorted(out)


def judge_pages(R, s, site, settings, label):
    c24.judge(R, s, site, settings, label)


def run_case(case, tmp):
    R = CaseResult()
    r = random.Random(case["seed"])
    settings = I.make_settings(r, r.choice([100, 400, 2500]))
    site = c24.Site(r)
    s = S.Site(tmp, site.files(), images=settings)
    R.sample({"settings": settings, "images": {p: v[1:] for p, v in site.images.items()}})
    trace = os.path.join(tmp, "trace")
    users = {}
    for page in site.pages:
        for _, c in site.expected(page):
            users.setdefault(c.path.rsplit(".", 1)[0], set()).add(page)
    single = all(len(u) == 1 for u in users.values())
    op, whole = "first", True
    log = []
    try:
        s.build()
        started = time.monotonic()
        for step in range(case["steps"]):
            if time.monotonic() - started > 40:
                # lossless WebP of many sizes can take minutes; a few steps of such a site are enough
                R.count("cut short")
                break
            out0, art0 = s.out(), P.tree(s.path("artifacts"))
            op = r.choice(["copy", "copy", "copy", "out", "out", "order", "order", "dev", "touch", "more", "file", "file", "metadata", "counter", "slot", "all", "nothing"])
            log.append(op)
            R.count("op " + op)
            R.key(op, len(settings["formats"]), single, sorted({v[3] for v in site.images.values()}), max(len(f["exports"]) for f in settings["formats"].values()))
            if op == "copy":
                # from the sources alone
                d = os.path.join(tmp, f"copy{step}")
                os.makedirs(d)
                shutil.copytree(s.path("src"), os.path.join(d, "src"))
                shutil.copy2(s.path("vanillaplusjs.json"), d)
                P.build(d, workers=r.choice([None, 1, 2]))
                fresh = set(slots(d))
                if not whole:
                    pass  # artifacts were removed below an output which still stands: they may be missing
                elif single and not any(x in log for x in ("file", "metadata", "counter", "slot", "all")):
                    a = P.tree(os.path.join(d, "artifacts"))
                    R.expect(a == art0, "not-reproducible", f"{log}: artifacts of a copy differ: {P.diff_trees(art0, a)}", settings=settings)
                    R.count("exact copies")
                else:
                    mine = set(x[1] for x in slots(s.folder))
                    bad = [(h, [f for f, _ in fs]) for h, fs in fresh if not any(f == "counter.txt" for f, _ in fs) and fs not in mine]
                    R.expect(not bad, "not-reproducible", f"{log}: slots of a copy are not among those of the project: {bad[:3]}", settings=settings)
                R.count("copied slots", len(fresh))
                shutil.rmtree(d)
                continue
            if op in ("out", "order", "dev", "touch", "more", "nothing"):
                if op in ("out", "order", "dev"):
                    shutil.rmtree(s.path("out"))
                if op == "order":
                    s.config(images=respelled(r, settings))
                if op == "touch":
                    for p in r.sample(sorted(site.pages), 1):
                        s.disk._stamp(s.path("src/public/" + p))
                if op == "more":
                    page = r.choice(sorted(site.pages))
                    s.put({f"src/public/copy{step}.html": "".join(f'<p>{c.text(random.Random(1))}</p>' for _, c in site.expected(page)) + "<p>x</p>"})
                before = stat_tree(s.folder, ["artifacts"])
                vpmon.start(trace=trace + str(step), root=s.folder)
                try:
                    s.build(dev=op == "dev")
                finally:
                    vpmon.stop()
                after = stat_tree(s.folder, ["artifacts"])
                d = diff_stat(before, after)
                wrote = writes(trace + str(step))
                intact = whole
                if not whole:
                    d, wrote = [], []
                    whole = op in ("out", "order", "dev")
                R.expect(not d, "artifacts-touched", f"{log}: up-to-date artifacts were changed: {d}", settings=settings)
                R.expect(not wrote, "artifacts-written", f"{log}: files were written among up-to-date artifacts: {sorted(wrote)[:5]}")
                R.count("artifacts kept", sum(1 for v in after.values() if v[0] == "f"))
                out1 = s.out()
                if op in ("out", "touch", "nothing") and intact:
                    R.expect(out1 == out0, "out-differs", f"{log}: what is published differs: {P.diff_trees(out0, out1)}")
                if op == "order":
                    s.config(images=settings)
                if op == "dev":
                    shutil.rmtree(s.path("out"))
                    s.build()
            else:
                files = [p for p in art0 if p.rsplit("/", 1)[1].split(".")[0] not in ("counter", "metadata", "placeholder")]
                if op == "file":
                    gone = r.sample(files, min(len(files), r.choice([1, 1, 3])))
                elif op == "metadata":
                    gone = r.sample(sorted(p for p in art0 if p.endswith("metadata.json")), 1)
                elif op == "counter":
                    gone = [p for p in art0 if p.endswith("counter.txt")]
                elif op == "slot":
                    sl = r.choice(sorted(p for p in art0 if p.endswith("metadata.json"))).rsplit("/", 1)[0]
                    gone = [p for p in art0 if p.startswith(sl + "/")]
                else:
                    gone = list(art0)
                for p in gone:
                    os.remove(s.path("artifacts/" + p))
                whole = r.random() < .6
                if whole:
                    shutil.rmtree(s.path("out"))
                else:
                    # what uses them is made again, with new requests among them
                    page = r.choice(sorted(site.pages))
                    site.pages[page] = site.items()
                    s.put({p: t for p, t in site.files().items() if c24._bytes(t) != c24._now(s, p)})
                    users = {}
                    for pg in site.pages:
                        for _, c in site.expected(pg):
                            users.setdefault(c.path.rsplit(".", 1)[0], set()).add(pg)
                    single = False
                s.build()
                R.count("removed", len(gone))
            judge_pages(R, s, site, settings, f"{log}")
            R.count("builds")
            if R.violations:
                return R
    except P.BuildFailed as e:
        R.fail("build-fails", f"{log}: a build of a valid project fails: {e}", settings=settings, pages={p: [repr(x[1]) for x in site.expected(p)] for p in site.pages})
    return R


def writes(trace):
    """Files among the artifacts which any process opened for writing, removed, renamed or made."""
    res = set()
    for d, _, fs in os.walk(trace):
        for f in fs:
            for l in open(os.path.join(d, f)):
                e = json.loads(l)
                if e["e"] == "io":
                    for p in (e.get("f"), e.get("f2")):
                        if isinstance(p, str) and p.startswith("artifacts/") and e["op"] in ("w", "rm", "mv", "ln"):
                            res.add((e["op"], p))
    return res


def finalize(results, tier, counters):
    need = {"builds": 100, "op copy": 10, "op out": 8, "op order": 8, "op file": 8, "exact copies": 5, "artifacts kept": 500, "removed": 50}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
