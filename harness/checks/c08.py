"""Builds are killed before chosen file system changes or at random moments, or made to fail, and then followed by an ordinary build."""
import os, random, shutil
from common import CaseResult
import project as P, world as W

PROPERTY = "C08"
TECHNIQUE = "runtime monitoring with fault injection: kill the build's process group at the n-th file system change or a random time, or inject faulty sources; oracle: served tree of the following build equals a clean build's"
RULE = ("random projects; an initial or incremental build is killed just before its n-th change to the file system, or just after it opened the file it is about to write (n spread over the whole build, counted "
        "in a dry run) or after a random time, once or twice in a row, or fails because of injected faulty sources; then the sources are kept, edited "
        "further, or reverted, and a build must succeed and serve exactly what a clean build serves, and the sources must be as they were. "
        "Distinct by (kind of interruption, relative position, initial/incremental, what followed)")


def cases(tier, rng):
    n = 90 if tier == "quick" else 1200
    return [{"seed": rng.randrange(1 << 60), "images": rng.random() < .4, "n": rng.choice([3, 6, 10, 15]), "symlinks": rng.random() < .3, "first": rng.random() < .3,
             "how": rng.choice(["kill", "kill", "kill", "time", "fault", "fault"]), "points": 4} for _ in range(n)]


FAULTS = ["js-import", "html-link", "html-script", "css-url", "nest-file", "nest-rule", "partial", "template-json", "cycle", "inline-import", "icon-file"]


def inject(rng, w, name, serial):
    """Writes a faulty source next to the model's ones; returns what to write to undo it (path -> bytes or None)."""
    pub = os.path.join(w.folder, "src/public")
    files = {
        "js-import": {"zz/f.js": "import '/js/nowhere.js';\n"},
        "html-link": {"zz/f.html": '<!DOCTYPE html><html><head><link rel="stylesheet" href="/nowhere.css"></head></html>'},
        "html-script": {"zz/f.html": '<!DOCTYPE html><html><head><script src="/nowhere.js"></script></head></html>'},
        "css-url": {"zz/f.css": "a { background: url('/img/nowhere.svg'); }"},
        "nest-file": {"zz/f.css": "a { /*! PREPROCESSOR: import .x FROM /nowhere.css */ }"},
        "nest-rule": {"zz/f.css": "a { /*! PREPROCESSOR: import .nowhere FROM /zz/g.css */ }", "zz/g.css": ".x { color: red; }"},
        "partial": {"zz/f.html": '<!DOCTYPE html><html><body><!--[TEMPLATE: ["/nowhere.html", {}]]--></body></html>'},
        "template-json": {"zz/f.html": '<!DOCTYPE html><html><body><!--[TEMPLATE: ["/nowhere.html", {]]--></body></html>'},
        "cycle": {"zz/f.js": "import './g.js';\n", "zz/g.js": "import './h.js';\n", "zz/h.js": "import './f.js';\n"},
        "inline-import": {"zz/f.html": "<!DOCTYPE html><html><body><script type=\"module\">import '/nowhere.js';</script></body></html>"},
        "icon-file": {"zz/f.css": "/*! PREPROCESSOR: icon nowhere primary [\"accent\"] all-sizes no-btn */"},
    }[name]
    undo = []
    victims = [p for p, n in w.proj.nodes.items() if n.kind in {".js": ("js",), ".css": ("css",), ".html": ("html",)}[os.path.splitext(list(files)[0])[1]]]
    if victims and rng.random() < .5 and name != "cycle":
        # break an existing file instead of adding one
        first = list(files)[0]
        v = rng.choice(sorted(victims))
        body = files.pop(first).encode() + b"\n"
        with open(os.path.join(w.folder, v), "rb") as f:
            old = f.read()
        with open(os.path.join(w.folder, v), "wb") as f:
            f.write(old + body if v.endswith(".css") else body if v.endswith(".html") else body + old)
        w.disk._stamp(os.path.join(w.folder, v))
        undo.append((os.path.join(w.folder, v), old))
    for p, t in files.items():
        fp = os.path.join(pub, p)
        os.makedirs(os.path.dirname(fp), exist_ok=True)
        with open(fp, "w") as f:
            f.write(t)
        w.disk._stamp(fp)
        undo.append((fp, None))
    return undo


def revert(w, undo):
    for fp, old in undo:
        if old is None:
            os.remove(fp)
            if not os.listdir(os.path.dirname(fp)):
                os.rmdir(os.path.dirname(fp))
        else:
            with open(fp, "wb") as f:
                f.write(old)
            w.disk._stamp(fp)


def compare(R, w, what, tmp):
    # placeholders of lists may be made
    srcs = {p: b for p, b in P.tree(os.path.join(w.folder, "src")).items() if not p.endswith(".images.js") or "src/" + p in w.disk.have}
    R.expect(srcs == {p[4:]: b for p, b in w.disk.have.items()}, "sources-changed",
             f"after {what} the sources differ: {P.diff_trees({p[4:]: b for p, b in w.disk.have.items()}, srcs)}", history=w.history)
    try:
        w.build()
    except P.BuildFailed as e:
        try:
            w.clean_tree()
        except P.BuildFailed as e2:
            R.fail("valid-project-fails", f"a clean build of a valid project raises {e2}", history=w.history[-1:])
            return False
        R.fail("build-fails-after-interruption", f"after {what} a clean build works but the next build raises {e}", history=w.history)
        return False
    a, b = w.out(), w.clean_tree()
    d = P.diff_trees(a, b)
    R.expect(not d, "poisoned-output", f"after {what} the next build serves something else than a clean build: " + "; ".join(d), history=w.history)
    e = P.empty_dirs(os.path.join(w.folder, "out/www"))
    R.expect(not e, "poisoned-output", f"after {what} empty folders are left: {e}", history=w.history)
    R.count("recovered_builds")
    return not d


def run_case(case, tmp):
    R = CaseResult()
    w = W.World(case, tmp)
    rng = w.rng
    try:
        if not case["first"]:
            w.build()
            w.edit(lo=2, hi=6)
            if rng.random() < .2:
                w.dev = not w.dev
    except P.BuildFailed as e:
        w.failed(R, e)
        return R
    if case["how"] == "fault":
        for rnd in range(2):
            undo = []
            names = rng.sample(FAULTS, rng.choice([1, 1, 2]))
            for nm in names[:1]:
                undo += inject(rng, w, nm, rnd)
            failed = 0
            for _ in range(rng.choice([1, 1, 2])):
                try:
                    w.build()
                except P.BuildFailed:
                    failed += 1
                    R.count("failed_builds")
            then = rng.choice(["same", "edit", "edit"])
            revert(w, undo)
            if then == "edit":
                w.edit()
            if not failed:
                R.count("fault_accepted")
            R.key("fault", names[0], case["first"] and not rnd, then, failed)
            if not compare(R, w, f"{failed} failed builds ({names[0]})", tmp) or R.violations:
                break
        R.sample({"case": case, "faults": names, "history": w.history[:3]})
        return R
    # how many changes does this build make?
    save = os.path.join(tmp, "save")
    kf = os.path.join(tmp, "count")
    shutil.copytree(w.folder, save, symlinks=True)
    workers = rng.choice([1, 2, 8])
    st, total = W.build_in_child(save, w.dev, w.symlinks, workers, kill_file=kf)
    shutil.rmtree(save)
    if st != "ok":
        try:
            w.build()
        except P.BuildFailed as e:
            w.failed(R, e)
        return R
    R.count("changes_in_dry_runs", total)
    import time
    for i in range(case["points"]):
        kills, what = rng.choice([1, 1, 1, 2]), []
        for _ in range(kills):
            if os.path.exists(kf):
                os.remove(kf)
            torn = rng.random() < .5
            if case["how"] == "kill":
                at = rng.choice([rng.randrange(1, total + 1), rng.randrange(1, total + 1), max(1, total - rng.randrange(9)), rng.randrange(1, min(9, total) + 1)]) if total else 1
                st, n = W.build_in_child(w.folder, w.dev, w.symlinks, workers, kill_at=at, kill_file=kf, torn=torn)
                what.append(f"{st} {'within' if torn else 'at'} change {at} of about {total}")
                pos = min(9, at * 10 // max(1, total + 1))
            else:
                after = rng.uniform(0.005, .25)
                st, n = W.build_in_child(w.folder, w.dev, w.symlinks, workers, kill_after=after, kill_file=kf,
                                         delay=W.jitter(f"{case['seed']}{i}", {"build", "build-end", "scan"}, .03))
                what.append(f"{st} after {after:.3f}s")
                pos = int(after * 20)
            R.count("builds_" + st)
            R.key(case["how"], pos, case["first"] and not i, st, kills)
        then = rng.choice(["same", "same", "edit", "mode", "delete"])
        if then == "edit":
            w.edit()
        elif then == "delete":
            # in particular one which had made another source
            w.edit(lo=0, hi=2, delete=["list"] if w.proj.of("list") and rng.random() < .7 else ["html", "js", "css", "static", "photo", "partial"])
        elif then == "mode":
            w.dev = not w.dev
        w.history.append([*what, then])
        if not compare(R, w, " and ".join(what), tmp) or R.violations:
            break
        w.edit(lo=2, hi=6)
        if case["first"] and rng.random() < .7:
            shutil.rmtree(os.path.join(w.folder, "out"))
    R.sample({"case": case, "history": w.history[:4]})
    return R


def finalize(results, tier, counters):
    need = {"builds_killed": 60, "failed_builds": 20, "recovered_builds": 100}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
