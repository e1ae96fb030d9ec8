"""Cleaning real projects in every state, through the real command line."""
import io, os, random, shutil, sys, tempfile
from common import CaseResult
import project as P, world as W, minisite as S

PROPERTY = "C31"
TECHNIQUE = "runtime monitoring: the real clean command on built, partly destroyed and user-extended projects (as an unprivileged user); oracle: conservation of every file over complete before/after snapshots, plus a model of the answer given to the prompt and a rebuild compared byte for byte"
RULE = ("random projects with image lists, built in either mode with links or copies, with the user's own files and links everywhere including look-alike names and inside out/, with parts of the generated files missing; "
        "clean called with every option and prompt answer (with junk before it), absolute, relative and linked folder names and from several folders; then cleaned again and rebuilt. Distinct by (missing parts, option, answer, ways)")
ASSUMPTIONS = ["placeholders which the user edited, or whose image list is gone, are the user's files; neither is generated in these cases",
               "when the record of the placeholders in out/ is itself gone, placeholders may stay"]

USER = ["README.md", "notes/out/keep.txt", "notes/artifacts/keep.txt", "output/x.txt", "artifacts.txt", "out.txt", "artifacts2/a.bin", "outer/y", ".git/HEAD", ".gitignore", "package.json", "src/notes.txt", "src/out/z.txt",
        "src/public/out/q.bin", "src/public/artifacts/r.bin", "src/public/other.images.json.bak", "src/public/js/mine.js", "src/partials/out/x.html", "tests/out/www/index.html", "vanillaplusjs.json.bak"]


def unprivileged(tmp):
    """From here on only files below tmp can be changed."""
    for d in (os.path.dirname(tmp), os.path.dirname(os.path.dirname(tmp))):
        if d not in ("/", tempfile.gettempdir()):
            os.chmod(d, 0o711)
    os.chmod(tmp, 0o755)
    os.chown(tmp, 65534, 65534)
    try:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    except PermissionError:
        pass
    os.environ["HOME"] = tmp


def cases(tier, rng):
    return [{"seed": rng.randrange(1 << 60)} for _ in range(100 if tier == "quick" else 900)]


def command(args, stdin=""):
    """The real command line; returns (exit code or error text, output)."""
    import vanillaplusjs.main
    old = sys.argv, sys.stdin, sys.stdout
    sys.argv, sys.stdin, sys.stdout = ["vanillaplusjs"] + args, io.StringIO(stdin), io.StringIO()
    try:
        try:
            vanillaplusjs.main.main()
            res = 0
        except SystemExit as e:
            res = e.code if e.code is not None else 0
        except Exception as e:
            res = f"{type(e).__name__}: {e}"
        return res, sys.stdout.getvalue()
    finally:
        sys.argv, sys.stdin, sys.stdout = old


def snap(root):
    """Like stat_tree, without what changes in a folder when its members do."""
    return {p: v[:2] if v[0] == "d" else v for p, v in W.stat_tree(root, [x for x in os.listdir(root)]).items()}


def picture(r, path):
    from PIL import Image
    w, h = r.randrange(20, 40), r.randrange(20, 40)
    im = Image.new("RGB", (w, h))
    im.putdata([((x * 7) & 255, (x // w * 11) & 255, r.randrange(256)) for x in range(w * h)])
    os.makedirs(os.path.dirname(path), exist_ok=True)
    im.save(path)
    return w, h


def run_case(case, tmp):
    import json
    R = CaseResult()
    unprivileged(tmp)
    r = random.Random(case["seed"])
    w = W.World({"seed": case["seed"], "n": r.choice([2, 5]), "symlinks": r.random() < .5}, tmp)
    w.dev = r.random() < .4
    folder = w.folder
    lists = []
    for i in range(r.choice([0, 1, 1, 2])):
        a, b = picture(r, f"{folder}/src/public/img/pic{i}.{r.choice(['png', 'jpg'])}")
        name = [f for f in os.listdir(f"{folder}/src/public/img") if f.startswith(f"pic{i}.")][0]
        where = r.choice(["", "js/", "a/b/"]) + f"list{i}"
        os.makedirs(os.path.dirname(f"{folder}/src/public/{where}"), exist_ok=True)
        with open(f"{folder}/src/public/{where}.images.json", "w") as f:
            json.dump({"one": {"path": "/img/" + name, "width": r.randrange(4, a), "height": r.randrange(4, b)}}, f)
        lists.append(where)
        if r.random() < .3:
            # the user's own file next to it
            with open(f"{folder}/src/public/{where}.images.js", "w") as f:
                f.write("// mine\nexport default {};\n")
    own = {x for x in lists if os.path.exists(f"{folder}/src/public/{x}.images.js")}
    for u in r.sample(USER, r.randrange(3, len(USER))):
        os.makedirs(os.path.dirname(f"{folder}/{u}"), exist_ok=True)
        with open(f"{folder}/{u}", "w") as f:
            f.write(f"mine {u}\n")
    try:
        w.build()
        if r.random() < .3:
            w.edit()
            w.build()
    except P.BuildFailed as e:
        w.failed(R, e)
        return R
    if r.random() < .35:
        # a build which fails on the way
        bad = f"{folder}/src/public/zz_broken.js"
        with open(bad, "w") as f:
            f.write("import '/absent/module.js';\n")
        try:
            w.build()
            R.inconclusive.append("the build was to fail")
        except P.BuildFailed:
            R.count("failed_builds")
        os.remove(bad)
        try:
            w.build()
        except P.BuildFailed as e:
            w.failed(R, e)
            return R
    placeholders = {f"src/public/{x}.images.js" for x in lists if x not in own}
    for p in placeholders:
        R.expect(os.path.isfile(f"{folder}/{p}"), "no-placeholder", f"the build left no {p}")
    published = P.tree(f"{folder}/out/www")
    # the user's links
    if r.random() < .5:
        os.makedirs(f"{tmp}/elsewhere/deep")
        with open(f"{tmp}/elsewhere/deep/precious.txt", "w") as f:
            f.write("precious")
        for at in r.sample(["out/www/linked", "artifacts/linked", "out/linked", "mylink", "src/linkdir"], 2):
            os.makedirs(os.path.dirname(f"{folder}/{at}"), exist_ok=True)
            if not os.path.lexists(f"{folder}/{at}"):
                os.symlink(r.choice([f"{tmp}/elsewhere", "../../elsewhere"]), f"{folder}/{at}")
    with open(f"{tmp}/beside.txt", "w") as f:
        f.write("beside")
    # what is missing
    missing = sorted(r.sample(["out", "artifacts", "www", "graphs", "record", "placeholder", "part", "config"], r.choice([0, 0, 1, 1, 2])))
    if placeholders and r.random() < .3:
        missing = sorted({*missing, "placeholder"})
    known = True
    for m in missing:
        if m in ("out", "artifacts"):
            shutil.rmtree(f"{folder}/{m}", ignore_errors=True)
            known = known and m != "out"
        elif m == "www":
            shutil.rmtree(f"{folder}/out/www", ignore_errors=True)
        elif m in ("graphs", "record") and os.path.isdir(f"{folder}/out"):
            for g in os.listdir(f"{folder}/out"):
                if g.endswith(".json") and (m == "graphs") == ("placeholder" not in g):
                    os.remove(f"{folder}/out/{g}")
            known = known and m != "record"
        elif m == "placeholder" and placeholders:
            for p in r.sample(sorted(placeholders), r.randrange(1, len(placeholders) + 1)):
                os.remove(f"{folder}/{p}")
        elif m == "part":
            for d, _, fs in list(os.walk(f"{folder}/out/www")) + list(os.walk(f"{folder}/artifacts")):
                for f in fs:
                    if r.random() < .3 and not os.path.islink(f"{d}/{f}"):
                        os.remove(f"{d}/{f}")
    if "config" in missing:
        os.rename(f"{folder}/vanillaplusjs.json", f"{tmp}/kept.json")
    option = r.choice([["--placeholders"], ["--no-placeholders"], [], []])
    answer = r.choice(["y", "n", "Y", "N"])
    junk = r.choice(["", "", "\n", "maybe\nyes\n", "no\n\n1\n", "yy\nnn\n"])
    way = r.choice(["abs", "rel", "dot", "linked", "slash", "default"])
    cwd, arg = tmp, folder
    if way == "rel":
        cwd, arg = f"{folder}/src", ".."
    elif way == "dot":
        cwd, arg = folder, "."
    elif way == "default":
        cwd, arg = folder, None
    elif way == "linked":
        os.symlink(folder, f"{tmp}/lnk")
        arg = f"{tmp}/lnk"
    elif way == "slash":
        arg = os.path.relpath(folder, cwd) + "/"
    here = {p for p in placeholders if os.path.exists(f"{folder}/{p}")}
    wanted = option == ["--placeholders"] or option == [] and answer.lower() == "y"
    dump = {"missing": missing, "option": option, "input": junk + answer, "way": way, "placeholders": sorted(placeholders)}
    before = snap(tmp)
    os.chdir(cwd)
    res, said = command(["clean"] + (["--folder", arg] if arg else []) + option, junk + answer + "\n")
    os.chdir(tmp)
    after = snap(tmp)
    R.count("cleans")
    R.key(missing, option, answer.lower(), way, len(placeholders))
    if "config" in missing:
        R.expect(res not in (0, None) and not W.diff_stat(before, after), "without-project", f"cleaning without vanillaplusjs.json: {res}, {W.diff_stat(before, after)}", **dump)
        return R
    R.expect(res == 0, "clean-fails", f"clean ended with {res}: {said[-300:]}", **dump)
    must = {p for p in before if p.startswith(("proj/out/", "proj/artifacts/")) or p in ("proj/out", "proj/artifacts")}
    ph = {"proj/" + p for p in here}
    may = set()
    if wanted and known:
        must |= ph
    elif wanted:
        may = ph
    gone = set(before) - set(after)
    R.expect(must <= gone, "left", f"still there: {sorted(must - gone)[:6]}", **dump)
    R.expect(gone <= must | may, "removed-too-much", f"removed: {sorted(gone - must - may)[:8]}", **dump)
    new = set(after) - set(before)
    R.expect(not new, "created", f"created: {sorted(new)[:6]}", **dump)
    changed = [p for p in after if p in before and after[p] != before[p]]
    R.expect(not changed, "changed", f"changed: {[(p, before[p], after[p]) for p in changed[:4]]}", **dump)
    R.count("removed", len(gone))
    R.count("kept", len(after))
    R.count("placeholders_removed", len(gone & ph))
    # again, with nothing left
    option2 = r.choice([["--placeholders"], ["--no-placeholders"], []])
    res, said = command(["clean", "--folder", folder] + option2, "y\n")
    R.expect(res == 0 and snap(tmp) == after, "clean-again", f"cleaning twice: {res} {W.diff_stat(after, snap(tmp))}", **dump)
    try:
        w.build()
    except P.BuildFailed as e:
        R.fail("rebuild-fails", f"building after cleaning: {e}", **dump)
        return R
    for p in (f"{folder}/src/linkdir", f"{folder}/mylink"):
        pass
    now = P.tree(f"{folder}/out/www")
    R.expect(now == published, "publishes-differently", str(P.diff_trees(now, published)), **dump)
    R.count("rebuilds")
    R.sample(dump)
    return R


def finalize(results, tier, counters):
    return [] if counters.get("rebuilds", 0) >= 40 and counters.get("placeholders_removed", 0) >= 10 else ["too few cleans observed"]
