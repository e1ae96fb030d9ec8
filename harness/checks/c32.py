"""Initialising folders in every state."""
import json, os, random
from common import CaseResult
import project as P, world as W
from checks.c31 import unprivileged, command, snap, picture

PROPERTY = "C32"
TECHNIQUE = "runtime monitoring: the real init command on folders in many states (as an unprivileged user); oracle: complete before/after snapshots (nothing existing may change), the list of pieces a project needs, and a real build of the result"
RULE = ("folders that are absent, nested in absent ones, empty, partly initialised in any combination, complete projects, or hold the user's own configuration, pages, links and files; with and without host, by absolute, relative, linked and default names; "
        "initialised, initialised again (also with another host), built in both modes. Distinct by (state, way, host)")
ASSUMPTIONS = ["the folder and its existing parts are writable, and existing configuration and sources are themselves valid"]

PARTS = ["src/", "src/public/", "src/public/img/", "src/public/js/", "src/partials/", "src/public/index.html", "vanillaplusjs.json", "src/public/js/constants.js", "src/public/css/main.css", "README.md", "out/", "artifacts/", "src/public/other.html", "index.html", "public/index.html", "src/index.html"]
NEEDED = ["src/public/img", "src/public/js", "src/partials", "src/public/index.html", "vanillaplusjs.json"]
HOSTS = [None, None, "https://example.com", "http://localhost:8000", "https://ex\u00e4mple.org/\"q\" \\ x", ""]


def cases(tier, rng):
    return [{"seed": rng.randrange(1 << 60)} for _ in range(150 if tier == "quick" else 1500)]


def files_only(s):
    return {p: v for p, v in s.items() if v[0] != "d"}


def run_case(case, tmp):
    R = CaseResult()
    unprivileged(tmp)
    r = random.Random(case["seed"])
    name = r.choice(["proj", "my project", "pr\u00f6j.d", "src", "out", "a"])
    state = r.choice(["absent", "nested", "empty", "parts", "parts", "parts", "project", "complete"])
    folder = os.path.join(tmp, "x", "y", name) if state == "nested" else os.path.join(tmp, name)
    page = "<!DOCTYPE html>\n<html>\n<head>\n<title>mine %d</title>\n</head>\n<body></body>\n</html>\n" % r.randrange(999)
    cfg = None
    have = []
    if state not in ("absent", "nested"):
        os.makedirs(folder)
    if state == "complete":
        command(["init", "--folder", folder])
    if state == "project":
        w = W.World({"seed": case["seed"], "n": 4}, tmp)
        folder = w.folder
        with open(f"{folder}/vanillaplusjs.json") as f:
            cfg = json.load(f)
    if state in ("parts", "complete"):
        have = sorted(r.sample(PARTS, r.randrange(1, 8)))
        for p in have:
            fp = os.path.join(folder, p)
            os.makedirs(fp if p.endswith("/") else os.path.dirname(fp), exist_ok=True)
            if p.endswith("/") or os.path.exists(fp):
                continue
            if p == "vanillaplusjs.json":
                cfg = P.default_config()
                cfg["host"] = r.choice(HOSTS)
                cfg["js_constants"]["shared"] = {"MINE": r.randrange(999)}
                cfg["mine"] = "custom"
                with open(fp, "w") as f:
                    json.dump(cfg, f, indent=r.choice([None, 2, 7]))
            else:
                with open(fp, "w") as f:
                    f.write(r.choice(["", "\n"]) if r.random() < .35 else {".html": page, ".css": ".a { color: red }\n", ".js": "// mine\n"}.get(os.path.splitext(p)[1], "mine\n"))
                R.key("existing", p, os.path.getsize(fp) > 1)
    if os.path.exists(f"{folder}/src") and r.random() < .2 and not os.path.exists(f"{folder}/src/elsewhere.txt"):
        # a link of the user
        with open(f"{tmp}/linked.txt", "w") as f:
            f.write("linked\n")
        os.symlink(f"{tmp}/linked.txt", f"{folder}/src/elsewhere.txt")
    with open(f"{tmp}/beside.txt", "w") as f:
        f.write("beside")
    host = r.choice(HOSTS)
    way = r.choice(["abs", "rel", "linked", "slash", "default"]) if os.path.isdir(folder) else r.choice(["abs", "rel", "slash"])
    cwd, arg = tmp, folder
    if way == "rel":
        os.makedirs(f"{tmp}/cwd", exist_ok=True)
        cwd = f"{tmp}/cwd"
        arg = os.path.relpath(folder, cwd)
    elif way == "default":
        cwd, arg = folder, None
    elif way == "linked":
        os.symlink(folder, f"{tmp}/lnk")
        arg = f"{tmp}/lnk"
    elif way == "slash":
        arg = os.path.relpath(folder, cwd) + "/"
    dump = {"state": state, "have": have, "way": way, "host": host, "name": name}
    before = snap(tmp)
    os.chdir(cwd)
    res, said = command(["init"] + (["--folder", arg] if arg else []) + (["--host", host] if host is not None else []))
    os.chdir(tmp)
    R.count("inits")
    R.key(state, have, way, host)
    R.expect(res == 0, "init-fails", f"init ended with {res}", **dump)
    if R.violations:
        return R
    after = snap(tmp)
    rel = os.path.relpath(folder, tmp)
    lost = [(p, before[p], after.get(p)) for p in before if before[p] != after.get(p)]
    R.expect(not lost, "changed-existing", f"{lost[:4]}", **dump)
    for p in NEEDED:
        R.expect(f"{rel}/{p}" in after and (after[f"{rel}/{p}"][0] == "d") == ("." not in p), "piece-missing", f"no {p}", **dump)
    odd = [p for p in set(after) - set(before) if not any((f"{rel}/{n}/").startswith(p + "/") for n in NEEDED)]
    R.expect(not odd, "unexpected", f"init made {odd[:5]}", **dump)
    R.count("existing_kept", len(before))
    R.count("pieces_made", len(set(after) - set(before)))
    with open(f"{folder}/vanillaplusjs.json") as f:
        got = json.load(f)
    if cfg is None and state != "complete":
        R.expect(got.get("host") == host, "wrong-host", f"host recorded as {got.get('host')!r}, given {host!r}", **dump)
    # again
    other = r.choice(HOSTS)
    res, _ = command(["init", "--folder", folder] + (["--host", other] if other is not None else []))
    again = snap(tmp)
    R.expect(res == 0 and again == after, "not-idempotent", f"second init: {res}, {W.diff_stat(after, again)}", **dump)
    # it builds, also with content of every kind
    for k in range(2):
        src = files_only(snap(f"{folder}/src"))
        for dev in r.sample([False, True], 2):
            try:
                P.build(folder, dev=dev, symlinks=r.random() < .5)
            except P.BuildFailed as e:
                R.fail("does-not-build", f"building ({'with pictures, ' if k else ''}dev={dev}): {e}", **dump)
                return R
            R.count("builds")
        out = P.tree(f"{folder}/out/www")
        for p in src:
            if p.startswith("public/"):
                R.expect(p[7:] in out and p[7:] + ".hash" in out, "not-served", f"{p} is not served after building", **dump)
        if k or state == "project" or r.random() < .6:
            break
        a, b = picture(r, f"{folder}/src/public/img/zz.png")
        with open(f"{folder}/src/public/zz.html", "w") as f:
            f.write(page.replace("<body>", f'<body><!--[IMAGE: /img/zz.png {a // 2} {b // 2} cover {{}} lazy]-->'))
    R.sample(dump)
    return R
