"""The sources, before and after every kind of build, and every write observed during it."""
import json, os, random, shutil
from common import CaseResult
import project as P, world as W
from checks.c08 import inject, revert, FAULTS
from checks.c31 import picture

PROPERTY = "C34"
TECHNIQUE = "runtime monitoring: complete snapshots of the sources and configuration (bytes, identity, times, permissions, folders) around every real build, and an audit-hook log of every file system change during it; oracle: nothing below src/ or in the configuration changes except allowed placeholders"
RULE = ("random projects and histories in both modes, with links or copies or automatic choice, run from folders including the source folder itself, building successfully or failing because of faulty sources; with image lists with and without placeholders, "
        "sources named like generated files and like sidecars, sources that are links, read-only or executable, files that turn from plain into generated ones and back, and edits while out/ still links to the old ones. Distinct by (mode, links, folder, situation, outcome)")
ASSUMPTIONS = ["configured external files are the concern of C29"]


def cases(tier, rng):
    return [{"seed": rng.randrange(1 << 60), "images": rng.random() < .3, "n": rng.choice([2, 5, 9]), "steps": 5} for _ in range(90 if tier == "quick" else 900)]


def snap(folder):
    res = {}
    for top in ("src", "vanillaplusjs.json"):
        stack = [os.path.join(folder, top)]
        while stack:
            p = stack.pop()
            st = os.lstat(p)
            rel = os.path.relpath(p, folder)
            base = (st.st_mode, st.st_ino, st.st_mtime_ns, st.st_uid)
            if os.path.islink(p):
                res[rel] = base + (os.readlink(p),)
            elif os.path.isdir(p):
                res[rel] = base
                stack += [os.path.join(p, x) for x in os.listdir(p)]
            else:
                with open(p, "rb") as f:
                    res[rel] = base + (f.read(),)
    return res


def run_case(case, tmp):
    import vanillaplusjs.runners.build as B
    R = CaseResult()
    w = W.World(case, tmp)
    r, folder = w.rng, w.folder
    allowed = set()
    auto = r.random() < .7
    with open(f"{folder}/vanillaplusjs.json") as f:
        cfg = json.load(f)
    cfg["auto_generate_images_js_placeholders"] = auto
    with open(f"{folder}/vanillaplusjs.json", "w") as f:
        json.dump(cfg, f)
    undo, extra = [], []
    serial = 0
    for step in range(case["steps"]):
        situation = "first"
        if step:
            situation = r.choice(["edit", "edit", "fault", "fault", "collide", "collide", "collide", "sidecar", "images", "links", "modes", "nothing", "swap"])
            for fp, old in reversed(extra):
                if os.path.lexists(fp):
                    os.remove(fp)
                if old is not None:
                    with open(fp, "wb") as f:
                        f.write(old)
            extra = []
            if undo:
                revert(w, undo)
                undo = []
            if situation == "edit":
                w.edit(flip=.3)
            elif situation == "fault":
                w.edit()
                undo = inject(r, w, r.choice(FAULTS), step)
            elif situation in ("collide", "sidecar"):
                made = []
                top = f"{folder}/out/www"
                for d, _, fs in os.walk(top):
                    for x in fs:
                        p = os.path.relpath(os.path.join(d, x), top)
                        if not os.path.exists(f"{folder}/src/public/{p}") and p.endswith(".hash") == (situation == "sidecar"):
                            made.append(p)
                for p in r.sample(sorted(made), min(len(made), r.choice([1, 2, 4]))):
                    fp = f"{folder}/src/public/{p}"
                    os.makedirs(os.path.dirname(fp), exist_ok=True)
                    with open(fp, "wb") as f:
                        f.write(b"/* the user's own %d */\n" % step)
                    extra.append((fp, None))
                if r.random() < .3:
                    w.edit()
            elif situation == "images":
                serial += 1
                a, b = picture(r, f"{folder}/src/public/img/pic{serial}.png")
                where = r.choice(["", "a/"]) + f"list{serial}"
                os.makedirs(f"{folder}/src/public/a", exist_ok=True)
                with open(f"{folder}/src/public/{where}.images.json", "w") as f:
                    json.dump({"one": {"path": f"/img/pic{serial}.png", "width": a // 2, "height": b // 2}}, f)
                if r.random() < .4:
                    with open(f"{folder}/src/public/{where}.images.js", "w") as f:
                        f.write("// mine\nexport default {};\n")
                elif auto:
                    allowed.add(f"src/public/{where}.images.js")
            elif situation == "links":
                fp = f"{folder}/src/public/link{step}" + r.choice([".txt", ".js", ".css"])
                with open(f"{tmp}/outside{step}", "w") as f:
                    f.write("/* outside */\n")
                os.symlink(r.choice([f"{tmp}/outside{step}", f"../../../outside{step}"]), fp)
                extra.append((fp, None))
            elif situation == "modes":
                for p in w.proj.nodes:
                    os.chmod(f"{folder}/{p}", r.choice([0o644, 0o444, 0o755, 0o600]))
            elif situation == "swap":
                # a plain file becomes a processed one, or the reverse, under the same name
                plain = [p for p, n in w.proj.nodes.items() if n.kind == "static"]
                if plain:
                    p = r.choice(sorted(plain))
                    q = p + r.choice([".css", ".js", ".html", ".hash", ".images.json"])
                    with open(f"{folder}/{q}", "wb") as f:
                        f.write(b"{}" if q.endswith("json") else b"/* x */\n")
                    extra.append((f"{folder}/{q}", None))
                    if q.endswith(".images.json") and auto:
                        allowed.add(q[:-2])
        dev = r.random() < .5
        links = r.choice([True, True, False, None])
        cwd = r.choice([tmp, folder, f"{folder}/src", f"{folder}/src/public", f"{folder}/src/public"])
        arg = folder if r.random() < .6 else os.path.relpath(folder, cwd)
        before = snap(folder)
        outside = W.stat_tree(tmp, [f"outside{i}" for i in range(6)])
        t = os.path.join(tmp, f"trace{step}")
        os.chdir(cwd)
        import vpmon
        vpmon.start(trace=t, root=folder)
        outcome = "ok"
        try:
            B.build(arg, dev=dev, symlinks=links, delay_files=[])
        except (Exception, SystemExit) as e:
            outcome = f"{type(e).__name__}: {e}"[:200]
        finally:
            vpmon.stop()
            os.chdir(tmp)
        events = vpmon.read_trace(t)
        shutil.rmtree(t)
        after = snap(folder)
        dump = {"situation": situation, "dev": dev, "links": links, "cwd": os.path.relpath(cwd, tmp), "outcome": outcome, "extra": [os.path.relpath(a, folder) for a, _ in extra]}
        R.count("builds")
        R.count("failed_builds", outcome != "ok")
        R.key(situation, dev, links, os.path.relpath(cwd, tmp), outcome[:20])
        if auto:
            allowed |= {p[:-4] + "js" for p, n in w.proj.nodes.items() if n.kind == "list"}
        new = set(after) - set(before)
        R.count("placeholders", len(new & allowed))
        R.expect(new <= allowed, "created", f"created {sorted(new - allowed)[:4]}", **dump)
        R.expect(set(before) <= set(after), "removed", f"removed {sorted(set(before) - set(after))[:4]}", **dump)
        touched = {os.path.dirname(p) for p in new}
        bad = [p for p in before if p in after and before[p] != after[p] and p not in touched]
        R.expect(not bad, "changed", "; ".join(f"{p}: {str(before[p])[:200]} -> {str(after[p])[:200]}" for p in bad[:3]), **dump)
        now = W.stat_tree(tmp, [f"outside{i}" for i in range(6)])
        R.expect(now == outside, "changed-linked", f"{W.diff_stat(outside, now)}", **dump)
        R.count("sources_compared", len(before))
        wrote = sorted({x for e in events if e["e"] == "io" and e["op"] != "r" for x in ((e.get("f"), e.get("f2")) if e["op"] == "mv" else (e.get("f2"),) if e["op"] == "ln" else (e.get("f"),))
                        if x and (x == "src" or x.startswith("src/") or x == "vanillaplusjs.json") and x not in allowed
                        and not (e["op"] == "mkdir" and os.path.isdir(f"{folder}/{x}"))})
        R.count("changes_logged", sum(1 for e in events if e["e"] == "io" and e["op"] != "r"))
        R.expect(not wrote, "wrote-below-src", f"the build changed {wrote[:5]} (maybe for a moment)", **dump)
        if R.violations:
            break
    R.sample({"history": w.history[:3]})
    return R


def finalize(results, tier, counters):
    return [] if counters.get("changes_logged", 0) > 1000 and counters.get("failed_builds", 0) > 20 else ["too little observed"]
