"""Repeats builds without changes after histories of edits; a file system monitor compares identity, times and bytes of every file."""
import os
from common import CaseResult
import project as P, world as W

PROPERTY = "C02"
TECHNIQUE = "runtime monitoring: stat/content snapshots and step/mutation trace of no-op builds over random histories"
RULE = ("random projects and histories; after a successful build the same build is repeated 1-3 times with other worker counts, other "
        "working folder and other spelling of the project folder; every path below out, artifacts and src must keep inode, mtime_ns, "
        "size, link target and bytes and no build or scan step may run. Distinct by (kinds of files in the project, edits before)")
ASSUMPTIONS = ["the directory entry times of out/ itself are included, so even temporary files there would be noticed"]


def cases(tier, rng):
    n = 90 if tier == "quick" else 1500
    return [{"seed": rng.randrange(1 << 60), "images": rng.random() < .3, "n": rng.choice([2, 5, 9, 16]), "steps": rng.choice([0, 1, 2, 4]),
             "symlinks": rng.random() < .4, "flip": rng.random() < .4} for _ in range(n)]


def run_case(case, tmp):
    R = CaseResult()
    w = W.World(case, tmp)
    subs = ["out", "artifacts", "src", "vanillaplusjs.json"]
    other = os.path.join(tmp, "cwd")
    os.makedirs(other)
    for step in range(case["steps"] + 1):
        if step:
            w.edit(flip=.4 if case["flip"] else 0)
        try:
            w.build()
        except P.BuildFailed as e:
            w.failed(R, e)
            break
        before = W.stat_tree(w.folder, subs)
        for rep in range(w.rng.randrange(1, 4)):
            how = w.rng.choice(["same", "cwd", "rel", "slash"])
            old, cwd = w.folder, os.getcwd()
            try:
                if how == "cwd":
                    os.chdir(other)
                elif how == "rel":
                    os.chdir(os.path.dirname(old))
                    w.folder = "proj"
                elif how == "slash":
                    w.folder = old + "/"
                ev = w.build(monitor=True)
            except P.BuildFailed as e:
                R.fail("noop-build-fails", f"building again without changes raises {e}", history=w.history, how=how)
                return R
            finally:
                w.folder = old
                os.chdir(cwd)
            after = W.stat_tree(old, subs)
            d = W.diff_stat(before, after)
            R.expect(not d, "noop-build-changes-files", "building again without changes altered: " + "; ".join(d), history=w.history, how=how)
            steps = [s for s in W.steps_of(ev)]
            R.expect(not steps, "noop-build-runs-steps", f"building again without changes ran {[(s['kind'], s['f']) for s in steps][:5]}", history=w.history)
            R.count("noop_builds")
            R.count("paths_compared", len(before))
            R.key(sorted({n.kind for n in w.proj.nodes.values()}), str(w.history[-1])[:200], how)
            if d:
                return R
    R.sample({"case": case, "history": w.history[:3], "paths": len(before)})
    return R
