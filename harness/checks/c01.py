"""C01: incremental == clean, over edit histories."""
import os, pickle, random
from common import CaseResult
import project as P
import vpmon

PROPERTY = "C01"
RULE = ("random mixed HTML/CSS/JS/partial/icon/static projects (4-24 files); histories of 1-10 batches of 1-4 edits "
        "(content, references, add, delete, rename, touch, file<->folder, variables) with mode flips; after each successful build the "
        "served tree is compared byte for byte with a from-scratch build of a copy. In some steps more edits are made while the build "
        "runs, at a chosen scan or build step; that build may do anything, and it is the next one which is compared. A step is non-trivial if the edit changed at "
        "least one served file; distinct by (edit kinds, kinds of changed files)")


def cases(tier, rng):
    n = 90 if tier == "quick" else 1600
    return [{"seed": rng.randrange(1 << 60), "images": rng.random() < .2, "n": rng.choice([4, 7, 10, 16, 24]), "steps": rng.choice([2, 4, 6, 10]),
             "symlinks": rng.random() < .3, "flip": rng.random() < .4, "mid": rng.random() < .4} for _ in range(n)]


def edited_during(folder, tmp, disk, snap, at, phase, **kw):
    """Builds while one of the workers, at the at-th step, makes the sources equal to snap. Returns (whether that happened, failure)."""
    count, state = os.path.join(tmp, "mid.count"), os.path.join(tmp, "mid.state")
    for f in (count, state):
        if os.path.exists(f):
            os.remove(f)

    def step(kind, rel):
        if kind.startswith(phase):
            fd = os.open(count, os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o600)
            try:
                # whichever call makes the file this long is the one: writes which append do not overlap
                os.write(fd, b"x")
                n = os.lseek(fd, 0, os.SEEK_END)
            finally:
                os.close(fd)
            if n >= at:
                try:
                    os.close(os.open(state, os.O_CREAT | os.O_EXCL | os.O_WRONLY, 0o600))
                except FileExistsError:
                    return 0
                disk.sync(snap)
                with open(state + "~", "wb") as f:
                    pickle.dump((disk.have, disk.clock, disk.stamps, disk.replaced), f)
                os.replace(state + "~", state)
        return 0
    failure = None
    vpmon.start(root=folder, delay=step)
    try:
        P.build(folder, **kw)
    except P.BuildFailed as e:
        failure = str(e)
    finally:
        vpmon.stop()
    if os.path.exists(state):
        with open(state, "rb") as f:
            disk.have, disk.clock, disk.stamps, disk.replaced = pickle.load(f)
        return True, failure
    return False, failure


def run_case(case, tmp):
    R = CaseResult()
    rng = random.Random(case["seed"])
    proj = P.Project(rng, case["n"], P.DEFAULT | {"image"} if case["images"] else None)
    folder = os.path.join(tmp, "proj")
    disk = P.Disk(folder)
    P.write_config(folder, proj)
    disk.sync(proj.snapshot())
    dev = False
    history = ["initial"]
    prev = None
    for step in range(case["steps"] + 1):
        if step:
            edits, touch = [], []
            for _ in range(rng.randrange(1, 5)):
                e = proj.edit()
                edits.append(e)
                if e.startswith("touch "):
                    touch.append(e[6:])
            ops = disk.sync(proj.snapshot(), touch)
            if case["flip"] and rng.random() < .4:
                dev = not dev
                edits.append("dev" if dev else "prod")
            history.append(edits)
        if case.get("mid") and rng.random() < .6:
            extra = [proj.edit() for _ in range(rng.randrange(1, 4))]
            history.append(["during the build", *extra])
            phase = rng.choice(["scan", "build", "build", "build-end"])
            happened, failure = edited_during(folder, tmp, disk, proj.snapshot(), rng.randrange(1, 8), phase, dev=dev, symlinks=case["symlinks"],
                                              workers=rng.choice([1, 2, 8]))
            R.count("builds_with_edits_during" if happened else "builds_too_short")
            if happened:
                R.count("interrupted_builds_which_failed" if failure else "interrupted_builds_which_succeeded")
            elif failure:
                R.fail("incremental-build-fails", f"build raises {failure}", history=history)
                break
            else:
                disk.sync(proj.snapshot())
        try:
            P.build(folder, dev=dev, symlinks=case["symlinks"], workers=rng.choice([1, 2, 8]))
        except P.BuildFailed as e:
            # is it the incremental build or the project?
            try:
                P.clean_build_tree(folder, tmp, dev, case["symlinks"])
                R.fail("incremental-build-fails", f"clean build works, incremental build raises {e}", history=history)
            except P.BuildFailed as e2:
                R.fail("valid-project-fails", f"clean build of a valid project raises {e2}", history=history[-1:])
            break
        try:
            c = P.clean_build_tree(folder, tmp, dev, case["symlinks"])
        except P.BuildFailed as e2:
            R.fail("valid-project-fails", f"clean build of a valid project raises {e2}", history=history[-1:])
            break
        a = P.tree(os.path.join(folder, "out/www"))
        b = P.tree(os.path.join(c, "out/www"))
        d = P.diff_trees(a, b)
        R.expect(not d, "stale-or-missing-output", "after incremental build the served files differ from a clean build: " + "; ".join(d),
                 history=history)
        R.count("builds")
        R.count("files_compared", len(b))
        if prev is not None and a != prev:
            changed = sorted({os.path.splitext(p.replace(".hash", ""))[1] for p in set(a) | set(prev) if a.get(p) != prev.get(p)})
            R.key(sorted({str(e).split()[0] for e in history[-1]}), changed)
            R.count("nontrivial_steps")
        prev = a
        if d:
            break
    R.sample({"case": case, "history": history[:4], "files": sorted(proj.nodes)[:12]})
    return R
