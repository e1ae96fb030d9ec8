"""Builds the same sources in many different circumstances and compares the served bytes."""
import os, random, shutil, subprocess, sys
from common import CaseResult, REPO
import project as P, world as W, vpmon

PROPERTY = "C05"
TECHNIQUE = "runtime monitoring: differential comparison of builds under varied schedules (injected delays), listing orders, places, hash seeds, links"
RULE = ("random projects built from scratch 6-9 times each: 1/2/8 workers, delays injected at scan and build steps, shuffled directory listing and "
        "creation order, other location and name, other working folder and relative folder argument, other timestamps, fresh interpreters with other "
        "hash seeds, links on and off; all served files and artifacts must be byte-identical. Distinct by (variation, kinds in project)")


def cases(tier, rng):
    n = 60 if tier == "quick" else 1000
    return [{"seed": rng.randrange(1 << 60), "n": rng.choice([4, 8, 14, 22]), "dev": rng.random() < .3} for _ in range(n)]


def materialise(dst, snap, cfgsrc, rng):
    os.makedirs(os.path.join(dst, "src/public"))
    items = list(snap.items())
    rng.shuffle(items)
    for p, b in items:
        fp = os.path.join(dst, p)
        os.makedirs(os.path.dirname(fp), exist_ok=True)
        with open(fp, "wb") as f:
            f.write(b)
        t = rng.randrange(10**9, 2 * 10**9)
        os.utime(fp, (t, t))
    shutil.copy(cfgsrc, os.path.join(dst, "vanillaplusjs.json"))


def fresh(folder, dev, symlinks, hashseed, cwd):
    code = ("import sys; sys.path.insert(0, sys.argv[1]); sys.dont_write_bytecode = True\n"
            "from loguru import logger; logger.remove()\n"
            "import vanillaplusjs.main as m; sys.argv = ['vanillaplusjs'] + sys.argv[2:]; m.main()")
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    env.pop("VANILLAPLUSJS_MONITOR", None)
    r = subprocess.run([sys.executable, "-c", code, REPO, "build", "--folder", folder, "--symlinks" if symlinks else "--no-symlinks"]
                       + (["--dev"] if dev else []), env=env, cwd=cwd, capture_output=True, text=True, timeout=100)
    if r.returncode:
        raise P.BuildFailed(f"exit {r.returncode}: {r.stderr[-500:]}")


def run_case(case, tmp):
    R = CaseResult()
    rng = random.Random(case["seed"])
    proj = P.Project(rng, case["n"])
    snap = proj.snapshot()
    cfg = os.path.join(tmp, "cfg")
    os.makedirs(cfg)
    P.write_config(cfg, proj)
    cfg = os.path.join(cfg, "vanillaplusjs.json")
    base = None
    variants = ["plain", "delay", "delay", "shuffle", "links", "cwd", "rel", "seed0", "seedN"]
    real_walk, real_listdir = os.walk, os.listdir
    for i, v in enumerate(variants):
        dst = os.path.join(tmp, f"v{i}" if v != "rel" else "other place é/x", "p" if i % 2 else "some project")
        materialise(dst, snap, cfg, rng)
        here = os.getcwd()
        seed = rng.randrange(1 << 30)
        try:
            if v == "delay":
                vpmon.start(delay=W.jitter(seed, ("scan", "build", "scan-end", "build-end"), .03), root=dst)
                P.build(dst, dev=case["dev"], workers=rng.choice([2, 4, 8]))
            elif v == "shuffle":
                r2 = random.Random(seed)

                def walk(top, *a, **k):
                    for d, ds, fs in real_walk(top, *a, **k):
                        r2.shuffle(ds)
                        r2.shuffle(fs)
                        yield d, ds, fs
                os.walk = walk
                os.listdir = lambda *a: r2.sample(x := real_listdir(*a), len(x))
                P.build(dst, dev=case["dev"], workers=rng.choice([1, 8]))
            elif v == "links":
                P.build(dst, dev=case["dev"], symlinks=True)
            elif v == "cwd":
                os.chdir(os.path.join(dst, "src/public"))
                P.build(dst, dev=case["dev"])
            elif v == "rel":
                os.chdir(dst)
                P.build(rng.choice([".", "src/..", "./"]), dev=case["dev"])
            elif v == "seed0":
                fresh(dst, case["dev"], False, 0, tmp)
            elif v == "seedN":
                fresh(dst, case["dev"], rng.random() < .5, rng.randrange(1, 1 << 31), tmp)
            else:
                P.build(dst, dev=case["dev"], workers=1)
        except P.BuildFailed as e:
            R.fail("build-fails-" + v, f"building a valid project ({v}) raises {e}")
            break
        finally:
            vpmon.stop()
            os.walk, os.listdir = real_walk, real_listdir
            os.chdir(here)
        t = {**P.tree(os.path.join(dst, "out/www")), **{"artifacts/" + p: b for p, b in P.tree(os.path.join(dst, "artifacts")).items()}}
        if base is None:
            base = t
        d = P.diff_trees(base, t)
        R.expect(not d, "not-reproducible", f"[{v}] the served files differ from the first build: " + "; ".join(d), variant=v)
        R.count("builds")
        R.count("files_compared", len(t))
        R.count("variant_" + v)
        R.key(v, sorted((n.kind, len(n.refs)) for n in proj.nodes.values()))
        if d:
            break
        shutil.rmtree(os.path.join(dst))
    R.sample({"case": case, "files": sorted(snap)[:8], "variants": variants})
    return R
