"""Builds a planted bug from a specification, checking that it counts.

usage: seed.py SPEC.py...    (each SPEC defines ID, PROPERTY, NEEDS, BREAKS,
                              EDITS = [(path, old, new)], DEMO = python source)
       seed.py --verify [ID...]  re-checks what is in /verif/seeded
       seed.py --catch ID [CHECK...]  runs checks against a copy with the bug
"""
import json, os, runpy, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"
BASE = "82658c3"


def copy():
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    repo = os.path.join(tmp, "r")
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
    return tmp, repo


def demo(repo, folder):
    with tempfile.TemporaryDirectory(prefix="demo-") as d:
        f = os.path.join(d, "x")
        shutil.copytree(folder, f, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        p = subprocess.run(["bash", os.path.join(f, "demo.sh")], cwd=repo, capture_output=True, text=True, timeout=300,
                           env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"})
        return p


def tests(repo, tmp):
    """do the stable tests pass?"""
    env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1"}
    p = subprocess.run([PY, "-m", "pytest", "-q", "-rA", "-p", "no:cacheprovider", "--ignore=tests/test_build_feat_external_files.py", "tests"], cwd=repo, capture_output=True, text=True, env=env, timeout=120)
    passed = set(l.split()[1].replace("::", ".").replace("/", ".").replace(".py", "") for l in p.stdout.splitlines() if l.startswith("PASSED"))
    stable = set(t.replace("::", ".").replace("/", ".").replace(".py", "") for t in json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return not stable - passed, sorted(stable - passed)[:5]


def original_lines(repo, path, patch):
    """are all the lines the patch removes (or, if none, those around it) original?"""
    blame = subprocess.run(["git", "-C", repo, "blame", "-s", "-l", "HEAD", "--", path], capture_output=True, text=True).stdout.splitlines()
    base = subprocess.run(["git", "-C", repo, "rev-parse", BASE], capture_output=True, text=True).stdout.strip()
    return [b.lstrip("^")[: len(base) - 1] == base[: len(base) - 1] for b in blame]


def verify(bug, run_tests=True):
    folder = os.path.join(SEEDED, bug)
    tmp, repo = copy()
    try:
        p = demo(repo, folder)
        if p.returncode != 0:
            return f"demo fails on the unchanged tree: {p.stdout[-800:]} {p.stderr[-1500:]}"
        a = subprocess.run(["git", "-C", repo, "apply", os.path.join(folder, "patch.diff")], capture_output=True, text=True)
        if a.returncode:
            return f"does not apply: {a.stderr}"
        p = demo(repo, folder)
        if p.returncode == 0:
            return "demo passes with the bug"
        msg = (p.stdout + p.stderr)[-300:]
        if run_tests:
            ok, out = tests(repo, tmp)
            if not ok:
                return f"tests fail: {out}"
        # removed lines must be original
        diff = subprocess.run(["git", "-C", repo, "diff", "-U0"], capture_output=True, text=True, errors="replace").stdout
        path, orig, n_orig, n_removed = None, None, 0, 0
        import re
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                path = line[6:].strip(); orig = original_lines(repo, path, diff)
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
            if m:
                start, n = int(m[1]), int(m[2] if m[2] is not None else 1)
                for i in range(start, start + n):
                    n_removed += 1; n_orig += orig[i - 1]
        return f"OK removed={n_removed} original={n_orig} demo says: {msg.strip().splitlines()[-1] if msg.strip() else ''}"
    finally:
        shutil.rmtree(tmp)


def make(spec):
    s = runpy.run_path(spec)
    folder = os.path.join(SEEDED, s["ID"])
    os.makedirs(folder, exist_ok=True)
    tmp, repo = copy()
    try:
        for path, old, new in s["EDITS"]:
            full = os.path.join(repo, path)
            text = open(full, newline="", encoding="utf-8").read()
            crlf = "\r\n" in text
            text = text.replace("\r\n", "\n")
            assert text.count(old) == 1, (path, old, text.count(old))
            text = text.replace(old, new)
            if crlf:
                text = text.replace("\n", "\r\n")
            open(full, "w", newline="", encoding="utf-8").write(text)
        d = subprocess.run(["git", "-C", repo, "diff"], capture_output=True).stdout
        open(os.path.join(folder, "patch.diff"), "wb").write(d)
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(folder, "demo.py"), "w").write(s["DEMO"].lstrip("\n"))
    open(os.path.join(folder, "demo.sh"), "w").write('#!/bin/sh\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
              open(os.path.join(folder, "meta.json"), "w"), indent=1)
    return verify(s["ID"])


def catch(bug, checks):
    tmp, repo = copy()
    try:
        subprocess.run(["git", "-C", repo, "apply", os.path.join(SEEDED, bug, "patch.diff")], check=True)
        for c in checks or [json.load(open(os.path.join(SEEDED, bug, "meta.json")))["property"]]:
            t = time.time()
            p = subprocess.run(["sh", "check.sh", c], cwd=VERIF, capture_output=True, text=True,
                               env={"VERIF_SEED": "1", "VERIF_TIER": "quick", **os.environ, "VPJS_REPO": repo})
            v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
            print(bug, c, "exit", p.returncode, f"{time.time()-t:.0f}s", v[:1] or p.stdout[-300:] + p.stderr[-300:], flush=True)
    finally:
        shutil.rmtree(tmp)


def main():
    if sys.argv[1] == "--verify":
        for b in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            print(b, verify(b), flush=True)
    elif sys.argv[1] == "--catch":
        catch(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == "--catch-all":
        for b in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            catch(b, [])
    else:
        for spec in sys.argv[1:]:
            print(spec, make(spec), flush=True)


if __name__ == "__main__":
    main()
