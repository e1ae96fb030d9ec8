"""Shared machinery of the checks: case isolation, verdicts, known findings, evidence.

A check module defines
    PROPERTY  id
    RULE      how cases are made and what makes one non-trivial (goes to the evidence)
    LEVEL     evidence level
    cases(tier, rng) -> list of JSON-able case descriptions
    run_case(case, tmp) -> CaseResult       (runs in its own forked process group)
and optionally
    TIMEOUT   seconds per case (generous watchdog)
    finalize(results, tier) -> list of strings: reasons why the run is inconclusive
"""
from __future__ import annotations
import hashlib, importlib, json, os, pickle, random, shutil, signal, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VPJS_REPO", "/repo")


class CaseResult:
    """What one case observed."""

    def __init__(self):
        self.evals = 0            # oracle evaluations / executions
        self.keys = set()         # distinct non-trivial situations seen
        self.counters = {}        # name -> count, measured
        self.samples = []         # written-out cases
        self.violations = []      # {"key": mechanism, "msg": ..., "witness": ...}
        self.inconclusive = []

    def eval(self, n=1):
        self.evals += n

    def key(self, *parts):
        self.keys.add(hashlib.sha1(repr(parts).encode("utf-8", "surrogatepass")).hexdigest()[:16])

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def fail(self, key, msg, **witness):
        if len(self.violations) < 20:
            self.violations.append({"key": key, "msg": str(msg)[:4000], "witness": witness})

    def expect(self, cond, key, msg, **witness):
        self.evals += 1
        if not cond:
            self.fail(key, msg, **witness)
        return cond


def trunc(obj, n=3000):
    s = json.dumps(obj, default=lambda o: repr(o), ensure_ascii=True)
    if len(s) <= n:
        return json.loads(s)
    return s[:n] + "..."


# ---------------------------------------------------------------- known findings

def load_findings(pid):
    """Lines `finding: property=C12 key=<mechanism> <what fails>`; `fixed:` lines suppress nothing."""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("finding: "):
                continue
            rest = line[len("finding: "):]
            parts = rest.split(" ", 2)
            if parts[0] == f"property={pid}" and parts[1].startswith("key="):
                res[parts[1][4:]] = parts[2] if len(parts) > 2 else ""
    return res


# ---------------------------------------------------------------- case isolation

def _case_child(mod, case, base, wfd):
    os.setsid()
    tmp = tempfile.mkdtemp(prefix="c_", dir=base)
    try:
        os.chdir(tmp)
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 0)
        os.dup2(dn, 1)
        if not os.environ.get("VPJS_DEBUG"):
            os.dup2(dn, 2)
        try:
            res = mod.run_case(case, tmp)
            out = ("ok", res)
        except BaseException:  # noqa: a harness error, reported as such
            out = ("error", traceback.format_exc())
        data = pickle.dumps(out)
        view = memoryview(data)
        while view:
            n = os.write(wfd, view)
            view = view[n:]
        os.close(wfd)
    finally:
        os._exit(0)


def _run_isolated(mod, case, base, timeout):
    """Runs one case in its own process group; returns ('ok', CaseResult) | ('timeout',) | ('error', tb)"""
    import select
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        _case_child(mod, case, base, wfd)
    os.close(wfd)
    chunks = []
    deadline = time.monotonic() + timeout
    out = None
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                out = ("timeout", f"case exceeded {timeout}s")
                break
            r, _, _ = select.select([rfd], [], [], min(left, 5))
            if r:
                b = os.read(rfd, 1 << 20)
                if not b:
                    break
                chunks.append(b)
    finally:
        os.close(rfd)
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(pid, 0)
    if out is None:
        try:
            out = pickle.loads(b"".join(chunks))
        except Exception as e:
            out = ("error", f"case process died without a result: {e!r}")
    return out


def run_cases(mod, cases, base, timeout, nproc):
    """Runs the cases over nproc workers; returns the list of outcomes by case index."""
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    counter = ctx.Value("i", 0)
    hung = ctx.Value("i", 0)
    conns = []
    procs = []
    for _ in range(min(nproc, max(1, len(cases)))):
        r, w = ctx.Pipe(False)

        def work(w=w):
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            while True:
                with counter.get_lock():
                    i = counter.value
                    counter.value += 1
                if i >= len(cases):
                    break
                if hung.value >= 6:
                    # enough of them to judge; the rest would take forever
                    w.send((i, ("skipped",), 0.0))
                    continue
                cbase = tempfile.mkdtemp(prefix=f"k{i}_", dir=base)
                t0 = time.monotonic()
                out = _run_isolated(mod, cases[i], cbase, timeout)
                shutil.rmtree(cbase, ignore_errors=True)
                if out[0] == "timeout":
                    with hung.get_lock():
                        hung.value += 1
                w.send((i, out, time.monotonic() - t0))
            w.send(None)
            w.close()

        p = ctx.Process(target=work)
        p.start()
        w.close()
        procs.append(p)
        conns.append(r)
    outcomes = [("error", "not run")] * len(cases)
    from multiprocessing.connection import wait
    live = list(conns)
    while live:
        for c in wait(live):
            try:
                msg = c.recv()
            except EOFError:
                live.remove(c)
                continue
            if msg is None:
                live.remove(c)
                continue
            i, out, dt = msg
            outcomes[i] = out + (dt,)
    for p in procs:
        p.join()
    return outcomes


# ---------------------------------------------------------------- importing the code under test

def setup_imports(pycache):
    """Imports third-party packages with their caches, then the code under test from REPO with a
    private bytecode cache, so that a stale .pyc never stands in for a changed file."""
    import html5lib, PIL.Image, requests, loguru, asyncio, concurrent.futures.process  # noqa
    sys.path.insert(0, REPO)
    sys.pycache_prefix = pycache
    import warnings
    warnings.simplefilter("ignore")
    from loguru import logger
    if not os.environ.get("VPJS_DEBUG"):
        logger.remove()
    import vanillaplusjs.runners.build
    import vanillaplusjs.runners.init
    import vanillaplusjs.runners.clean
    where = os.path.dirname(os.path.abspath(vanillaplusjs.runners.build.__file__))
    assert where == os.path.join(REPO, "vanillaplusjs", "runners"), where


# ---------------------------------------------------------------- main

def main(pid, argv):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    if "--replay" in argv:
        replay = argv[argv.index("--replay") + 1]
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    base = tempfile.mkdtemp(prefix=f"vpv_{pid}_")
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    try:
        setup_imports(os.path.join(base, "pyc"))
        mod = importlib.import_module(f"checks.{pid.lower()}")
        if hasattr(mod, "setup"):
            mod.setup(base)
        if replay:
            cases = [json.load(open(replay))["case"]]
        else:
            cases = mod.cases(tier, random.Random(f"{pid}:{seed}"))
        timeout = getattr(mod, "TIMEOUT", 120)
        nproc = int(os.environ.get("VPJS_NPROC", getattr(mod, "NPROC", 8)))
        outcomes = run_cases(mod, cases, base, timeout, nproc)
        return report(mod, pid, tier, seed, cases, outcomes, t0, replay, base, timeout)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def report(mod, pid, tier, seed, cases, outcomes, t0, replay, base, timeout):
    findings = load_findings(pid)
    evals, keys, counters, samples, viols, inconc, errors = 0, set(), {}, [], [], [], []
    results = []
    confirmed_hang = False
    for i, out in enumerate(outcomes):
        if out[0] == "skipped":
            inconc.append(f"case {i} not run")
            continue
        if out[0] == "timeout":
            if confirmed_hang:
                continue
            # a hang is a violation only if it repeats, alone on the machine
            cbase = tempfile.mkdtemp(prefix="r_", dir=base)
            out2 = _run_isolated(mod, cases[i], cbase, timeout)
            shutil.rmtree(cbase, ignore_errors=True)
            if out2[0] == "timeout":
                confirmed_hang = True
                if getattr(mod, "HANG_IS_VIOLATION", True):
                    viols.append((i, {"key": "hang", "msg": f"no result within {timeout}s, twice (normal cases take {sum(o[-1] for o in outcomes if o[0]=='ok')/max(1,len(outcomes)):.2f}s)", "witness": {}}))
                else:
                    inconc.append(f"case {i} timed out")
                continue
            out = out2 + (0.0,)
        if out[0] == "error":
            errors.append((i, out[1]))
            continue
        r = out[1]
        results.append(r)
        evals += r.evals
        keys |= r.keys
        for k, v in r.counters.items():
            counters[k] = counters.get(k, 0) + v
        if len(samples) < 6:
            for s in r.samples[:1]:
                samples.append(trunc(s))
        viols += [(i, v) for v in r.violations]
        inconc += [f"case {i}: {x}" for x in r.inconclusive]
    rc = 0
    seen_known = {}
    fresh = []
    for i, v in viols:
        if v["key"] in findings:
            seen_known.setdefault(v["key"], (i, v))
        else:
            fresh.append((i, v))
    for key in findings:
        if key in seen_known:
            print(f"KNOWN-FINDING: property={pid} {findings[key]} [{key}]")
    if not replay:
        for key in findings:
            if key not in seen_known:
                print(f"note: known finding not reproduced in this run: {key}")
    rdir = os.path.join(VERIF, "replays")
    printed = set()
    for i, v in fresh:
        if v["key"] in printed and not replay:
            continue
        if len(printed) >= 8:
            break
        printed.add(v["key"])
        os.makedirs(rdir, exist_ok=True)
        safe = "".join(c if c.isalnum() else "_" for c in v["key"])[:60]
        path = os.path.join(rdir, f"{pid}-{safe}-{i}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, "tier": tier, "case": cases[i], "violation": v}, f, indent=1, default=repr)
        print(f"violation [{v['key']}]: {v['msg'][:1500]}")
        if v["witness"]:
            print("  witness:", json.dumps(v["witness"], default=repr)[:1500])
        print(f"VIOLATION property={pid} replay={os.path.relpath(path, VERIF)}")
        rc = 1
    if hasattr(mod, "finalize") and not replay:
        inconc += mod.finalize(results, tier, counters) or []
    if evals == 0 or not keys:
        inconc.append("nothing was observed")
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(keys),
        "rule": mod.RULE,
        "samples": samples or ["none"],
        "cases": len(cases),
        "observed": dict(sorted(counters.items())),
    }
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"), "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2), "violations": len(fresh),
    }
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{pid} {tier} seed={seed}: cases={len(cases)} evaluations={evals} distinct={len(keys)} "
          f"violations={len(fresh)} known={len(viols)-len(fresh)} errors={len(errors)} wall={ev['wall_s']}s")
    print("observed:", json.dumps(cov["observed"]))
    for i, e in errors[:5]:
        print(f"HARNESS ERROR in case {i} {json.dumps(cases[i], default=repr)[:300]}:\n{e[-3000:]}")
    if rc == 0 and errors:
        rc = 2
    if rc == 0 and inconc:
        print("INCONCLUSIVE:", "; ".join(inconc[:10]))
        rc = 2
    return rc
