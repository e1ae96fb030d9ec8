"""A project, its folder and its history of edits and builds, with optional monitoring of each build."""
import hashlib, json, os, random, re, shutil
import project as P
import vpmon


def jitter(seed, kinds, scale):
    """A delay function for the monitor: deterministic per (kind, path), scattered up to `scale` seconds."""
    def delay(kind, rel):
        if kind not in kinds:
            return 0
        x = int.from_bytes(hashlib.sha1(f"{seed}|{kind}|{rel}".encode("utf-8", "surrogateescape")).digest()[:4], "big") / 2**32
        return x * scale if x > .4 else 0
    return delay


class World:
    def __init__(self, case, tmp, features=None, **cfg):
        self.case, self.tmp = case, tmp
        self.rng = random.Random(case["seed"])
        self.proj = P.Project(self.rng, case.get("n", 8), features or (P.DEFAULT | {"image"} if case.get("images") else None))
        self.folder = os.path.join(tmp, "proj")
        self.disk = P.Disk(self.folder)
        P.write_config(self.folder, self.proj, **cfg)
        self.ops = self.disk.sync(self.proj.snapshot())
        self.dev = False
        self.symlinks = case.get("symlinks", False)
        self.history = ["initial"]
        self.traces = 0

    def edit(self, lo=1, hi=5, flip=0.0, used=False, delete=()):
        edits, touch = [], []
        if delete:
            edits.append(self.proj.delete(*delete))
        for _ in range(self.rng.randrange(lo, hi)):
            e = self.proj.edit_used("partial") if used else self.proj.edit()
            edits.append(e)
            if e.startswith("touch "):
                touch.append(e[6:])
        self.ops = self.disk.sync(self.proj.snapshot(), touch)
        if flip and self.rng.random() < flip:
            self.dev = not self.dev
            edits.append("dev" if self.dev else "prod")
        self.history.append(edits)
        return edits

    def build(self, monitor=False, delay=None, workers=None, **kw):
        """Builds; returns the events if monitored. Raises P.BuildFailed."""
        workers = workers or self.rng.choice([1, 2, 4, 8])
        if not monitor and not delay:
            P.build(self.folder, dev=self.dev, symlinks=self.symlinks, workers=workers)
            return None
        self.traces += 1
        t = os.path.join(self.tmp, f"trace{self.traces}")
        vpmon.start(trace=t, root=self.folder, delay=delay, **kw)
        try:
            P.build(self.folder, dev=self.dev, symlinks=self.symlinks, workers=workers)
        finally:
            vpmon.stop()
            self.events = vpmon.read_trace(t)
            shutil.rmtree(t, ignore_errors=True)
        return self.events

    def out(self):
        return P.tree(os.path.join(self.folder, "out/www"))

    def clean_tree(self):
        c = P.clean_build_tree(self.folder, self.tmp, self.dev, self.symlinks)
        return P.tree(os.path.join(c, "out/www"))

    def failed(self, R, e):
        """A build raised: tells apart a failing project from a failing incremental build."""
        try:
            P.clean_build_tree(self.folder, self.tmp, self.dev, self.symlinks)
            R.fail("incremental-build-fails", f"a clean build works, the incremental build raises {e}", history=self.history)
        except P.BuildFailed as e2:
            R.fail("valid-project-fails", f"a clean build of a valid project raises {e2}", history=self.history[-1:],
                   files={p: b.decode("latin1")[:400] for p, b in self.disk.have.items()} if len(self.disk.have) < 8 else None)

    def graph(self, name):
        with open(os.path.join(self.folder, "out", name)) as f:
            return json.load(f)


def steps_of(events):
    """Groups the events by step: list of dict(kind, f, begin, end, ok, io, children, produced, reused)"""
    res = {}
    for e in events:
        c = e.get("c")
        if c is None:
            continue
        s = res.setdefault(c[2], {"kind": c[0], "f": c[1], "io": [], "ok": None, "begin": None, "end": None})
        if e["e"] == "begin":
            s["begin"] = e["t"]
        elif e["e"] == "end":
            s.update(end=e["t"], ok=True, children=e["children"], produced=e["produced"], reused=e.get("reused", []))
        elif e["e"] == "raise":
            s.update(end=e["t"], ok=False, x=e["x"])
        else:
            s["io"].append(e)
    return sorted(res.values(), key=lambda s: s["begin"])


def stat_tree(root, subs):
    """path -> (kind, inode, mtime_ns, size, link target) for everything below root/subs"""
    res = {}
    for sub in subs:
        top = os.path.join(root, sub)
        if not os.path.lexists(top):
            continue
        stack = [top]
        while stack:
            p = stack.pop()
            st = os.lstat(p)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                res[rel] = ("l", st.st_ino, st.st_mtime_ns, os.readlink(p))
            elif os.path.isdir(p):
                res[rel] = ("d", st.st_ino, st.st_mtime_ns)
                stack += [os.path.join(p, x) for x in os.listdir(p)]
            else:
                with open(p, "rb") as f:
                    h = hashlib.sha1(f.read()).hexdigest()
                res[rel] = ("f", st.st_ino, st.st_mtime_ns, st.st_size, h)
    return res


def diff_stat(a, b, limit=6):
    d = []
    for p in sorted(set(a) | set(b)):
        if a.get(p) != b.get(p):
            d.append(f"{p}: {'absent' if p not in a else a[p]} -> {'absent' if p not in b else b[p]}")
    return d[:limit]


def build_in_child(folder, dev, symlinks, workers, kill_at=None, kill_after=None, kill_file=None, delay=None, timeout=100, call=None, torn=False):
    """A build in a process group of its own, killed as a whole just before its kill_at-th change to the file system
    or after kill_after seconds; torn: or just after it if it opens a file. Returns ("ok" | "failed" | "killed", changes seen)."""
    import select, signal, time
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.setsid()
            os.close(r)
            os.set_inheritable(wr, True)
            if kill_file:
                vpmon.start(root=folder, io=False, kill_at=kill_at or 1 << 40, kill_file=kill_file, delay=delay, torn=torn)
            if call:
                call()
            else:
                P.build(folder, dev=dev, symlinks=symlinks, workers=workers)
            code = 0
        except BaseException:
            pass
        finally:
            os._exit(code)
    os.close(wr)
    t0 = time.monotonic()
    killed = False
    try:
        while True:
            left = timeout - (time.monotonic() - t0)
            if kill_after is not None and not killed:
                left = min(left, kill_after - (time.monotonic() - t0))
            rd, _, _ = select.select([r], [], [], max(0, left))
            if rd:
                break  # every process of the group is gone
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            killed = True
    finally:
        os.close(r)
    _, st = os.waitpid(pid, 0)
    n = os.path.getsize(kill_file) if kill_file and os.path.exists(kill_file) else 0
    if os.WIFSIGNALED(st):
        return "killed", n
    return ("ok" if os.WEXITSTATUS(st) == 0 else "failed"), n


def free_port():
    """A port nobody else will take: outside of the range given to clients, and by process."""
    import socket
    for k in range(200):
        port = 11000 + (os.getpid() + k * 1237) % 20000
        s = socket.socket()
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(("127.0.0.1", port))
            return port
        except OSError:
            pass
        finally:
            s.close()
    raise RuntimeError("no free port")
