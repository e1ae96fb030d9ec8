"""The monitor that the hook in /repo calls, and the file-access monitor (Python audit hook).

`around(kind, fn, args)` is called for each file build and scan, in whichever process runs it.
When a trace folder is set, both it and the audit hook append events to one file per process:
    {"t": ns, "p": pid, "e": "begin"|"end"|"raise"|"io", ...}
Times are CLOCK_MONOTONIC, which is common to all processes of the machine.
Everything is off until `start` is called; forked workers inherit the settings.
"""
import json, os, random, signal, sys, time

_cfg = {"trace": None, "root": None, "delay": None, "fault": None, "kill_at": None, "io": True, "kill_file": None, "torn": False}
_fd = {}
_current = None
_hooked = False
_in_hook = False
_seq = 0


def start(trace=None, root=None, delay=None, fault=None, io=True, kill_at=None, kill_file=None, torn=False):
    """trace: folder for event files; root: project folder (only paths below it are recorded);
    delay: function(kind, relpath) -> seconds; fault: function(kind, relpath) raising or not;
    kill_at: n, kill the whole process group just before its n-th change to the file system below root
    (counted over all its processes by the length of kill_file); torn: if that is the opening of a file, do so just after it"""
    global _hooked
    _cfg.update(trace=trace, root=os.path.realpath(root) if root else None, delay=delay, fault=fault, io=io,
                kill_at=kill_at, kill_file=kill_file, torn=torn)
    if trace:
        os.makedirs(trace, exist_ok=True)
    if (trace and io or kill_at is not None) and not _hooked:
        _hooked = True
        sys.addaudithook(_audit)


def stop():
    _cfg.update(trace=None, delay=None, fault=None, kill_at=None)


def _emit(ev):
    global _in_hook
    pid = os.getpid()
    ev["t"] = time.monotonic_ns()
    ev["p"] = pid
    if _current is not None:
        ev["c"] = _current
    _in_hook = True
    try:
        key = (pid, _cfg["trace"])
        fd = _fd.get(key)
        if fd is None:
            fd = _fd[key] = os.open(os.path.join(_cfg["trace"], f"{pid}.jsonl"),
                                    os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o600)
        os.write(fd, (json.dumps(ev) + "\n").encode("utf-8", "surrogateescape"))
    finally:
        _in_hook = False


_MUT = {"os.remove": "rm", "os.rename": "mv", "os.rmdir": "rmdir", "os.mkdir": "mkdir",
        "os.symlink": "ln", "os.link": "ln", "os.truncate": "w", "os.chmod": "chmod", "os.utime": "utime"}


def _path(p):
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not isinstance(p, str):
        try:
            p = os.fspath(p)
        except TypeError:
            return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    # normalise without resolving a final link
    p = os.path.abspath(p)
    d, b = os.path.split(p)
    root = _cfg["root"]
    if p == root or p.startswith(root + os.sep):
        return os.path.relpath(p, root)
    return None


_DIR_FD = {"os.remove": (1,), "os.rename": (2, 3), "os.rmdir": (1,), "os.mkdir": (2,), "os.symlink": (None, 2), "os.link": (2, 3), "os.chmod": (2,), "os.utime": (3,)}


def _at(path, fd):
    """The path a call relative to an open folder is about."""
    if not isinstance(fd, int) or fd < 0 or not isinstance(path, (str, bytes)):
        return path
    try:
        return os.path.join(os.readlink(f"/proc/self/fd/{fd}"), os.fsdecode(path))
    except OSError:
        return path


def _audit(event, args):
    if _in_hook or _cfg["root"] is None:
        return
    if _cfg["trace"] is None and _cfg["kill_at"] is None:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(path, int) or path is None:
            return
        rel = _path(path)
        if rel is None:
            return
        acc = (flags or 0) & os.O_ACCMODE
        wr = acc != os.O_RDONLY or (flags or 0) & (os.O_CREAT | os.O_TRUNC)
        op = "w" if wr else "r"
        _io(op, rel, None, (path, flags))
    elif event in _MUT:
        fds = [args[i] if i is not None and i < len(args) else -1 for i in _DIR_FD.get(event, ())] + [-1, -1]
        rel = _path(_at(args[0], fds[0]))
        rel2 = _path(_at(args[1], fds[1])) if event in ("os.rename", "os.symlink", "os.link") else None
        if rel is None and rel2 is None:
            return
        _io(_MUT[event], rel, rel2)


def _io(op, rel, rel2, opened=None):
    if op != "r" and _cfg["kill_at"] is not None:
        _mutation(opened)
    if _cfg["trace"] and _cfg["io"]:
        ev = {"e": "io", "op": op, "f": rel}
        if rel2 is not None:
            ev["f2"] = rel2
        _emit(ev)


def _mutation(opened=None):
    global _in_hook
    _in_hook = True
    try:
        key = ("kill", os.getpid())
        fd = _fd.get(key)
        if fd is None:
            fd = _fd[key] = os.open(_cfg["kill_file"], os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o600)
        os.write(fd, b"x")
        if os.lseek(fd, 0, os.SEEK_END) >= _cfg["kill_at"]:
            if opened and _cfg["torn"] and not os.path.isdir(opened[0]):
                # nothing of what is written to it reaches the file
                try:
                    os.open(opened[0], opened[1], 0o600)
                except OSError:
                    pass
            os.killpg(0, signal.SIGKILL)
            time.sleep(10)
    finally:
        _in_hook = False


def around(kind, fn, args):
    global _current, _seq
    relpath = args[1]
    trace = _cfg["trace"]
    prev = _current
    _seq += 1
    cur = [kind, relpath, f"{os.getpid()}.{_seq}"]
    if trace:
        _current = cur
        _emit({"e": "begin"})
    try:
        if _cfg["delay"]:
            d = _cfg["delay"](kind, relpath)
            if d:
                time.sleep(d)
        if _cfg["fault"]:
            _cfg["fault"](kind, relpath)
        res = fn(*args)
    except BaseException as e:
        if trace:
            _emit({"e": "raise", "x": repr(e)[:300]})
        _current = prev
        raise
    if _cfg["delay"]:
        d = _cfg["delay"](kind + "-end", relpath)
        if d:
            time.sleep(d)
    if trace:
        if kind == "build":
            _emit({"e": "end", "children": list(res.children), "produced": list(res.produced), "reused": list(res.reused)})
        else:
            _emit({"e": "end", "children": list(res.dependencies), "produced": list(res.produces)})
    _current = prev
    return res


def read_trace(folder):
    evs = []
    for name in os.listdir(folder):
        with open(os.path.join(folder, name), encoding="utf-8", errors="surrogateescape") as f:
            for line in f:
                if line.endswith("\n"):
                    evs.append(json.loads(line))
    evs.sort(key=lambda e: e["t"])
    return evs
