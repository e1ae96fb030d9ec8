"""The real development watcher, fed by the real observer or by generated event streams, while sources change."""
import json, os, random, shutil, signal, socket, sys, threading, time
from common import CaseResult
import project as P, world as W, vpmon
from checks.c08 import inject, FAULTS

PROPERTY = "C30"
TIMEOUT = 240
TECHNIQUE = "runtime monitoring: the real dev --watch process under bursts of real edits, with the real inotify observer or generated event streams (merged, duplicated, delayed), injected delays and failing intermediate states; oracle: served folder converges to a clean development build's, the process stays alive and goes quiet"
RULE = ("random projects; rounds of edits (create, modify in several ways, rename, delete, folder moves in and out, transient files, many at once) timed before, within and after the debounce period and during rebuilds, some leaving the sources invalid until repaired later; "
        "after quiet the served folder must equal a clean development build within bounded time and no further rebuild may follow. Distinct by (source of events, round shape, validity, edits)")
ASSUMPTIONS = ["events for each change arrive eventually, in order; runs of equal events may be merged", "edits change the modification time, size or inode of the file", "the configuration file is not edited (it is not watched)"]
PATIENCE = 45


def cases(tier, rng):
    return [{"seed": rng.randrange(1 << 60), "n": rng.choice([3, 6, 9]), "real": rng.random() < .45, "rounds": 5, "debounce": rng.choice([10, 40, 100]), "symlinks": True, "images": rng.random() < .3} for _ in range(40 if tier == "quick" else 300)]


class FakeObserver:
    """Stands in for watchdog's observer: dispatches the events read from a pipe."""
    fd = None

    def __init__(self, *a, **k):
        self.daemon = True
        self.handlers = []
        self.thread = None

    def schedule(self, handler, path, recursive=False, **k):
        self.handlers.append((handler, os.path.abspath(path), recursive))

    def concerns(self, path, recursive, event):
        for p in (event.src_path, getattr(event, "dest_path", "")):
            if p and (os.path.dirname(p) == path or recursive and p.startswith(path + os.sep)):
                return True
        return False

    def run(self):
        import watchdog.events as E
        with os.fdopen(self.fd) as f:
            for line in f:
                cls, *args = json.loads(line)
                event = getattr(E, cls)(*args)
                for h, path, recursive in self.handlers:
                    if self.concerns(path, recursive, event):
                        h.dispatch(event)

    def start(self):
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def is_alive(self):
        return self.thread is not None and self.thread.is_alive()

    def stop(self):
        pass

    unschedule_all = on_thread_stop = stop

    def join(self, timeout=None):
        pass


class Dev:
    def __init__(self, w, case, tmp, delay):
        import vanillaplusjs.runners.dev as D, watchdog.observers, vanillaplusjs.main  # noqa
        self.port = W.free_port()
        rfd, self.wfd = os.pipe()
        self.trace = os.path.join(tmp, "trace")
        self.log = os.path.join(tmp, "dev.log")
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(self.wfd)
                fd = os.open(self.log, os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o600)
                os.dup2(fd, 2)
                from loguru import logger
                logger.remove()
                logger.add(os.fdopen(os.dup(fd), "w", buffering=1), level="DEBUG")
                if not case["real"]:
                    FakeObserver.fd = rfd
                    D.Observer = watchdog.observers.Observer = FakeObserver
                vpmon.start(trace=self.trace, root=w.folder, io=False, delay=delay)
                os.chdir(tmp)
                sys.argv = ["vanillaplusjs", "dev", "--watch", "--host", "127.0.0.1", "--port", str(self.port), "--folder", os.path.relpath(w.folder, tmp), "--debounce", str(case["debounce"])]
                vanillaplusjs.main.main()
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(3)
        os.close(rfd)

    def wait(self):
        end = time.monotonic() + PATIENCE
        while time.monotonic() < end and self.alive():
            try:
                socket.create_connection(("127.0.0.1", self.port), 1).close()
                time.sleep(.25)   # the observer starts right after
                return True
            except OSError:
                time.sleep(.02)
        return False

    def alive(self):
        if self.pid and os.waitpid(self.pid, os.WNOHANG)[0]:
            self.pid = None
        return self.pid is not None

    def send(self, events):
        # equal neighbours are merged by the queue
        out = []
        for e in events:
            if not out or out[-1] != e:
                out.append(e)
        os.write(self.wfd, "".join(json.dumps(e) + "\n" for e in out).encode())

    def said(self):
        """The last things it logged."""
        with open(self.log, "rb") as f:
            t = f.read()[-200_000:].decode("utf-8", "replace")
        keep = [x[26:400] for x in t.split("\n") if any(k in x for k in ("INFO", "ERROR", "WARNING", "Error", "changed:", "added:", "deleted", "Exception"))]
        return keep[-40:]

    def steps(self):
        n = 0
        if os.path.isdir(self.trace):
            for f in os.listdir(self.trace):
                with open(os.path.join(self.trace, f), "rb") as fh:
                    n += fh.read().count(b'"begin"')
        return n

    def get(self, path):
        s = socket.create_connection(("127.0.0.1", self.port), 10)
        s.settimeout(20)
        try:
            s.sendall(b"GET " + path.encode() + b" HTTP/1.0\r\n\r\n")
            d = b""
            while True:
                b = s.recv(65536)
                if not b:
                    break
                d += b
        finally:
            s.close()
        h, _, b = d.partition(b"\r\n\r\n")
        return int(h.split(b" ")[1]), b

    def stop(self):
        os.close(self.wfd)
        if self.pid:
            try:
                os.killpg(self.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)


def events_for(r, folder, ops, edits, folders_before):
    """What an observer may report for these file operations."""
    full = lambda p: os.path.join(folder, p)
    moved = {}
    for e in edits:
        if e.startswith("rename ") and " -> " in e:
            a, b = e[7:].split(" -> ")
            moved[b] = a
    gone = {p for o, p in ops if o == "delete"}
    res = []
    done = set()
    made = set()
    for o, p in ops:
        if p in done:
            continue
        f = full(p)
        d = os.path.dirname(f)
        if o == "delete":
            if any(m == p and (b := x) and ("create", b) in ops for x, m in moved.items()) and r.random() < .7:
                b = [x for x, m in moved.items() if m == p][0]
                if os.path.dirname(full(b)) not in folders_before:
                    res.append(["DirCreatedEvent", os.path.dirname(full(b))])
                res.append(["FileMovedEvent", f, full(b)])
                done.add(b)
                if r.random() < .5:
                    res.append(["FileModifiedEvent", full(b)])
            else:
                res.append(["FileDeletedEvent", f])
            res.append(["DirModifiedEvent", d])
            if not os.path.isdir(d) and r.random() < .8:
                res.append(["DirDeletedEvent", d])
        elif o == "create":
            if d not in folders_before and d not in made:
                made.add(d)
                res.append(["DirCreatedEvent", d])
            res += r.choice([[["FileCreatedEvent", f]], [["FileCreatedEvent", f], ["FileModifiedEvent", f]], [["FileCreatedEvent", f], ["DirModifiedEvent", d], ["FileModifiedEvent", f], ["FileClosedEvent", f]],
                             [["FileCreatedEvent", f + ".swp"], ["FileMovedEvent", f + ".swp", f]]])
        else:
            res += r.choice([[["FileModifiedEvent", f]], [["FileModifiedEvent", f], ["FileClosedEvent", f], ["FileModifiedEvent", f]],
                             [["FileCreatedEvent", f + "~"], ["FileModifiedEvent", f + "~"], ["FileMovedEvent", f + "~", f]],
                             [["FileDeletedEvent", f], ["FileCreatedEvent", f]], [["FileDeletedEvent", f], ["FileCreatedEvent", f], ["FileModifiedEvent", f]],
                             [["FileMovedEvent", f, f + ".bak"], ["FileCreatedEvent", f], ["FileModifiedEvent", f], ["FileDeletedEvent", f + ".bak"]]])
    return [e for e in res if e[0] != "FileClosedEvent" or r.random() < .5]


def files_below(top):
    return [os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs]


def run_case(case, tmp):
    import watchdog.events as E
    R = CaseResult()
    w = W.World(case, tmp)
    w.dev = True
    r, folder = w.rng, w.folder
    scale = r.choice([0, 0, .03, .15])
    delay = W.jitter(case["seed"], ("build", "scan", "build-end"), scale) if scale else None
    dev = Dev(w, case, tmp, delay)
    shape, undo, log = [], [], []
    has_closed = hasattr(E, "FileClosedEvent")

    def tell(evs):
        if case["real"]:
            return
        evs = [e for e in evs if has_closed or e[0] != "FileClosedEvent"]
        if evs:
            dev.send(evs)
            R.count("events", len(evs))

    def folders():
        return {d for d, _, _ in os.walk(f"{folder}/src")}

    def change():
        k = r.choice(["edit", "edit", "edit", "partial", "partial", "fault", "transient", "dir-out", "dir-in", "dir-rename", "burst", "all-pages"])
        before = folders()
        if k in ("edit", "burst", "partial"):
            n = 4 if k == "burst" else 1
            evs = []
            for _ in range(n):
                # a partial is outside the public folder, and nothing else of it changes
                e = w.edit(1, 2, used=True) if k == "partial" else w.edit(1, 3)
                new = events_for(r, folder, w.ops, e, before)
                evs += new
                before = folders()
            tell(evs)
            log.append([k] + w.history[-n:])
        elif k == "fault" and not undo:
            name = r.choice(FAULTS)
            undo.extend(inject(r, w, name, 0))
            evs = []
            for fp, old in undo:
                evs += [["FileCreatedEvent", fp]] if old is None else []
                evs += [["FileModifiedEvent", fp]]
            tell(evs)
            log.append(["fault", name])
        elif k == "fault":
            repair()
        elif k == "transient":
            # an editor's temporary files, gone before long
            d = r.choice(sorted(before))
            f = os.path.join(d, r.choice(["4913", ".x.swp", "x.js~", "tmp.css", "t.html", "a.images.json.tmp"]))
            if os.path.exists(f):
                return
            with open(f, "w") as fh:
                fh.write(r.choice(["", "import '/nowhere.js'", "<p", "}"]))
            tell([["FileCreatedEvent", f], ["FileModifiedEvent", f]])
            time.sleep(r.choice([0, 0, .05, .2]))
            os.remove(f)
            tell([["FileDeletedEvent", f]])
            log.append(["transient", os.path.relpath(f, folder)])
        elif k == "dir-rename":
            # a folder of plain files and styles moves
            u = w.proj.uid()
            d, e = f"{folder}/src/public/mv{u}/in", f"{folder}/src/public/mv{u}/to"
            os.makedirs(d + "/sub")
            evs = [["DirCreatedEvent", os.path.dirname(d)], ["DirCreatedEvent", d], ["DirCreatedEvent", d + "/sub"]]
            for x in ("a.txt", "sub/b.css", "sub/c.txt"):
                with open(f"{d}/{x}", "w") as fh:
                    fh.write("/* %d */" % u)
                evs.append(["FileCreatedEvent", f"{d}/{x}"])
            tell(evs)
            time.sleep(r.choice([0, .05, .3, .6]))
            os.rename(d, e)
            tell([["DirMovedEvent", d, e], ["DirMovedEvent", d + "/sub", e + "/sub"]] + [["FileMovedEvent", f"{d}/{x}", f"{e}/{x}"] for x in ("a.txt", "sub/b.css", "sub/c.txt")])
            log.append(["dir-rename", u])
            extra.append(os.path.dirname(d))
        elif k == "dir-out" and extra:
            d = extra.pop(r.randrange(len(extra)))
            if r.random() < .5:
                os.rename(d, f"{tmp}/away{w.proj.uid()}")
                tell([["DirDeletedEvent", d]])
                log.append(["dir moved away", os.path.basename(d)])
            else:
                fs = files_below(d)
                ds = sorted((x for x, _, _ in os.walk(d)), reverse=True)
                shutil.rmtree(d)
                tell([["FileDeletedEvent", f] for f in fs] + [["DirDeletedEvent", x] for x in ds])
                log.append(["dir removed", os.path.basename(d)])
        elif k == "dir-in":
            u = w.proj.uid()
            s, d = f"{tmp}/make{u}", f"{folder}/src/public/got{u}"
            os.makedirs(s + "/sub")
            for x in ("p.txt", "sub/q.js"):
                with open(f"{s}/{x}", "w") as fh:
                    fh.write("// %d\n" % u)
            os.rename(s, d)
            tell([["DirCreatedEvent", d], ["DirCreatedEvent", d + "/sub"], ["FileCreatedEvent", d + "/p.txt"], ["FileCreatedEvent", d + "/sub/q.js"]])
            log.append(["dir-in", u])
            extra.append(d)
        elif k == "all-pages" and r.random() < .5:
            # everything is away for a moment, as when switching branches
            have = dict(w.disk.have)
            w.disk.sync({p: b for p, b in have.items() if p == P.MAIN})
            tell([["FileDeletedEvent", os.path.join(folder, p)] for p in have if p != P.MAIN])
            time.sleep(r.choice([0, .05, .4]))
            w.disk.sync(have)
            os.makedirs(f"{folder}/src/public", exist_ok=True)
            tell([x for p in have if p != P.MAIN for x in ([["FileCreatedEvent", os.path.join(folder, p)], ["FileModifiedEvent", os.path.join(folder, p)]])])
            log.append(["all away and back"])
        else:
            return
        shape.append(k)

    def repair():
        evs = []
        for fp, old in undo:
            # the file may have been edited or deleted since
            now = w.disk.have.get(os.path.relpath(fp, folder))
            if now is not None:
                os.makedirs(os.path.dirname(fp), exist_ok=True)
                with open(fp, "wb") as fh:
                    fh.write(now)
                w.disk._stamp(fp)
                evs.append(["FileModifiedEvent", fp])
            elif os.path.exists(fp):
                os.remove(fp)
                evs.append(["FileDeletedEvent", fp])
        undo.clear()
        tell(evs)
        log.append(["repair"])

    extra = []
    try:
        if not dev.wait():
            R.fail("does-not-start", "dev --watch did not start on a valid project", history=w.history)
            return R
        for rnd in range(case["rounds"]):
            shape.clear()
            for _ in range(r.choice([1, 2, 4])):
                change()
                time.sleep(r.choice([0, 0, case["debounce"] / 1000, case["debounce"] / 2000, .15, .4]))
            if undo and r.random() < .6:
                # let it fail first
                time.sleep(r.choice([0, .3, .8]))
                if r.random() < .4:
                    w.edit(1, 3)
                    tell(events_for(r, folder, w.ops, w.history[-1], folders()))
                    time.sleep(.2)
            if undo:
                repair()
            R.key(case["real"], shape, bool(scale))
            R.count("rounds")
            # now it must converge
            if case["images"]:
                # a clean build names the images after the slots which this folder's builds gave them: let it finish first
                for _ in range(100):
                    a = dev.steps()
                    time.sleep(.4 + 3 * case["debounce"] / 1000)
                    if dev.steps() == a and not os.path.exists(f"{folder}/out/incomplete_build.txt"):
                        break
                R.count("rounds_with_images")
            try:
                want = w.clean_tree()
            except P.BuildFailed as e:
                R.fail("valid-project-fails", f"a clean build of a valid project raises {e}", log=log[-6:])
                return R
            end = time.monotonic() + PATIENCE
            got, again = None, time.monotonic() + 5
            while time.monotonic() < end and dev.alive():
                try:
                    got = w.out()
                except FileNotFoundError:
                    got = {}
                if got == want and not os.path.exists(f"{folder}/out/incomplete_build.txt"):
                    break
                if case["images"] and time.monotonic() > again:
                    again = time.monotonic() + 5
                    try:
                        want = w.clean_tree()
                    except (OSError, P.BuildFailed):
                        pass
                time.sleep(.05)
            if not R.expect(dev.alive(), "watcher-died", "the dev process ended", log=log[-8:], real=case["real"], said=dev.said()):
                return R
            if not R.expect(got == want, "not-converged", f"{PATIENCE} s after the last change the served folder differs from a clean development build: " + "; ".join(P.diff_trees(got, want)), log=log[-8:], real=case["real"], debounce=case["debounce"], said=dev.said()):
                return R
            R.count("converged")
            # and go quiet
            if r.random() < .4:
                quiet = False
                for _ in range(30):
                    a = dev.steps()
                    time.sleep(.3 + 3 * case["debounce"] / 1000)
                    if dev.steps() == a:
                        quiet = True
                        break
                R.expect(quiet, "keeps-rebuilding", "it keeps rebuilding although nothing changes", log=log[-6:])
                R.expect(w.out() == want, "diverged", "the served folder changed after it had converged: " + "; ".join(P.diff_trees(w.out(), want)), log=log[-8:])
                R.count("quiet_checks")
                pages = [p for p in want if p.endswith((".html", ".css", ".js"))]
                for p in r.sample(sorted(pages), min(3, len(pages))):
                    st, b = dev.get("/" + p)
                    R.expect(st == 200 and b == want[p], "not-served", f"/{p} answers {st} {b[:60]!r}", log=log[-8:])
                    R.count("pages_fetched")
        R.count("steps_seen", dev.steps())
    finally:
        dev.stop()
    R.sample({"case": case, "log": log[-5:]})
    return R


def finalize(results, tier, counters):
    return [] if counters.get("converged", 0) >= 50 and counters.get("steps_seen", 0) > 500 else ["too little observed"]
