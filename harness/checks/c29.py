"""External files from a hostile local server, through histories of configuration edits, tampering and failures."""
import base64, hashlib, http.server, json, os, random, signal, socket, threading, time
from common import CaseResult
import minisite as S, project as P, refs

PROPERTY = "C29"
TIMEOUT = 240
TECHNIQUE = "runtime monitoring: real builds downloading from a fault-injecting local HTTP server whose requests are logged; oracle: model of the configured contents, local files and server behaviours, evaluated over the files and the request log after every build"
RULE = ("histories of builds with configuration edits (files added, removed, renamed, new content, new url), local tampering (edited with or without the same size, deleted, touched, replaced by directories' neighbours, own files put where an external one was) and server behaviours "
        "(good, other content, empty, truncated, aborted, reset, errors with the good content as body, redirects, compression, slow); digests of several kinds. Distinct by (edit, tampering, behaviour, outcome)")
ASSUMPTIONS = ["local edits change the modification time, the size or the inode of the file", "the output folder with the recorded state is kept between builds (otherwise the files of earlier configurations are unknown)"]

GOOD = ["good", "good", "good", "gzip", "redirect", "slow", "chunked"]
BAD = ["wrong", "empty", "truncated", "aborted", "reset", "404", "500", "503", "html", "missing-last", "one-more", "loop"]


class Server:
    """Runs in its own process; reads its behaviour from a file, logs requests to another."""

    def __init__(self, tmp):
        self.table, self.log = os.path.join(tmp, "server.json"), os.path.join(tmp, "server.log")
        self.set({})
        open(self.log, "w").close()
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        s.listen(64)
        self.port = s.getsockname()[1]
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self.serve(s)
            finally:
                os._exit(0)
        s.close()

    def set(self, t):
        with open(self.table + "~", "w") as f:
            json.dump(t, f)
        os.replace(self.table + "~", self.table)

    def requests(self):
        with open(self.log) as f:
            return [x for x in f.read().split("\n") if x]

    def serve(self, s):
        table, log = self.table, self.log

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def log_message(self, *a):
                pass

            def do_GET(self):
                with open(log, "a") as f:
                    f.write(self.path + "\n")
                with open(table) as f:
                    t = json.load(f)
                if self.path.startswith("/moved"):
                    self.path = self.path[6:]
                    moved = True
                else:
                    moved = False
                how, body, bad = t.get(self.path, ["404", "", ""])
                body, bad = base64.b64decode(body), base64.b64decode(bad)
                code, head, n = 200, {}, None
                self.close_connection = True
                if how == "wrong":
                    body = bad
                elif how == "empty":
                    body = b""
                elif how in ("404", "500", "503"):
                    code = int(how)
                elif how == "html":
                    body = b"<html><body>Sign in to the network" + bad + b"</body></html>"
                elif how == "missing-last":
                    body = body[:-1]
                elif how == "one-more":
                    body += b"\n"
                elif how == "loop":
                    code, head, body = 302, {"Location": self.path}, b""
                elif how == "redirect" and not moved:
                    code, head, body = 302, {"Location": "/moved" + self.path}, bad
                elif how == "truncated":
                    n, body = len(body), body[:len(body) // 2]
                elif how == "reset":
                    self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
                    self.connection.close()
                    return
                elif how == "gzip":
                    import gzip
                    body = gzip.compress(body)
                    head["Content-Encoding"] = "gzip"
                self.send_response(code)
                for k, v in head.items():
                    self.send_header(k, v)
                if how in ("chunked", "aborted"):
                    self.send_header("Transfer-Encoding", "chunked")
                    self.end_headers()
                    for i in range(0, len(body), max(1, len(body) // 3)):
                        part = body[i:i + max(1, len(body) // 3)]
                        self.wfile.write(b"%x\r\n%s\r\n" % (len(part), part))
                        if how == "aborted":
                            return
                    self.wfile.write(b"0\r\n\r\n")
                    return
                self.send_header("Content-Length", str(len(body) if n is None else n))
                self.send_header("Connection", "close")
                self.end_headers()
                if how == "slow":
                    for i in range(0, len(body), 1 + len(body) // 4):
                        self.wfile.write(body[i:i + 1 + len(body) // 4])
                        self.wfile.flush()
                        time.sleep(.02)
                else:
                    self.wfile.write(body)

        class T(http.server.ThreadingHTTPServer):
            daemon_threads = True

            def handle_error(self, *a):
                pass

        h = T(("127.0.0.1", 0), H, bind_and_activate=False)
        h.socket.close()
        h.socket = s
        h.server_address = s.getsockname()
        h.serve_forever()

    def stop(self):
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)


def cases(tier, rng):
    return [{"seed": rng.randrange(1 << 60), "steps": 9} for _ in range(90 if tier == "quick" else 600)]


PLACES = ["src/public/lib/a.js", "src/public/lib/a.css", "src/public/lib/b.bin", "src/public/c.bin", "src/public/lib/deep/er/d.txt", "src/public/js/e.js", "src/partials/f.html", "src/vendor/g.txt", "src/public/lib/h.css"]


class Ext:
    def __init__(self, r, place, n):
        self.token = ("tok%d-%x" % (n, r.randrange(1 << 60))).encode()
        size = r.choice([0, 3, 100, 8192, 20000])
        if place.endswith(".js"):
            self.body = b"// " + self.token + b"\nexport const x = 1;\n" + b"// pad\n" * (size // 7)
        elif place.endswith(".css"):
            self.body = b"/* " + self.token + b" */\n.a { color: red }\n" + b"/* pad */\n" * (size // 10)
        elif place.endswith(".html"):
            self.body = b"<p>" + self.token + b"</p>"
        else:
            self.body = self.token + bytes(r.randrange(256) for _ in range(size))
        self.url = "/f%d" % n
        self.kind = r.choice(["sha256", "sha384", "sha512", "sha384", "sha1"])

    def integrity(self):
        return self.kind + "-" + base64.b64encode(hashlib.new(self.kind, self.body).digest()).decode()


def read_all(folder):
    res = {}
    for d, _, fs in os.walk(folder):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.exists(p):
                with open(p, "rb") as fp:
                    res[os.path.relpath(p, folder)] = fp.read()
    return res


def history(R, case, tmp, server):
    r = random.Random(case["seed"])
    n = [0]

    def ext(place):
        n[0] += 1
        return Ext(r, place, n[0])

    conf = {p: ext(p) for p in r.sample(PLACES, r.choice([0, 2, 4, 6]))}
    named = {p: r.random() < .2 for p in PLACES}      # configured under another key
    site = S.Site(tmp, {"src/public/index.html": "<!DOCTYPE html>\n<html>\n<head>\n<title>x</title>\n</head>\n<body></body>\n</html>\n", "src/public/own.bin": b"own"})
    ours = {"src/public/index.html", "src/public/own.bin"}   # the user's own files
    known = set()                                   # configured at the last build
    label, links, log, broken = "first build", r.random() < .3, [], False
    for step in range(case["steps"]):
        how, table, bad = {}, {}, {}
        hostile = r.random() < .45
        for p, x in conf.items():
            how[p] = r.choice(BAD) if hostile and r.random() < .5 else r.choice(GOOD)
            if how[p] in ("truncated", "aborted") and len(x.body) < 30:
                how[p] = "wrong"
            bad[p] = b"BAD-%x" % r.randrange(1 << 60)
            table[x.url] = [how[p], base64.b64encode(x.body).decode(), base64.b64encode(bad[p]).decode()]
        server.set(table)
        site.config(external_files={("key " + p if named[p] else p): {"url": f"http://127.0.0.1:{server.port}{x.url}", "integrity": x.integrity(), **({"relpath": p} if named[p] else {})} for p, x in conf.items()})
        whole = read_all(site.folder)
        before = {k: v for k, v in whole.items() if k.startswith("src/")}
        had = len(server.requests())
        local = {p: before.get(p) == x.body for p, x in conf.items()}
        should = all(local[p] or how[p] in GOOD for p in conf) and not broken
        log.append(f"{label}; {[(p, how[p], 'present' if local[p] else 'other' if p in before else 'absent') for p in conf]}")
        dump = {"history": log[-6:], "configured": sorted(conf)}
        err = None
        try:
            site.build(symlinks=links)
        except P.BuildFailed as e:
            err = e
        R.count("builds")
        asked = server.requests()[had:]
        everything = read_all(site.folder)
        after = {k: v for k, v in everything.items() if k.startswith("src/")}
        R.expect((err is None) == should, "outcome", f"the build {'succeeded' if err is None else 'failed: %s' % str(err)[:300]}, expected {'success' if should else 'failure'}", **dump)
        for p, x in conf.items():
            R.count("files")
            R.key(label, how[p], local[p], p in before, err is None)
            if err is None:
                R.expect(after.get(p) == x.body, "not-matching", f"after a successful build {p} is {after.get(p, b'absent')[:60]!r}, configured {x.body[:60]!r}", **dump)
            else:
                R.expect(after.get(p) in (before.get(p), x.body), "failed-changed", f"after a failed build {p} is {after.get(p, b'absent')[:80]!r}, neither what it was nor the configured content", **dump)
            hits = [a for a in asked if a in (x.url, "/moved" + x.url)]
            if local[p]:
                R.expect(not hits, "downloaded-again", f"{p} matched already but was requested: {hits}", **dump)
                R.expect(after.get(p) == x.body, "good-lost", f"{p} matched before but not after the build", **dump)
                R.count("kept")
            elif err is None:
                R.count("downloads")
            if how[p] in BAD and not local[p]:
                R.count("bad_downloads", bool(hits))
                # nothing of it stays
                for f, b in everything.items():
                    R.eval()
                    left = bad[p] in b or (x.token in b and how[p] not in ("404", "500", "503") and x.token not in before.get(p, b""))
                    if left and not (f.endswith(".json") or whole.get(f) == b):
                        src = [q for q, y in conf.items() if q != p and y.token == x.token]
                        if not src:
                            R.fail("bad-kept", f"{f} has content of the failed download of {p} ({how[p]})", **dump)
        gone = {p for p in known if p not in conf and p not in ours}
        for p in gone:
            R.count("removals")
            R.expect(err is not None or p not in after, "not-removed", f"{p} is no longer configured but remains", **dump)
        for p in ours:
            R.expect(after.get(p) == before.get(p), "own-file-touched", f"the user's file {p} changed", **dump)
        extra = set(after) - set(before) - set(conf)
        R.expect(not extra, "unexpected-source", f"new files below src: {sorted(extra)}", **dump)
        tmps = [f for f in everything if f.startswith("out/") and f.endswith(".tmp")]
        R.expect(not tmps, "temporary-left", f"{tmps}", **dump)
        known = {p for p in known | set(conf) if p in after and p not in ours}
        if err is None:
            for p in conf:
                if p.startswith("src/public/"):
                    q = p[11:]
                    if q.endswith((".bin", ".txt")):
                        R.expect(everything.get("out/www/" + q) == conf[p].body, "not-published", f"{q} is not served with its content", **dump)
                    R.expect(everything.get("out/www/" + q + ".hash", b"").decode() == refs.b64(everything.get("out/www/" + q, b"?")), "not-published", f"{q} has no right hash", **dump)
            R.count("succeeded")
            if step == case["steps"] - 1:
                clean = P.tree(os.path.join(P.clean_build_tree(site.folder, tmp), "out/www"))
                R.expect(clean == P.tree(site.path("out/www")), "not-as-clean", str(P.diff_trees(P.tree(site.path("out/www")), clean)), **dump)
        else:
            R.count("failed")
        if R.violations:
            break
        # edits
        label = []
        if broken or r.random() < .2:
            # a source file which cannot be built, so that the build stops after the downloads
            broken = not broken
            site.put({"src/public/broken.js": b"import '/absent.js';\n"} if broken else {}, gone=[] if broken else ["src/public/broken.js"])
            label.append("broken" if broken else "mended")
            R.count("broken", broken)
        for _ in range(r.choice([0, 1, 1, 2])):
            c = r.choice(["add", "remove", "remove", "content", "content", "url", "kind", "move", "clear", "tamper", "tamper", "same-size", "delete", "touch", "own", "ours"])
            ps = sorted(conf)
            if c == "add":
                free = [p for p in PLACES if p not in conf and p not in ours]
                if free:
                    p = r.choice(free)
                    conf[p] = ext(p)
            elif c == "own":
                # a file of the user where one was configured once
                free = [p for p in PLACES if p not in conf and p not in known and not os.path.exists(site.path(p))]
                if free and len(ours) < 5:
                    p = r.choice(free)
                    site.put({p: b"/* mine %d */" % step})
                    ours.add(p)
            elif c == "ours":
                extra = sorted(ours - {"src/public/index.html", "src/public/own.bin"})
                if extra:
                    p = r.choice(extra)
                    ours.discard(p)
                    if r.random() < .5:
                        site.put({}, gone=[p])
                    else:
                        conf[p] = ext(p)      # configured over the user's file
            elif c == "clear":
                if r.random() < .4:
                    conf.clear()
            elif not ps:
                c = "none"
            else:
                p = r.choice(ps)
                x = conf[p]
                f = site.path(p)
                if c == "remove":
                    del conf[p]
                    if r.random() < .3 and os.path.exists(f):
                        site.put({}, gone=[p])
                        c = "remove+delete"
                elif c == "content":
                    conf[p] = ext(p)
                    if r.random() < .5:
                        conf[p].url = x.url
                elif c == "url":
                    n[0] += 1
                    x.url = "/f%d" % n[0]
                elif c == "kind":
                    x.kind = r.choice(["sha256", "sha384", "sha512", "sha1"])
                elif c == "move":
                    free = [q for q in PLACES if q not in conf and q not in ours and q.endswith(os.path.splitext(p)[1])]
                    if free:
                        conf[free[0]] = conf.pop(p)
                elif os.path.exists(f):
                    with open(f, "rb") as fp:
                        b = fp.read()
                    if c == "tamper":
                        site.put({p: b + b"/* tampered */" if not p.endswith(".html") else b + b"<b></b>"})
                    elif c == "same-size":
                        site.put({p: b.replace(b"tok", b"kot", 1)})
                    elif c == "touch":
                        site.put({p: b})
                    elif c == "delete":
                        site.put({}, gone=[p])
            label.append(c)
        label = "+".join(label) or "nothing"
    R.sample({"history": log})


def run_case(case, tmp):
    R = CaseResult()
    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]
    server = Server(tmp)
    try:
        history(R, case, tmp, server)
    finally:
        server.stop()
    return R


def finalize(results, tier, counters):
    need = {"builds": 250, "downloads": 200, "kept": 200, "bad_downloads": 60, "removals": 30, "failed": 40}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
