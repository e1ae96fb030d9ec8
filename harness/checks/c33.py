"""The real server process, asked over raw sockets."""
import os, random, re, signal, socket, sys, time, urllib.parse
from common import CaseResult
import project as P, world as W

PROPERTY = "C33"
TIMEOUT = 200
TECHNIQUE = "runtime monitoring: the real run/dev commands as a server process, raw socket clients; oracle: model of the served folder on disk (bytes, folders, types) per request path, with unique tokens planted in files that must never appear"
RULE = ("real sites with odd file and folder names (spaces, unicode, percent signs, dots, look-alike siblings of the served folder), built with links or copies; every file, folder and absent path asked by GET and HEAD in several encodings and with queries, "
        "plus traversals and malformed paths; repeated after rebuilds while the server runs. Distinct by (command, links, kind of path, encoding, status)")
ASSUMPTIONS = ["file names are valid UTF-8", "paths with empty or dot segments may be treated as the plain path or as absent"]

NAMES = ["plain.txt", "with space.txt", "\u00fcn\u00ef\u7801.bin", "a+b&c=d.txt", "100%.txt", "per%41cent.txt", "hash#mark.txt", "question?mark.txt", "semi;colon,comma.txt", "quote'\".txt", "back\\slash.txt", ".hidden", "no_extension",
         "many.dots.min.js", "UPPER.JS", "style.CSS", "page.HTML", "font.woff2", "data.json", "empty.txt", "img.svg", "pic.png", "pic.jpeg", "pic.webp", "big.bin", "tilde~.txt", "colon:.txt", "index.htm", "404x.html", "mod.mjs"]
FOLDERS = ["", "", "docs/", "with space/", "\u00fc/", "deep/er/", "a.b/", "www/", "..dots/", "noindex/", "100%/"]


def cases(tier, rng):
    return [{"seed": rng.randrange(1 << 60), "command": rng.choice(["run", "run", "dev", "watch"])} for _ in range(64 if tier == "quick" else 240)]


class Server:
    def __init__(self, tmp, folder, command, cwd):
        import vanillaplusjs.main  # noqa: loaded before the fork
        import anyio._backends._asyncio  # noqa
        import uvicorn.lifespan.on, uvicorn.loops.auto, uvicorn.protocols.http.auto, uvicorn.protocols.websockets.auto  # noqa
        for attempt in range(4):
            self.port = W.free_port()
            self.pid = os.fork()
            if self.pid == 0:
                try:
                    os.chdir(cwd)
                    sys.argv = ["vanillaplusjs", "dev" if command == "watch" else command, "--host", "127.0.0.1", "--port", str(self.port), "--folder", os.path.relpath(folder, cwd)] + (["--watch"] if command == "watch" else [])
                    vanillaplusjs.main.main()
                finally:
                    os._exit(0)
            end = time.monotonic() + 60
            while time.monotonic() < end:
                if os.waitpid(self.pid, os.WNOHANG)[0]:
                    self.pid = None
                    break
                try:
                    socket.create_connection(("127.0.0.1", self.port), 1).close()
                    return
                except OSError:
                    time.sleep(.02)
            self.stop()
        raise RuntimeError("the server does not start")

    def alive(self):
        if self.pid and os.waitpid(self.pid, os.WNOHANG)[0]:
            self.pid = None
        return self.pid is not None

    def stop(self):
        if self.pid:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            self.pid = None

    def ask(self, target, method="GET", headers=()):
        """(status, headers, body) of one request with exactly these bytes as its target"""
        s = socket.create_connection(("127.0.0.1", self.port), 10)
        s.settimeout(20)
        try:
            t = target if isinstance(target, bytes) else target.encode("utf-8")
            s.sendall(method.encode() + b" " + t + b" HTTP/1.1\r\nHost: 127.0.0.1:%d\r\nConnection: close\r\n" % self.port + "".join(f"{k}: {v}\r\n" for k, v in headers).encode() + b"\r\n")
            data = b""
            while True:
                try:
                    b = s.recv(1 << 16)
                except ConnectionResetError:
                    break
                if not b:
                    break
                data += b
        finally:
            s.close()
        head, _, body = data.partition(b"\r\n\r\n")
        lines = head.decode("latin1").split("\r\n")
        m = re.match(r"HTTP/1\.\d (\d+)", lines[0])
        h = {k.lower(): v.strip() for k, v in (x.split(":", 1) for x in lines[1:] if ":" in x)}
        if h.get("transfer-encoding") == "chunked":
            out, rest = b"", body
            while rest:
                n, _, rest = rest.partition(b"\r\n")
                n = int(n, 16)
                out, rest = out + rest[:n], rest[n + 2:]
                if n == 0:
                    break
            body = out
        return (int(m[1]) if m else 0), h, body


TYPES = {".js": {"text/javascript", "application/javascript"}, ".mjs": {"text/javascript", "application/javascript"}, ".css": {"text/css"}, ".html": {"text/html"}, ".htm": {"text/html"},
         ".svg": {"image/svg+xml"}, ".png": {"image/png"}, ".jpeg": {"image/jpeg"}, ".jpg": {"image/jpeg"}, ".webp": {"image/webp"}, ".gif": {"image/gif"}}


def encodings(r, path):
    """Ways a client may write this path."""
    yield "minimal", urllib.parse.quote(path, safe="/~!$&'()*+,;=:@")
    k = r.randrange(4)
    if k == 0:
        yield "full", "".join(c if c == "/" else "".join("%%%02X" % b for b in c.encode()) for c in path)
    elif k == 1:
        yield "lower", re.sub("%..", lambda m: m[0].lower(), urllib.parse.quote(path, safe="/"))
    elif k == 2:
        yield "versioned", urllib.parse.quote(path) + "?v=AbC-_0%3D&pv=1"
    else:
        yield "query", urllib.parse.quote(path) + "?" + r.choice(["", "x=/../../y", "a=b?c=d", "path=%2e%2e%2f", "/"])


HOSTILE = ["/../{s}", "/../../{s}", "/%2e%2e/{s}", "/%2E%2E%2F{s}", "/..%2f{s}", "/docs/../../{s}", "/docs/%2e%2e/%2e%2e/{s}", "/./../{s}", "//../{s}", "/..//{s}", "/%2e%2e%5c{s}", "/..\\{s}", "/docs/..%2f..%2f{s}", "/%252e%252e/{s}", "/..%00/{s}", "/../www/../{s}",
           "/%c0%ae%c0%ae/{s}", "/.../{s}", "/docs/../../www/../{s}", "{s}", "../{s}", "/{a}", "//{a}", "/%2f{a}", "///{a}", "/docs/{a}", "/%2F%2F{a}", "http://127.0.0.1/../{s}", "/../{s}?v=1", "/../{s}#x", "/..;/{s}", "/~/../{s}", "/%u002e%u002e/{s}"]


def survey(R, srv, top, r, info, secrets, only=None):
    files, dirs = {}, set()
    for d, ds, fs in os.walk(top):
        rel = os.path.relpath(d, top).replace(os.sep, "/")
        dirs.add("" if rel == "." else rel)
        for f in fs:
            with open(os.path.join(d, f), "rb") as fh:
                files[f if rel == "." else rel + "/" + f] = fh.read()

    def ask(kind, enc, target, want_status, body, ext=None, path=None):
        for method in ("GET", "HEAD") if r.random() < .3 else ("GET",):
            st, h, got = srv.ask(target, method)
            R.count("requests")
            R.key(info["command"], info["links"], kind, enc, st, method)
            w = dict(info, target=target, method=method, status=st)
            R.expect(want_status(st), "wrong-status", f"{kind} {path!r} ({enc}) answered {st}", **w)
            if st == 200 and body is not None:
                if method == "GET":
                    R.expect(got == body, "wrong-bytes", f"{path!r}: got {len(got)} bytes {got[:80]!r}, the file has {len(body)} bytes {body[:80]!r}", **w)
                    R.count("bodies_compared")
                else:
                    R.expect(got == b"" and h.get("content-length", str(len(body))) == str(len(body)), "wrong-head", f"HEAD {path!r}: {got[:50]!r}, length {h.get('content-length')} of {len(body)}", **w)
                if ext in TYPES:
                    t = h.get("content-type", "").split(";")[0].strip()
                    R.expect(t in TYPES[ext], "wrong-type", f"{path!r} has type {h.get('content-type')!r}", **w)
                    cs = re.search(r"charset=([\w-]+)", h.get("content-type", ""))
                    if ext in (".js", ".css", ".html", ".mjs"):
                        R.expect(not cs or cs[1].lower() in ("utf-8", "utf8"), "wrong-charset", f"{path!r} has type {h.get('content-type')!r}", **w)
                        enc_ = h.get("content-encoding")
                        R.expect(enc_ in (None, "identity"), "encoded", f"{path!r}: content-encoding {enc_}", **w)
                    R.count("types_checked")
    for p, b in sorted(files.items()):
        if only is not None and p not in only and r.random() > .1:
            continue
        if p.split("/")[-1] == "404.html":
            continue
        for enc, t in encodings(r, "/" + p):
            ask("file", enc, t, lambda s: s == 200, b, os.path.splitext(p)[1].lower(), p)
    for d in sorted(dirs):
        if only is not None and r.random() > .3:
            continue
        pre = d + "/" if d else ""
        idx = files.get(pre + "index.html")
        for enc, t in encodings(r, "/" + pre):
            ask("folder" if idx is not None else "folder-without-index", enc, t, (lambda s: s == 200) if idx is not None else (lambda s: s >= 400), idx, ".html", pre)
        if d and idx is not None and not any(c in d for c in "%?#"):
            st, h, got = srv.ask(urllib.parse.quote("/" + d))
            hops = 0
            if st in (301, 302, 303, 307, 308):
                loc = urllib.parse.urlsplit(h.get("location", ""))
                R.expect(loc.netloc in ("", f"127.0.0.1:{srv.port}") and urllib.parse.unquote(loc.path) == "/" + d + "/", "wrong-redirect", f"/{d} redirects to {h.get('location')}", **info)
                st, h, got = srv.ask(loc.path)
            R.expect(st == 200 and got == idx, "folder-not-index", f"/{d} leads to {st} {got[:60]!r}", **info)
            R.count("folders")
    # absent ones
    absent = [p + x for p in r.sample(sorted(files), min(6, len(files))) for x in ("x", ".hash.hash", "/more", ".map")] + ["nope", "nope.html", "docs/nope/", "index.html.bak", "www/index", "index"]
    for p in absent:
        if p in files or p.strip("/") in dirs or p + ".html" in files and False:
            continue
        ask("absent", "plain", urllib.parse.quote("/" + p), lambda s: 400 <= s < 500, None, None, p)
    # hostile ones
    for tmpl in HOSTILE if only is None else r.sample(HOSTILE, 6):
        for rel, ab in r.sample(secrets, min(4, len(secrets))):
            t = tmpl.format(s=urllib.parse.quote(rel), a=urllib.parse.quote(ab.lstrip("/")))
            try:
                st, h, got = srv.ask(t, headers=[("X-Original-URL", "/../" + rel)] if r.random() < .1 else ())
            except (OSError, ValueError):
                continue
            R.count("hostile_requests")
            R.key(info["command"], "hostile", tmpl, st)
            R.expect(b"SECRET-TOKEN" not in got and b"root:x:" not in got, "outside-file", f"{t!r} returned a file outside of the served folder: {got[:80]!r}", target=t, **info)
            if st == 200:
                R.expect(got in files.values() , "unknown-bytes", f"{t!r} returned 200 with {got[:80]!r}, which is no served file", target=t, **info)
    for method in ("POST", "PUT", "DELETE", "PATCH", "OPTIONS"):
        st, h, got = srv.ask("/index.html", method)
        R.expect(st >= 400 or method == "OPTIONS", "method-accepted", f"{method} answered {st}", **info)
    R.expect(srv.alive(), "server-died", "the server process ended", **info)
    st, h, got = srv.ask("/index.html")
    R.expect(st == 200 and got == files.get("index.html"), "server-broken", f"after these requests /index.html answers {st}", **info)
    R.count("surveys")


def run_case(case, tmp):
    R = CaseResult()
    r = random.Random(case["seed"])
    links = r.random() < .5
    w = W.World({"seed": case["seed"], "n": r.choice([4, 8]), "symlinks": links}, tmp)
    folder = w.folder
    own = {}

    def put(rel, n):
        body = ("%s %d\n" % (rel, n)).encode() * r.choice([1, 3]) if not rel.endswith(("big.bin", "empty.txt")) else b"" if rel.endswith("empty.txt") else bytes(r.randrange(256) for _ in range(256)) * 1200
        low = rel.lower()
        if low.endswith((".js", ".mjs")):
            body = b"/* " + body.replace(b"*/", b"") + b" */ let x = 1;\n"
        elif low.endswith(".css"):
            body = b"/* " + body.replace(b"*/", b"") + b" */ .a { color: red }\n"
        elif low.endswith((".html", ".htm")):
            body = b"<!DOCTYPE html>\n<html>\n<head>\n<title>%d</title>\n</head>\n<body>\n</body>\n</html>\n" % n
        fp = f"{folder}/src/public/{rel}"
        os.makedirs(os.path.dirname(fp), exist_ok=True)
        with open(fp, "wb") as f:
            f.write(body)
        own[rel] = fp
    put("index.html", 0)
    for i, n in enumerate(r.sample(NAMES, 14)):
        put(r.choice(FOLDERS) + n, i)
    for f in r.sample(FOLDERS, 4):
        if "noindex" not in f:
            put(f + "index.html", r.randrange(99))
    if r.random() < .2:
        put("404.html", 404)
    watch = case["command"] == "watch"
    w.dev = case["command"] != "run"
    try:
        w.build()
    except P.BuildFailed as e:
        w.failed(R, e)
        return R
    secrets = []
    for s in ["www2/secret.txt", "www.txt", "wwwsecret/index.html", "secret.json", "../secret.env", "../src/partials/secret.html", "../../beside.txt", "www-old/index.html"]:
        p = os.path.normpath(os.path.join(folder, "out", s))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write("SECRET-TOKEN " + s)
        secrets.append((s, p))
    secrets += [("../vanillaplusjs.json", folder + "/vanillaplusjs.json"), ("../../../../../../../../etc/passwd", "/etc/passwd")]
    cwd = r.choice([tmp, folder, f"{folder}/src", "/"])
    srv = Server(tmp, folder, case["command"], cwd)
    info = {"command": case["command"], "links": links}
    top = f"{folder}/out/www"
    try:
        if case["command"] != "run":
            # it has rebuilt with links
            time.sleep(.2)
        survey(R, srv, top, r, info, secrets)
        if not watch:
            for _ in range(2):
                if R.violations:
                    break
                changed = r.sample(sorted(own), 4)
                cached = {}
                for c in changed + r.sample(sorted(own), 2):
                    st, h, got = srv.ask(urllib.parse.quote("/" + c))
                    if "etag" in h:
                        cached[c] = (h, got)
                for c in changed:
                    put(c, r.randrange(100, 999))
                    w.disk._stamp(own[c])
                put(f"new{r.randrange(99)}.txt", 5)
                gone = r.choice([c for c in sorted(own) if c != "index.html"])
                os.remove(own.pop(gone))
                try:
                    w.build()
                except P.BuildFailed as e:
                    w.failed(R, e)
                    return R
                R.count("rebuilds")
                for c, (h, old) in sorted(cached.items()):
                    # a browser which has the former one
                    if c not in own:
                        continue
                    with open(os.path.join(top, c), "rb") as f:
                        now = f.read()
                    cond = [("If-None-Match", h["etag"])] + ([("If-Modified-Since", h["last-modified"])] if "last-modified" in h else [])
                    st, h2, got = srv.ask(urllib.parse.quote("/" + c), headers=cond)
                    R.count("conditional_requests")
                    R.expect(st == 200 and got == now or st == 304 and now == old or c == "404.html", "stale", f"asked for a newer /{c} than before the rebuild: {st} {got[:60]!r}; it is {'unchanged' if old == now else 'changed'}", **info)
                survey(R, srv, top, r, dict(info, after="rebuild"), secrets, only=set(changed))
                st, h, got = srv.ask(urllib.parse.quote("/" + gone))
                R.expect(st >= 400 or gone + "x" == "", "deleted-served", f"/{gone} was removed but answers {st}", **info)
    finally:
        srv.stop()
    R.sample({"case": case, "files": sorted(own)})
    return R
