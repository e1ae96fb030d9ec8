"""Parses HTML with golang.org/x/net/html, an implementation of the standard which is independent of the builder's parser."""
import html as H, json, os, re, shutil, subprocess
from html.parser import HTMLParser
from htmlgen import BOOLEAN

HERE = os.path.dirname(os.path.abspath(__file__))
NET = "/root/go/pkg/mod/golang.org/x/net@v0.61.0"
BIN = [None]


def setup(base):
    """Builds the parser (about 10 s)."""
    src = os.path.join(base, "htmltree_src")
    shutil.copytree(os.path.join(HERE, "go/htmltree"), src)
    out = os.path.join(base, "htmltree")
    env = {**os.environ, "GOCACHE": os.path.join(base, "gocache"), "GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOTOOLCHAIN": "local", "GOTELEMETRY": "off", "GOMODCACHE": os.path.join(base, "nomod"), "GOPATH": os.path.join(base, "nopath")}
    p = subprocess.run(["go", "build", "-o", out, "."], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError("go build: " + p.stdout.decode()[-2000:])
    os.chmod(out, 0o755)
    BIN[0] = out


def parse(docs, context=""):
    """[{tree, stable} or {error}] for each text."""
    inp = "\n".join(json.dumps({"html": d, "context": context}) for d in docs).encode("utf-8", "surrogatepass")
    p = subprocess.run([BIN[0]], input=inp, stdout=subprocess.PIPE, timeout=110)
    if p.returncode:
        raise RuntimeError("htmltree failed")
    return [json.loads(l) for l in p.stdout.decode("utf-8").split("\n") if l]


def is_html(n):
    return not n[0].startswith("#") and " " not in n[0]


JS_TYPES = {"", "module", "text/javascript", "application/javascript", "text/ecmascript", "application/ecmascript", "text/x-javascript", "application/x-javascript", "text/x-ecmascript", "application/x-ecmascript",
            "text/jscript", "text/livescript", "text/javascript1.0", "text/javascript1.1", "text/javascript1.2", "text/javascript1.3", "text/javascript1.4", "text/javascript1.5"}


def inline_kind(n):
    """'js' or 'css' for an element whose code is moved to a file."""
    if not is_html(n):
        return None
    a = dict(map(tuple, n[1]))
    if n[0] == "style":
        return "css"
    if n[0] == "script" and "src" not in a and a.get("type", "").strip(" \t\n\f\r").lower() in JS_TYPES:
        return "js"


TAG = re.compile(r"^(/[^?#]*)\?v=[A-Za-z0-9_\-%=]+&pv=[0-9.]+$")


def expected(n, gen):
    """The source's tree with the documented rewrites. gen(kind, node) gives the url of moved code."""
    if n[0].startswith("#"):
        return n
    k = inline_kind(n)
    if k:
        a = dict(map(tuple, n[1]))
        if k == "js":
            a["src"] = gen(k, n)
            return ["script", sorted(map(list, a.items())), []]
        a["href"], a["rel"] = gen(k, n), "stylesheet"
        return ["link", sorted(map(list, a.items())), []]
    return [n[0], n[1], [expected(c, gen) for c in n[2]]]


def unversioned(n, gen=None):
    """A served tree without the version tags of script, stylesheet and preload references; references to files made from the page's inline code (their
    paths start with one of gen) become @script or @link."""
    if n[0].startswith("#"):
        return n
    a = n[1]
    if n[0] in ("script", "link"):
        which = "src" if n[0] == "script" else "href"
        d = dict(map(tuple, a))
        if n[0] == "script" or d.get("rel") in ("stylesheet", "preload"):
            m = TAG.match(d.get(which, ""))
            if m:
                d[which] = "@" + n[0] if gen is not None and m.group(1).startswith(gen) else m.group(1)
                a = sorted(map(list, d.items()))
    return [n[0], a, [unversioned(c, gen) for c in n[2]]]


def norm(trees):
    """Without what does not matter: values of boolean attributes, line breaks at the end of the page; comments up to
    character references (which this parser decodes in comments)."""
    def f(n):
        if n[0] == "#comment":
            return [n[0], H.unescape(n[1])]
        if n[0].startswith("#"):
            return list(n)
        return [n[0], [[k, "" if k in BOOLEAN else v] for k, v in n[1]], [f(c) for c in n[2]]]

    def strip(kids):
        if kids and kids[-1][0] == "#text":
            kids[-1][1] = kids[-1][1].rstrip(" \t\n\f\r")
            if not kids[-1][1]:
                kids.pop()
    trees = [f(n) for n in trees]
    for n in trees:
        if n[0] == "html":
            strip(n[2])
            for b in n[2]:
                if b[0] in ("body", "frameset"):
                    strip(b[2])
    return trees


def first_difference(a, b, path=""):
    if a == b:
        return None
    if isinstance(a[0], str) and a[0] == b[0] and not a[0].startswith("#"):
        p = path + "/" + a[0]
        if a[1] != b[1]:
            return {"at": p, "expected": a[1], "got": b[1], "what": "attributes"}
        for x, y in zip(a[2], b[2]):
            d = first_difference(x, y, p)
            if d:
                return d
        return {"at": p, "expected": [brief(x) for x in a[2]], "got": [brief(x) for x in b[2]], "what": "children"}
    return {"at": path, "expected": brief(a), "got": brief(b), "what": a[0] if a[0].startswith("#") else "element"}


def brief(n):
    return n if n[0].startswith("#") else [n[0], n[1], "..."]


def with_charset(source, served):
    """The served page declares its encoding: the declaration added to a page without one is left out of the served
    trees, and the source's declarations are brought up to date."""
    def declares(n):
        a = dict(map(tuple, n[1]))
        return "charset" in a or a.get("http-equiv", "").lower() == "content-type" and "charset" in a.get("content", "").lower()

    def f(n):
        if n[0] == "meta" and declares(n):
            return ["meta", [[k, "utf-8" if k == "charset" else re.sub("(?i) *charset=.*", " charset=utf-8", v) if k == "content" else v] for k, v in n[1]], n[2]]
        return n if n[0].startswith("#") else [n[0], n[1], [f(c) for c in n[2]]]

    def head(trees):
        return next((h for n in trees if n[0] == "html" for h in n[2] if h[0] == "head"), None)
    source = [f(n) for n in source]
    h, g = head(source), head(served)
    if h and g and not any(n[0] == "meta" and declares(n) for n in h[2]) and g[2][:1] == [["meta", [["charset", "utf-8"]], []]]:
        g[2][:] = g[2][1:]
    return source, served


def compare(a, b):
    return first_difference(["root", [], norm(a)], ["root", [], norm(b)])


def walk(trees):
    for n in trees:
        yield n
        if not n[0].startswith("#"):
            yield from walk(n[2])


class _Comments(HTMLParser):
    def __init__(self):
        super().__init__()
        self.found = []

    def handle_comment(self, data):
        self.found.append(data)


def comments(text):
    """The comments of a page, by the standard library's parser."""
    p = _Comments()
    p.feed(text)
    p.close()
    return p.found


def html5lib_tree(text):
    """The tree as the builder's own parser library reads it."""
    import html5lib
    doc = html5lib.parse(text, treebuilder="dom")
    PRE = {"http://www.w3.org/2000/svg": "svg ", "http://www.w3.org/1998/Math/MathML": "math "}

    def conv(n):
        if n.nodeType == n.TEXT_NODE:
            return ["#text", n.data]
        if n.nodeType == n.COMMENT_NODE:
            return ["#comment", n.data]
        if n.nodeType == n.DOCUMENT_TYPE_NODE:
            a = []
            if n.publicId or n.systemId:
                a = [["public", n.publicId or ""], ["system", n.systemId or ""]]
            return ["#doctype", n.name, a]
        return [PRE.get(n.namespaceURI, "") + n.tagName, sorted([n.attributes.item(i).name, n.attributes.item(i).value] for i in range(n.attributes.length)), kids(n)]

    def kids(n):
        res = []
        for c in n.childNodes:
            v = conv(c)
            if v[0] == "#text" and res and res[-1][0] == "#text":
                res[-1][1] += v[1]
            else:
                res.append(v)
        return res
    return kids(doc)
