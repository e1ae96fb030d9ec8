"""Pages with inline scripts and styles are built and edited; each served file made from one is compared with the same code served as a file of its own."""
import hashlib, os, posixpath, random, re
from urllib.parse import urljoin, urlsplit
from common import CaseResult
import cssgen, csstok, htmltree as T, jsgen, minisite as S, project as P, refs
from checks.c14 import Gen as Hinted
from checks.c18 import Img

PROPERTY = "C21"
TIMEOUT = 200
TECHNIQUE = "runtime monitoring: real clean and incremental builds of pages with inline code; differential oracle: what the same code is served as when it is a script or stylesheet of its own next to the page (references compared by what they lead to), on the pages' trees parsed by golang.org/x/net/html"
RULE = ("random pages at several depths (in the head, the body, nested, in noscript, through partials used several times and in each other) with inline code in any number and order, among external references, data blocks, import maps, templates and svg styles; code is random scripts (imports, type hints, ignored imports, "
        "comment-like text) and stylesheets (relative and absolute urls, embedded images, icons, rule imports); then edits which insert, remove, reorder and change pieces. Distinct by (kind of code, type, place, through a partial or not, edit)")
ASSUMPTIONS = ["a relative reference in inline code is relative to the page", "strings in @import rules and dynamic imports are absolute or not used"]
NOTE = "the file made for a piece is compared byte for byte (scripts) or token for token (stylesheets)"

BASE = {"src/public/js/a.js": "console.log(1);\n", "src/public/js/b.js": "export const b = 2;\nexport default b;\n", "src/public/a/near.js": "export default 1;\n", "src/public/near.js": "export default 2;\n", "src/public/css/a.css": ".a { color: red; }\n",
        "src/public/css/main.css": ":root { --col-primary: #112233; --col-primary-dark: #001122; --col-disabled: #cccccc; --icon-size-medium: 2rem; }\n.base { color: red; }\n.base:hover { top: 0 }\n",
        "src/public/css/rules.css": ".big { width: 1px; background: url(/img/x.png); }\n", "src/public/img/x.png": b"\x89PNG1", "src/public/a/x.png": b"\x89PNG2", "src/public/x.png": b"\x89PNG3", "src/public/img/icons/nav.svg": '<svg xmlns="http://www.w3.org/2000/svg"><path fill="#112233"/></svg>'}
SCRIPT_TYPES = [None, None, None, "", "module", "text/javascript", "application/javascript", "TEXT/JavaScript", "Module"]
ATTRS = {"id": ["x", "é"], "class": ["a b", ""], "data-x": ["1 < 2 & \"3\"", "it's"], "nonce": ["abc"], "title": ["T"], "defer": [""], "async": [""], "crossorigin": ["anonymous", ""], "nomodule": [""], "media": ["print", "(min-width: 3em) and (max-width:9em)"], "@load": ["f()"], "referrerpolicy": ["no-referrer"], "x-y": ["a\nb"]}


def setup(base):
    T.setup(base)


def cases(tier, rng):
    q = tier == "quick"
    return [{"seed": rng.randrange(1 << 60), "pages": rng.choice([2, 3]), "edits": 2, "size": rng.choice([1, 3, 6, 10])} for _ in range(64 if q else 900)] + [{"kind": "ends", "seed": 1}]


def has_raw_end(code, tag):
    low = code.lower()
    return "</" + tag in low or ("<!--" in low and "<script" in low) or "\0" in code or "\r" in code or code.startswith("\ufeff")


def is_rel(u):
    return u and not u.startswith(("/", "#")) and not urlsplit(u).scheme


class Code:
    """Random pieces; scripts are known to be valid."""

    def __init__(self, r, folder):
        self.r, self.depth = r, folder.count("/") + 1 if folder else 0
        self.folder, self.shared = folder, False

    def rel(self, p):
        """an address of /p as seen from the page"""
        r = self.r
        f = posixpath.relpath(p, self.folder or ".")
        return r.choice(["/" + p, f if f.startswith(".") else "./" + f])

    def js(self, n):
        r = self.r
        k = r.choice(["program", "imports", "imports", "hints", "text", "blank", "same"])
        if k == "program":
            return k, jsgen.JS(r, comments=r.choice([0, .3])).program(6, 2)
        if k == "imports":
            g = jsgen.JS(r, comments=.1)
            return k, "\n" * r.randrange(2) + "\n".join(g.imp(r.choice([self.rel("js/b.js"), self.rel("near.js"), self.rel("a/near.js"), "bare", "https://e.com/x.js"])) for _ in range(r.choice([1, 2, 3]))) + r.choice(
                ["", f"\nconsole.log({n});\n", f"/*PREPROCESSOR: ignore-import*/\nimport '{r.choice(['/nope.js', './nope.js'])}';\n"])
        if k == "hints":
            g = Hinted(r, "\n")
            g.keys = []
            for _ in range(r.choice([1, 3, 5])):
                g.hints("top")
                g.add(g.one_line(1))
            return k, "\n".join(t for t, _ in g.lines) + r.choice(["", "\n"])
        if k == "text":
            return k, r.choice(["var a = '<!-- no comment -->';", "// <!-- x\nf(a &amp; b);", "x = '&lt;' + \"<b>\" && y < z;", "if (a<b && c>d) { x = `</div>`; }", "<!-- old\nf();\n//-->", "s = '<\\/script>';", "a = 'é名😀\u2028';", "]]>".replace("]]>", "x = [[1]]>0;"), "x='[TEMPLATE: [\"/p.html\"]]'; /*[STACK: [\"pop\"]]*/"])
        if k == "blank":
            return k, r.choice(["", " ", "\n\n", "// c", "/* c */"])
        return k, "same();\n"

    def css(self, n):
        r = self.r
        k = r.choice(["sheet", "urls", "urls", "image", "icon", "rule", "text", "blank", "same"])
        if k == "sheet":
            g = cssgen.CSS(r, urls=["/img/x.png", "https://e.com/y.png", "#z", "/img/x.png?q=1"], comments=.1)
            return k, "".join(g.rule() + g.sp() for _ in range(4))
        if k == "urls":
            u = lambda: r.choice(["url({})", "url('{}')", "url(\"{}\")", "url( '{}' )", "URL({})"]).format(r.choice([self.rel("img/x.png"), self.rel("x.png"), self.rel("a/x.png"), "x.png" if self.folder == "" and not self.shared else "/x.png", self.rel("img/x.png") + r.choice(["?k=1", "#f"]),
                                                                                                              "#frag", "https://e.com/x.png", "//e.com/x.png", "data:,x"]))
            return k, "\n".join(f".u{i} {{ background: {u()}{r.choice(['', ', ' + u()])} }}" for i in range(r.choice([1, 2, 3])))
        if k == "image":
            ims = [Img(r, n, []) for _ in range(r.choice([1, 2]))]
            return k, "\n".join(f".i{i} {{ background: {x.css()} }}" for i, x in enumerate(ims + ims[:r.randrange(2)]))
        if k == "icon":
            return k, "/*! PREPROCESSOR: icon nav primary all-colors all-sizes */ .z { top: 0 }"
        if k == "rule":
            return k, r.choice([".x { top: 1px; /*! PREPROCESSOR: import .base */ }", ".own { top: 1px; }\n.x { /*! PREPROCESSOR: import .base FROM /css/main.css */ }", ".x { /*! PREPROCESSOR: import .big FROM /css/rules.css */ left: 0 }"])
        if k == "text":
            return k, r.choice([".a::before { content: '<!-- x -->'; }", "a > b { content: \"&amp;\" }", "<!-- .a { top: 0 } -->", ".a { content: '<\\/style>' }", "@media (min-width: 1px) { .é { content: '名😀' } }", "/* [TEMPLATE: [\"/p.html\"]] */ .a { top: 0 }", "@import url(/css/a.css);\n.x { top: 0 }", "@charset \"utf-8\"; .x { top: 0 }"])
        if k == "blank":
            return k, r.choice(["", "\n", "/* c */", " .x{}"])
        return k, ".same { top: 0 }\n"


class Piece:
    """One element of a page."""

    def __init__(self, r, kind, ident, code=None, form=None):
        self.kind, self.ident, self.code, self.form = kind, ident, code, form
        self.attrs = {"data-p": ident}
        if kind == "js":
            t = r.choice(SCRIPT_TYPES)
            if t is not None:
                self.attrs["type"] = t
        if kind == "css" and r.random() < .3:
            self.attrs["type"] = "text/css"
        if kind in ("js", "css"):
            for a in r.sample(sorted(ATTRS), r.choice([0, 0, 1, 2, 4])):
                if a not in ("defer", "async", "nomodule", "crossorigin", "referrerpolicy") or kind == "js":
                    self.attrs[a] = r.choice(ATTRS[a])
        if kind == "external":
            self.attrs.update(r.choice([{"src": "/js/a.js"}, {"src": "https://e.com/x.js", "type": "module"}, {"src": "/js/b.js", "type": "module", "id": "e"}]))
        if kind == "data":
            self.attrs["type"], self.code = r.choice([("application/ld+json", '{"a": "1 < 2"}'), ("importmap", '{"imports": {"b": "/js/b.js"}}'), ("text/template", "<div>{{x}}</div>"), ("speculationrules", "{}"), ("application/json", "[1]"), ("x-shader/x-vertex", "void main() {}"), ("text/babel", "import x from './y'")])
        if kind == "svg":
            self.code = r.choice([".a{fill:red}", "@import url(x.css);"])
        self.look = r.randrange(1 << 30)

    def write(self):
        r = random.Random(self.look)
        if self.kind == "link":
            return f'<link rel="stylesheet" href="/css/a.css" data-p="{self.ident}">'
        name = "style" if self.kind in ("css", "svg") else "script"
        name = r.choice([name, name, name.upper()])
        items = list(self.attrs.items())
        r.shuffle(items)
        at = "".join(r.choice([" ", "\n  "]) + (k if v == "" and r.random() < .5 else k + r.choice(["=", " = "]) + '"' + v.replace("&", "&amp;").replace('"', "&quot;") + '"') for k, v in items)
        res = f"<{name}{at}>{self.code or ''}</{name}>"
        return f"<svg>{res}</svg>" if self.kind == "svg" else res


class Pages:
    def __init__(self, r, n, size):
        self.r, self.size, self.n = r, size, 0
        self.partials = {}
        for i in range(3):
            # a partial has no relative references: it is used from anywhere
            self.partials[f"p{i}"] = [x for x in self.items("", i + 1) if not (x[0] == "use" and x[1] >= f"p{i}")]
        self.pages = {}
        while len(self.pages) < n:
            # many have the same name, or the same folder, as others
            folder = r.choice(["", "a/", "a/b/", "b/", "b/a/", "a/b/a/b/", "gen/", "js/", "css/gen/", "index/", "p/"])
            if self.pages and r.random() < .6:
                other = r.choice(list(self.pages)).split("/")
                similar = [folder + other[-1], folder + "/".join(other), "/".join(other[1:]), "/".join(other[:-1]) + other[-1], "/".join([*other[:-1], "x", other[-1]]), "/".join(other[:-1] + ["p"])]
                self.pages[r.choice(similar).lstrip("/")] = None
            else:
                self.pages[folder + r.choice(["p", "index", "x.y", "é", "a-b", "p1", "x"])] = None
        for p in self.pages:
            self.pages[p] = self.items(posixpath.dirname(p), 9)

    def piece(self, folder, relative=True):
        r = self.r
        self.n += 1
        kind = r.choice(["js", "js", "js", "css", "css", "css", "external", "data", "svg", "link"])
        code = form = None
        for _ in range(50):
            if kind in ("js", "css"):
                c = Code(r, folder)
                if not relative:
                    c.rel, c.shared = lambda p: "/" + p, True
                form, code = (c.js if kind == "js" else c.css)(self.n)
                if form == "sheet" and any(is_rel(t[1]) for t in [csstok.tokens(code)[i] for i in csstok.urls(csstok.tokens(code))]):
                    continue  # to files which do not exist
                if has_raw_end(code, {"js": "script", "css": "style"}[kind]):
                    continue
            break
        else:
            code = ""
        return Piece(r, kind, f"i{self.n}", code, form)

    def items(self, folder, nparts):
        r = self.r
        res = []
        for _ in range(r.randrange(self.size + 1)):
            x = r.random()
            if x < .6:
                res.append(("piece", self.piece(folder, nparts == 9), r.choice(["", "div", "noscript", "section"])))
            elif x < .75 and nparts > 1:
                res.append(("use", f"p{r.randrange(min(nparts, 3)) if nparts == 9 else r.randrange(nparts - 1)}"))
            else:
                res.append(("text", r.choice(["<p>t</p>", "text", "<!-- c -->", "<b>x</b>\n"])))
        return res

    def write(self, items):
        out = ""
        for it in items:
            if it[0] == "piece":
                t = it[1].write()
                out += f"<{it[2]}>{t}</{it[2]}>" if it[2] else t
            elif it[0] == "use":
                out += f'<!--[TEMPLATE: ["/{it[1]}.html"]]-->'
            else:
                out += it[1]
        return out

    def files(self):
        res = {f"src/partials/{k}.html": f"<div>{self.write(v)}</div>" for k, v in self.partials.items()}
        for p, items in self.pages.items():
            r = random.Random(p)
            head = [x for x in items[:len(items) // 3] if x[0] == "piece" and not x[2] and x[1].kind != "svg"] if r.random() < .7 else []
            body = [x for x in items if not any(x is y for y in head)]
            res[f"src/public/{p}.html"] = f"<!DOCTYPE html><html lang=en><head><meta charset=utf-8><title>t</title>{self.write(head)}</head><body>{self.write(body)}</body></html>"
            self.order[p] = head + body
        return res

    order = {}

    def expand(self, items, via=False):
        for it in items:
            if it[0] == "piece":
                yield it[1], it[2], via
            elif it[0] == "use":
                yield from self.expand(self.partials[it[1]], True)

    def expected(self, page):
        return list(self.expand(self.order[page]))

    def edit(self):
        r = self.r
        kind = r.choice(["insert", "insert", "remove", "swap", "code", "code", "attrs", "partial", "clear"])
        name = r.choice(sorted(self.pages))
        where, folder, rel = self.pages[name], posixpath.dirname(name), True
        if kind == "partial":
            where, folder, rel = self.partials[r.choice(sorted(self.partials))], "", False
        ps = [i for i, x in enumerate(where) if x[0] == "piece"]
        if kind in ("insert", "partial") or not ps:
            where.insert(r.randrange(len(where) + 1), ("piece", self.piece(folder, rel), r.choice(["", "div"])))
        elif kind == "remove":
            where.pop(r.choice(ps))
        elif kind == "swap":
            r.shuffle(where)
        elif kind == "clear":
            where.clear()
        else:
            i = r.choice(ps)
            old = where[i][1]
            new = Piece(r, old.kind, old.ident, old.code, old.form) if kind == "attrs" and old.kind in ("js", "css") else self.piece(folder, rel)
            where[i] = ("piece", new, where[i][2])
        return kind


def css_means(text, url, served):
    """The tokens of a stylesheet with the urls as what they lead to, and embedded images by content. Relative ones, which are versioned where they
    were made absolute, also without version."""
    toks = csstok.tokens(text)
    for i in csstok.urls(toks):
        u = toks[i][1]
        full = urljoin("https://h" + url, u) if not u.startswith(("#", "data:")) and u else u
        path = urlsplit(full).path
        if full.startswith("https://h/img/gen/"):
            full = "embedded:" + hashlib.sha256(served(path[1:])).hexdigest()
        toks[i] = (toks[i][0], full, is_rel(u), re.sub(r"[?&]v=[^&#]*&pv=[^&#]*", "", full))
    return toks


def css_differs(one, two):
    """The first difference between what is made from inline code and from a file."""
    for s, t in zip(one + [None], two + [None]):
        if s is None or t is None or s[:2] != t[:2]:
            if s and t and s[0] == t[0] in ("url", "string") and len(t) == len(s) == 4 and t[2] and s[3] == t[3]:
                continue
            if s != t:
                return s, t
    return None


def judge(R, st, site, oracle, tmp, label, edit):
    files = st.files()
    dump = {k: v[:2500] for k, v in files.items()}
    pages = sorted(st.pages)
    standalone = {}
    put = {}
    for p in pages:
        d = posixpath.dirname(p)
        for n, (x, _, _) in enumerate(st.expected(p)):
            if x.kind in ("js", "css"):
                f = posixpath.join(d, f"zz-{posixpath.basename(p)}-{n}.{x.kind}")
                standalone[p, n] = f
                put["src/public/" + f] = x.code
    oracle.put(put, gone=[f for f in oracle.mine if f not in put])
    oracle.mine = list(put)
    try:
        oracle.build()
    except P.BuildFailed as e:
        R.count("builds of the code alone which fail")
        R.count("failed: " + str(e).strip().split("\n")[-1][-90:])
        return False
    old = {k for k in site.files if k not in files}
    site.put(files, gone=old)
    site.files = list(files)
    try:
        site.build()
    except P.BuildFailed as e:
        R.fail("fails-inline", f"{label}: the pages fail to build although the same code as files does not: {e}"[-1800:], files=dump)
        return False
    texts = {p: site.served(p + ".html").decode("utf-8") for p in pages}
    used = set()
    for p, g in zip(pages, T.parse(list(texts.values()))):
        seen = []

        def walk(n, parent):
            if n[0].startswith("#"):
                return
            a = dict(map(tuple, n[1]))
            if "data-p" in a:
                seen.append((n, a, parent))
            for c in n[2]:
                walk(c, n[0])
        for n in g["tree"]:
            walk(n, None)
        want = st.expected(p)
        if not R.expect([a["data-p"] for _, a, _ in seen] == [x.ident for x, _, _ in want], "pieces-lost-or-reordered", f"{label}: {p}.html has {[a['data-p'] for _, a, _ in seen]}, expected {[x.ident for x, _, _ in want]}", files=dump, served=texts[p][:3000]):
            continue
        for i, ((n, a, parent), (x, wrap, via)) in enumerate(zip(seen, want)):
            w = {"page": p, "piece": x.write()[:1500], "got": str(n)[:1500], "files": dump}
            if wrap or x.kind == "svg":
                wrap = "svg svg" if x.kind == "svg" else wrap
                R.expect(parent == wrap, "moved-elsewhere", f"{label}: {x.ident} of {p}.html is in {parent}, expected {wrap}", **w)
            if x.kind in ("external", "link"):
                b = {k: v.split("?")[0] for k, v in a.items()}
                ref = {"data-p": x.ident, "rel": "stylesheet", "href": "/css/a.css"} if x.kind == "link" else x.attrs
                R.expect(n[0] == ("link" if x.kind == "link" else "script") and b == ref and n[2] == [], "external-changed", f"{label}: {x.write()} of {p}.html became {n}", **w)
                continue
            if x.kind in ("data", "svg"):
                R.expect(n[0] == ("svg style" if x.kind == "svg" else "script") and a == x.attrs and n[2] == [["#text", x.code]], "data-moved", f"{label}: {x.write()} of {p}.html became {n}", **w)
                continue
            R.key(x.kind, x.form, x.attrs.get("type"), wrap, via, edit)
            R.count(f"{x.kind}:{x.form}")
            R.count("through a partial", via)
            attr = "src" if x.kind == "js" else "href"
            keep = {**x.attrs, **({"rel": "stylesheet"} if x.kind == "css" else {})}
            url = a.pop(attr, "")
            if not R.expect(n[0] == ("script" if x.kind == "js" else "link") and not n[2] and url, "still-inline", f"{label}: {x.ident} of {p}.html is not a reference: {n}", **w):
                continue
            R.expect(a == keep, "attributes", f"{label}: {x.ident} of {p}.html has attributes {a}, expected {keep}", **w)
            path, v, pv = refs.split(url)
            R.expect(path not in used, "file-shared", f"{label}: {path} is used for two pieces", **w)
            used.add(path)
            if not R.expect(path.startswith("/") and os.path.isfile(site.path("out/www" + path)), "no-file", f"{label}: {x.ident} of {p}.html refers to {url}, which is not served", **w):
                continue
            data = site.served(path[1:])
            R.expect(v == refs.b64(data), "version", f"{label}: {url} has not the version of the file {refs.b64(data)}", **w)
            alone = standalone[p, i]
            other = oracle.served(alone)
            w.update(outlined=data.decode("utf-8", "replace")[:2000], alone=other.decode("utf-8", "replace")[:2000])
            if x.kind == "js":
                R.expect(data == other, "script-altered", f"{label}: the code of {x.ident} in {p}.html is served differently than in a file", **w)
            else:
                d = css_differs(css_means(data.decode("utf-8"), path, site.served), css_means(other.decode("utf-8"), "/" + alone, oracle.served))
                R.expect(d is None, "style-altered", f"{label}: the code of {x.ident} in {p}.html is served differently than in a file: {d}", **w)
    gen = {"/" + f for f in site.out() if f.startswith(("js/gen/", "css/gen/")) and f.endswith((".js", ".css"))}
    R.expect(gen == used, "stale-or-extra-files", f"{label}: files made from inline code which no page uses: {sorted(gen - used)[:5]}", files=dump)
    return True


def run_case(case, tmp):
    R = CaseResult()
    r = random.Random(case["seed"])
    if case.get("kind") == "ends":
        return ends(R, tmp)
    st = Pages(r, case["pages"], case["size"])
    st.order = {}
    site = S.Site(tmp, BASE, host="example.com")
    site.files = []
    oracle = S.Site(tmp, BASE, name="alone", host="example.com")
    oracle.mine = []
    ok = judge(R, st, site, oracle, tmp, "first build", "")
    for e in range(case["edits"] if ok else 0):
        k = st.edit()
        ok = judge(R, st, site, oracle, tmp, f"after edit {e} ({k})", k)
        if not ok:
            break
    R.sample({"page": next(iter(st.files().values()))[:400]})
    return R


def ends(R, tmp):
    """Documents which end within the code."""
    page = "<!DOCTYPE html><html><head><title>t</title></head><body><p>x</p>"
    files = {"src/public/s.html": page + "<script>f(1);", "src/public/t.html": page + "<style>.a { top: 0 }\n", "src/public/u.html": page + "<script>", "src/public/v.html": page + "<script type=module>\nimport '/js/a.js';\n"}
    site = S.Site(tmp, {**BASE, **files}, host="example.com")
    site.build()
    for n, what in (("s", b"f(1);"), ("t", b".a"), ("u", b""), ("v", b"/js/a.js?v=")):
        t = site.served(n + ".html").decode()
        us = [u for k, u in refs.html_refs(t.encode()) if k in ("script", "stylesheet")]
        if R.expect(len(us) == 1 and os.path.exists(site.path("out/www" + us[0].split("?")[0])), "code-at-the-end-lost", f"{n}.html: {t}", served=t):
            R.expect(what in site.served(us[0].split("?")[0][1:]), "code-at-the-end-altered", f"{n}.html: {us}", served=t)
        R.key("ends", n)
    return R
