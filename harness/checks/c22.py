"""Pages with canonical links and share urls at many places are built; each address is compared with what a browser's URL parser makes of the source."""
import posixpath, random
from common import CaseResult
import htmltree as T, minisite as S, project as P

PROPERTY = "C22"
TECHNIQUE = "runtime monitoring: real builds of random pages and configurations; oracle: the WHATWG URL parser of node for what a relative url means on the page, over the served trees parsed by golang.org/x/net/html; expected failures without a host"
RULE = ("random sites with pages at several depths and hosts, each with canonical links and og:url properties without url, with empty, root-relative, relative, parent, query, fragment, network-path and absolute urls, in any attribute order and spelling, in the head, in noscript, through partials, among similar elements; edits of the urls and "
        "moves of pages with incremental builds; the same without host. Distinct by (element, form of the url, depth of the page, place)")
ASSUMPTIONS = ["names of pages have no percent sign, number sign or question mark", "the link type and the property are written as documented (rel=\"canonical\", property=\"og:url\", as the only type and in lower case)"]

BASE = {"src/public/js/a.js": "console.log(1);\n"}
FORMS = {
    "absent": [None], "empty": [""], "root": ["/"], "root-path": ["/x.html", "/a/b/", "/account", "/é", "/a b.html", "/x?y=/z&k=1", "/x#f", "/a/../b.html", "/./x", "/http://x.y/", "/%20"],
    "relative": ["x.html", "a/b.html", "./x.html", "b/", ".", "./", "é.html", "x.html?y=1&z=//k", "x.html#y:z", "a/b:c"], "parent": ["..", "../", "../x.html", "../../x.html", "a/../../b"], "query": ["?x=1", "?u=https://e.com/"], "fragment": ["#top", "#a:b"],
    "network": ["//other.org/x.html", "//other.org"], "absolute": ["https://other.org/x.html", "http://other.org", "https://example.com/y.html?x=1&y=2#z", "HTTPS://Other.org/", "https://other.org/a/../b", "https://other.org/é b", "android-app://x/y", "https://h%2F.com", "https://e.com:8443/%E9"],
}
HOSTS = ["example.com", "www.example.com", "example.com:8080", "localhost:8888", "sub-domain.example.co.uk", "xn--bcher-kva.example", "127.0.0.1"]
EXTRA = {"id": ["c", "é"], "data-x": ["/a.html", "a \"b\" & c"], "title": ["T"], "hreflang": ["en"], "media": ["print"], "class": ["a b"], "@x": ["1"], "crossorigin": [""], "name": ["n"], "itemprop": ["url"]}
DECOYS = ['<link rel="alternate" href="/x.html">', '<meta property="og:image" content="/i.png">', '<meta name="og:url" content="/x">', '<meta property="og:title" content="canonical">', '<link rel="next" href="x.html">', '<a href="/x.html" rel="canonical">x</a>', '<script data-rel="canonical" src="/js/a.js"></script>',
          '<meta name="twitter:url" content="/x">', '<!-- <link rel="canonical"> -->', '<meta content="og:url">', '<link href="/canonical" rel="help">']


def setup(base):
    T.setup(base)


def cases(tier, rng):
    q = tier == "quick"
    return [{"seed": rng.randrange(1 << 60), "edits": 3} for _ in range(60 if q else 900)] + [{"kind": "nohost", "seed": rng.randrange(1 << 60)} for _ in range(12 if q else 120)]


class El:
    def __init__(self, r, ident, form=None):
        self.ident, self.name = ident, r.choice(["link", "meta"])
        self.form = form or r.choice(sorted(FORMS))
        self.url = r.choice(FORMS[self.form])
        self.attr = "href" if self.name == "link" else "content"
        key = {"rel": "canonical"} if self.name == "link" else {"property": "og:url"}
        extra = {k: r.choice(EXTRA[k]) for k in r.sample(sorted(EXTRA), r.choice([0, 0, 1, 3]))}
        if r.random() < .15:
            extra["content" if self.name == "link" else "href"] = "/kept"
        self.attrs = {**key, **extra, "data-p": ident}
        self.look = r.randrange(1 << 30)

    def write(self):
        r = random.Random(self.look)
        items = list(self.attrs.items()) + ([] if self.url is None else [(self.attr, self.url)])
        r.shuffle(items)

        def val(v):
            e = lambda t: "".join(f"&#{ord(c)};" if r.random() < .1 else {"&": "&amp;", '"': "&quot;", "'": "&#39;"}.get(c, c) for c in t)
            if v and not set(v) & set(" \"'=<>`&\n/é") and r.random() < .3:
                return v
            q = r.choice("\"\"'")
            return q + e(v) + q
        n = r.choice([self.name, self.name, self.name.upper()])
        at = "".join(r.choice([" ", "\n ", "  "]) + (r.choice([k, k.upper()]) if k.isalpha() else k) + (r.choice(["=", "=", " = "]) + val(v) if v or r.random() < .7 else "") for k, v in items)
        return f"<{n}{at}{r.choice(['', ' ', ' /'])}>"


class Site:
    def __init__(self, r, nohost=False):
        self.r, self.n = r, 0
        self.forms = ["absolute"] if nohost else None
        self.partials = {f"p{i}": self.items(False) for i in range(2)}
        self.pages = {r.choice(["", "a/", "a/b/", "blog/2020/", "é/"]) + f"{r.choice(['index', 'x', 'a.b', 'é', 'a-b', 'a b', 'canonical'])}{i or ''}": self.items() for i in range(r.choice([1, 2, 4]))}

    def el(self):
        self.n += 1
        return El(self.r, f"e{self.n}", self.r.choice(self.forms) if self.forms else None)

    def items(self, use=True):
        r = self.r
        res = []
        for _ in range(r.choice([1, 2, 4])):
            x = r.random()
            if x < .65:
                res.append(("el", self.el(), r.choice(["", "", "noscript"])))
            elif x < .8 and use:
                res.append(("use", r.choice(sorted(self.partials)), None))
            else:
                res.append(("decoy", r.choice(DECOYS), None))
        return res

    def write(self, items):
        return "\n".join(i[1] if i[0] == "decoy" else f'<!--[TEMPLATE: ["/{i[1]}.html"]]-->' if i[0] == "use" else f"<{i[2]}>{i[1].write()}</{i[2]}>" if i[2] == "noscript" else i[1].write() for i in items)

    def files(self):
        res = {f"src/partials/{k}.html": self.write(v) for k, v in self.partials.items()}
        for p, v in self.pages.items():
            ok = lambda i: not (i[0] == "decoy" and i[1].startswith("<a "))
            res[f"src/public/{p}.html"] = "<!DOCTYPE html><html lang=en><head><meta charset=utf-8><title>t</title>" + self.write([i for i in v if ok(i)]) + "</head><body>" + self.write([i for i in v if not ok(i)]) + "<p>x</p></body></html>"
        return res

    def expected(self, items, via=False):
        for i in items:
            if i[0] == "el":
                yield i[1], i[2], via
            elif i[0] == "use":
                yield from self.expected(self.partials[i[1]], True)

    def edit(self):
        r = self.r
        k = r.choice(["change", "change", "partial", "move", "add"])
        p = r.choice(sorted(self.pages))
        where = self.pages[p]
        if k == "partial":
            where = self.partials[r.choice(sorted(self.partials))]
        if k == "move":
            q = r.choice(["", "a/", "a/b/", "moved/"]) + posixpath.basename(p) + "m"
            self.pages[q] = self.pages.pop(p)
        elif k == "add":
            where.append(("el", self.el(), ""))
        else:
            where[r.randrange(len(where))] = ("el", self.el(), "")
        return k


def judge(R, st, site, host, label, edit):
    files = st.files()
    gone = [f for f in site.files if f not in files]
    site.put(files, gone=gone)
    site.files = list(files)
    try:
        site.build(dev=site.dev)
    except P.BuildFailed as e:
        R.fail("fails", f"{label}: {e}"[-1500:], files=files)
        return False
    pages = sorted(st.pages)
    texts = [site.served(p + ".html").decode("utf-8") for p in pages]
    ask = []
    for p, text, g in zip(pages, texts, T.parse(texts)):
        seen = [(n, dict(map(tuple, n[1]))) for n in T.walk(g["tree"]) if not n[0].startswith("#") and any(k == "data-p" for k, v in n[1])]
        want = list(st.expected(st.pages[p]))
        # the content of noscript in the head may be text to this parser
        if not R.expect([a["data-p"] for _, a in seen] == [x.ident for x, _, _ in want], "elements-lost", f"{label}: {p}.html has {[a['data-p'] for _, a in seen]}, expected {[x.ident for x, _, _ in want]}", files=files, served=text[:3000]):
            continue
        for (n, a), (x, wrap, via) in zip(seen, want):
            w = {"page": p, "source": x.write(), "served": str(n), "host": host, "files": files}
            url = a.pop(x.attr, None)
            R.expect(n[0] == x.name and a == x.attrs, "attributes", f"{label}: {x.write()} of {p}.html became {n}", **w)
            R.key(x.name, x.form, p.count("/"), wrap, via, edit)
            R.count(f"{x.name}:{x.form}")
            if x.form == "absolute":
                R.expect(url == x.url, "absolute-changed", f"{label}: {x.url} of {p}.html became {url}", **w)
            elif x.form == "empty":
                R.expect(url == f"https://{host}", "empty", f"{label}: the empty url of {p}.html became {url}", **w)
            elif R.expect(url is not None and url.startswith("https://"), "not-absolute", f"{label}: {x.write()} of {p}.html became {url}", **w):
                ask.append((x.url or "", f"https://{host}/{p}.html", url, label, w, x.form))
    if ask:
        r1 = S.node("urls.js", [[a[0], a[1]] for a in ask])
        r2 = S.node("urls.js", [[a[2], None] for a in ask])
        for (u, base, got, lab, w, form), want, have in zip(ask, r1, r2):
            R.expect(have == want and want is not None, "wrong-url:" + form, f"{lab}: {u!r} on {base} became {got}, which means {have}, expected {want}", **w)
            if form == "absent":
                R.expect(got == base, "own-path", f"{lab}: the url of {base} became {got}", **w)
            if form in ("root", "root-path") and "/." not in u:
                R.expect(got == "https://" + w["host"] + u, "root-relative", f"{lab}: {u} on {base} became {got}", **w)
    return True


def run_case(case, tmp):
    R = CaseResult()
    r = random.Random(case["seed"])
    if case.get("kind") == "nohost":
        return nohost(R, r, tmp)
    st = Site(r)
    host = r.choice(HOSTS)
    site = S.Site(tmp, BASE, host=host)
    site.files, site.dev = [], r.random() < .3
    ok = judge(R, st, site, host, "first build", "")
    for i in range(case["edits"] if ok else 0):
        k = st.edit()
        if not judge(R, st, site, host, f"after edit {i} ({k})", k):
            break
    R.sample({"host": host, "page": next(iter(v for k, v in st.files().items() if "public" in k))[:400]})
    return R


def nohost(R, r, tmp):
    """Without a host: fine as long as no page needs it."""
    st = Site(r, nohost=True)
    site = S.Site(tmp, BASE)
    site.files, site.dev = [], False
    if not judge(R, st, site, None, "no host, no need", "nohost"):
        return R
    form = r.choice([f for f in FORMS if f != "absolute"])
    x = El(r, "need", form)
    place = r.choice(["page", "page", "partial"])
    target = st.pages[sorted(st.pages)[0]]
    target.append(("el", x, r.choice(["", "noscript"])) if place == "page" else ("use", "need", None))
    if place == "partial":
        st.partials["need"] = [("el", x, "")]
    files = st.files()
    fresh = r.random() < .5
    s2 = S.Site(tmp, {**BASE, **files}, name="fresh") if fresh else site
    if not fresh:
        site.put(files)
    try:
        s2.build()
        R.fail("missing-host-builds", f"{x.write()} in a {place} builds without a host: {s2.served(sorted(st.pages)[0] + '.html')[:1500]!r}", files=files)
    except P.BuildFailed:
        R.eval()
        R.count("fails without host")
        R.key("nohost", x.name, form, place, fresh)
    # with a host it builds
    s3 = S.Site(tmp, {**BASE, **files}, name="with", host="example.com")
    s3.files, s3.dev = list(files), False
    judge(R, st, s3, "example.com", "with host", "host")
    return R
