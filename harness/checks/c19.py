"""Pages built by the real builder, compared with their sources as documents by an independent parser."""
import glob, os, random, re
from common import CaseResult
import htmlgen, htmltree as T, minisite as S, project as P

PROPERTY = "C19"
TECHNIQUE = "runtime monitoring: differential oracle over served pages (golang.org/x/net/html and the standard library's parser against the generator's own tree and the source)"
RULE = ("real builds of sites whose pages are (a) random conforming documents written down in random ways, (b) the documents of the html5lib/WebKit parser test suites, (c) pages from other packages; "
        "the tree of each served page must be the source's tree with the documented rewrites. Distinct by (kind, element, its parent)")
NOTE = "(b) and (c) are limited to documents which can be written down at all (a tree which no text parses to is excluded) and which the HTML library used reads as the standard says"
ASSUMPTIONS = ["a declaration of the encoding is added to a page without one", "a line break is added at the end of a page", "values of boolean attributes are not significant"]
TABLE = ("table", "tbody", "thead", "tfoot", "tr", "colgroup", "select", "optgroup", "option")  # styles are not allowed there, and the links they become are moved out
TESTS = os.path.join(T.NET, "html/testdata")
FILES = {"src/public/js/a.js": "console.log(1);\n", "src/public/js/deep/b.js": "export const b = 2;\n", "src/public/css/a.css": ".a { color: red; }\n", "src/public/css/deep/b.css": "\n", "src/public/favicon.ico": b"\0"}
LINKS = ["/js/a.js", "/js/deep/b.js", "/css/a.css", "/css/deep/b.css"]


def setup(base):
    T.setup(base)


def suite():
    res = []
    for f in sorted(glob.glob(TESTS + "/**/*.dat", recursive=True)):
        if "tree-construction" not in f and "/go/" not in f:
            continue
        with open(f, encoding="utf-8", errors="replace") as h:
            for c in re.split(r"(?m)^#data\n", h.read())[1:]:
                if "#document-fragment" not in c and "#script-on" not in c:
                    res.append(c[:c.index("\n#")] if "\n#" in c else c)
    return res


def real_pages():
    res = []
    for pat in ("/usr/lib/node_modules/npm/docs/output/*/*.html", TESTS + "/*.html", "/opt/veriftools/**/site-packages/**/htmlfiles/*.html", "/opt/veriftools/node/node_modules/*/doc/*.html",
                "/opt/veriftools/node/node_modules/*/coverage/**/*.html", "/usr/share/doc/**/*.html", "/root/go/pkg/mod/honnef.co/**/*.html", "/root/go/pkg/mod/github.com/smartystreets/**/*.html",
                "/opt/veriftools/go1.27.3/src/cmd/vendor/**/*.html", "/opt/veriftools/go1.27.3/src/cmd/trace/*.html", "/opt/veriftools/go1.27.3/doc/*.html", "/opt/veriftools/tlapm/**/src/DOC/**/*.html"):
        res += [p for p in sorted(glob.glob(pat, recursive=True)) if os.path.isfile(p) and os.path.getsize(p) < 120000]
    return res


def cases(tier, rng):
    quick = tier == "quick"
    res = [{"kind": "generated", "seed": rng.randrange(1 << 60), "n": 25, "size": rng.choice([5, 15, 40, 120])} for _ in range(40 if quick else 800)]
    n = len(suite())
    ids = list(range(n))
    rng.shuffle(ids)
    if quick:
        ids = ids[:600]
    res += [{"kind": "suite", "ids": ids[i:i + 50]} for i in range(0, len(ids), 50)]
    ps = real_pages()
    rng.shuffle(ps)
    ps = ps[:40] if quick else ps
    res += [{"kind": "pages", "paths": ps[i:i + 10]} for i in range(0, len(ps), 10)]
    return res + [{"kind": "known"}]


def ok_to_judge(docs):
    """The documents which have a tree that can be written down, and which the library reads as the standard says."""
    res = []
    for d, g in zip(docs, T.parse(docs)):
        if "error" in g or not g["stable"] or "\r" in "".join(n[1] for n in T.walk(g["tree"]) if n[0] == "#text") or any(n[0] == "#doctype" and not n[1] for n in g["tree"]):
            continue
        try:
            t = T.html5lib_tree(d)
        except Exception:
            continue
        if T.compare(g["tree"], t) is None:
            res.append((d, g["tree"]))
    return res


def run_case(case, tmp):
    R = CaseResult()
    kind = case["kind"]
    if kind == "known":
        return known(R, tmp)
    if kind == "generated":
        r = random.Random(case["seed"])
        pages = []
        for _ in range(case["n"]):
            g = htmlgen.Gen(r, case["size"], LINKS)
            t = g.document()
            pages.append((g.nodes(t), t))
        for (s, t), g in zip(pages, T.parse([p[0] for p in pages])):
            d = T.compare(t, g["tree"])
            assert d is None, ("the generator wrote a different document", d, len(s))
    else:
        if kind == "suite":
            docs = suite()
            docs = [docs[i] for i in case["ids"]]
        else:
            docs = []
            for p in case["paths"]:
                with open(p, "rb") as f:
                    b = f.read()
                try:
                    # references to the other package's own files would name nothing here
                    docs.append(re.sub(r"""url\((["']?)(?![a-z]+:|/)""", r"url(\1https://example.net/", re.sub(r"""((?:href|src)\s*=\s*["']?)/(?!/)""", r"\1https://example.net/", b.decode("utf-8"))).replace("\r\n", "\n").replace("\r", "\n"))
                except UnicodeDecodeError:
                    pass
        pages = [(d, t) for d, t in ok_to_judge(docs) if not any(n[0] == "#comment" and re.match(r"\s*\[(TEMPLATE|STACK|IMAGE)", n[1]) for n in T.walk(t))
                 and not any(n[0] == "plaintext" or n[0] in TABLE and any(c[0] == "style" for c in n[2]) for n in T.walk(t))]
        R.count("suitable documents", len(pages))
        r = random.Random(len(pages))
    names = [r.choice(["", "a/", "a/b/c/"]) + f"p{i}" for i in range(len(pages))]
    files = {f"src/public/{n}.html": s for n, (s, t) in zip(names, pages)}
    site = S.Site(tmp, {**FILES, **files}, host="example.com")
    try:
        site.build()
    except P.BuildFailed as e:
        for n, (s, t) in zip(names, pages):
            one = S.Site(tmp, {**FILES, f"src/public/{n}.html": s}, name="one_" + n.replace("/", "_"), host="example.com")
            try:
                one.build()
            except P.BuildFailed as e2:
                R.fail("page-fails-the-build", f"a valid page fails the build: {e2}"[:1500], page=s)
        if not R.violations:
            R.fail("pages-fail-together", f"pages which build alone fail together: {e}"[:1500])
        return R
    served = [site.served(n + ".html") for n in names]
    texts = []
    for n, b in zip(names, served):
        try:
            texts.append(b.decode("utf-8"))
        except UnicodeDecodeError as e:
            R.fail("not-utf8", f"{n}.html: {e}", page=files[f"src/public/{n}.html"])
            texts.append("")
    for n, (s, t), out, g in zip(names, pages, texts, T.parse(texts)):
        want = t
        got = [T.unversioned(x, (f"/js/gen/{n}/", f"/css/gen/{n}/")) for x in g["tree"]]
        want = [T.expected(T.unversioned(x), lambda k, x: "@script" if k == "js" else "@link") for x in want]
        d = T.compare(*T.with_charset(want, got))
        R.expect(d is None, "document-changed:" + (re.sub(r"[^a-z#]", "", d["what"]) if d else ""), f"{n}.html: {d}"[:1800], page=s[:3000], served=out[:3000])
        if kind == "generated":
            cs = [x[1] for x in T.walk(t) if x[0] == "#comment"]
            R.expect(T.comments(out) == cs, "comments-changed", f"{n}.html: {T.comments(out)} != {cs}"[:1500], page=s[:3000])
        R.eval(sum(1 for _ in T.walk(t)))

        def keys(ns, parent):
            for x in ns:
                R.key(kind, x[0] if x[0].startswith("#") or " " in x[0] else "<" + x[0] + ">", parent)
                if not x[0].startswith("#"):
                    keys(x[2], x[0])
        keys(t, "")
    R.count("pages " + kind, len(pages))
    if texts:
        R.sample({"page": pages[0][0][:300], "served": texts[0][:300]})
    return R


KNOWN = {
    "template-rows-lost": "<!DOCTYPE html><html><head><title>t</title></head><body><template id=\"x\"><tr><td>1</td></tr></template></body></html>",
    "select-rule-lost": "<!DOCTYPE html><html><head><title>t</title></head><body><select><option>a</option><hr><option>b</option></select></body></html>",
}


def known(R, tmp):
    for k, s in KNOWN.items():
        site = S.Site(tmp, {"src/public/index.html": s}, name=k)
        site.build()
        a, b = T.parse([s, site.served("index.html").decode()])
        d = T.compare(*T.with_charset(a["tree"], b["tree"]))
        R.expect(d is None, k, f"{d}", page=s)
    return R
