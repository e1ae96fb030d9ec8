"""Pages and partials with template commands through the real builder; the served documents against an interpreter of the commands."""
import os, random
from common import CaseResult
import htmltree as T, minisite as S, project as P, tmplgen
from checks.c19 import FILES, LINKS

PROPERTY = "C20"
TECHNIQUE = "runtime monitoring: reference-interpreter oracle over the document trees of served pages (parsed by golang.org/x/net/html), on real builds of random template programs; expected failures of programs with no meaning"
RULE = ("random libraries of partials (head, block, inline and text content; nested, given literal, numeric and passed-on variables, own scopes) used by random pages at several depths, in titles, textareas, pre, tables, noscript, options; "
        "each served page must be the page with every command interpreted, its references handled as if written there; programs without a meaning (unknown variables, missing or circular partials) must fail. Distinct by (command, place, kind of value)")
ASSUMPTIONS = ["a partial sees the variables given to it and its own definitions", "the markup of a partial may stand in a div"]


def setup(base):
    T.setup(base)


BAD = ["undefined", "undefined-after-partial", "undefined-after-pop", "outer-in-partial", "outer-in-nested-partial", "given-to-outer-partial", "outer-after-push-in-partial", "missing-partial", "self", "cycle", "long-cycle", "not-passed-on", "unbalanced-push", "pop-empty"]


def cases(tier, rng):
    n = 130 if tier == "quick" else 2500
    return [{"seed": rng.randrange(1 << 60), "partials": rng.choice([3, 6, 10]), "size": rng.choice([4, 8, 20])} for _ in range(n)] + \
        [{"bad": b, "seed": rng.randrange(1 << 60)} for b in BAD for _ in range(1 if tier == "quick" else 6)]


def run_case(case, tmp):
    R = CaseResult()
    r = random.Random(case["seed"])
    if "bad" in case:
        return bad(R, r, case["bad"], tmp)
    lib = tmplgen.Library(r, LINKS, case["size"])
    for i in range(case["partials"]):
        lib.add_partial(["head", "text", "flow", "phrasing"][i % 4] if i < 4 else r.choice(["head", "text", "flow", "flow", "phrasing"]))
    names = [r.choice(["", "a/", "a/b/"]) + f"p{i}" for i in range(6)]
    pages = {n: lib.page(f"src/public/{n}.html") for n in names}
    files = {p.path: p.source() for p in [*lib.partials.values(), *pages.values()]}
    site = S.Site(tmp, {**FILES, **files}, host="example.com")
    try:
        site.build()
    except P.BuildFailed as e:
        R.fail("valid-program-fails", f"{e}"[-1500:], files=files)
        return R
    outs = {n: site.served(n + ".html").decode("utf-8") for n in names}
    for n, g in zip(names, T.parse(list(outs.values()))):
        want = lib.expand(pages[n].tree, {})
        numbers = {"js": 0, "css": 0}

        def rewrite(x):
            if x[0].startswith("#"):
                return x
            if x[0] == "link" and ["rel", "canonical"] in x[1] and not any(k == "href" for k, v in x[1]):
                return [x[0], sorted(x[1] + [["href", f"https://example.com/{n}.html"]]), []]
            return [x[0], x[1], [rewrite(c) for c in x[2]]]
        want = [T.expected(rewrite(x), lambda k, x: "@script" if k == "js" else "@link") for x in want]
        got = [T.unversioned(x, (f"/js/gen/{n}/", f"/css/gen/{n}/")) for x in g["tree"]]
        d = T.compare(*T.with_charset(want, got))
        R.expect(d is None, "expansion:" + (d["what"].strip("#") if d else ""), f"{n}.html: {d}"[:1800], files={k: v for k, v in files.items() if k.startswith("src/partials") or k.endswith(f"/{n}.html")}, served=outs[n][:3000])
        # references are versioned as if they were written in the page
        for x in T.walk(g["tree"]):
            if x[0] in ("script", "link"):
                u = dict(map(tuple, x[1])).get("src" if x[0] == "script" else "href", "")
                if u.split("?")[0] in LINKS and dict(map(tuple, x[1])).get("rel", "preload") in ("preload", "stylesheet") and not u.endswith(("?x=1", "#y", "?k=1")):
                    R.count("references")
                    R.expect(T.TAG.match(u), "unversioned-reference", f"{n}.html refers to {u}", files=files)
        for x in T.walk(want):
            if x[0] == "#text":
                R.count("texts")
    for k, v in lib.stats.items():
        R.count(k, v)
        R.key(k, case["size"], case["partials"])
    stray = [p for p in site.out() if p not in {n + ".html" for n in names} | {n + ".html.hash" for n in names} and p.endswith((".html", ".html.hash"))]
    R.expect(not stray, "partial-is-served", f"{stray}", files=files)
    R.sample({"page": files[f"src/public/{names[0]}.html"][:300], "served": outs[names[0]][:300]})
    return R


def bad(R, r, kind, tmp):
    page = lambda body: "<!DOCTYPE html><html><head><title>t</title></head><body>" + body + "</body></html>"
    parts = {"src/partials/def.html": '<p><!--[STACK: ["define", "v", "1"]]--><!--[STACK: ["retrieve", "v"]]--></p>'}
    body = {"undefined": '<!--[STACK: ["retrieve", "v"]]-->',
            "undefined-after-partial": '<!--[TEMPLATE: ["/def.html"]]--><!--[STACK: ["retrieve", "v"]]-->',
            "undefined-after-pop": '<!--[STACK: ["push", "x"]]--><!--[STACK: ["define", "v", "1"]]--><!--[STACK: ["pop"]]--><!--[STACK: ["retrieve", "v"]]-->',
            "outer-in-partial": '<!--[STACK: ["define", "v", "1"]]--><!--[TEMPLATE: ["/ret.html"]]-->',
            "outer-in-nested-partial": '<!--[STACK: ["define", "v", "1"]]--><!--[TEMPLATE: ["/nest.html", {"v": "2"}]]-->',
            "given-to-outer-partial": '<!--[TEMPLATE: ["/nest.html", {"v": "2"}]]-->',
            "outer-after-push-in-partial": '<!--[STACK: ["push", "x"]]--><!--[STACK: ["define", "v", "1"]]--><!--[TEMPLATE: ["/ret.html", {"w": "1"}]]--><!--[STACK: ["pop"]]-->',
            "missing-partial": '<!--[TEMPLATE: ["/none.html"]]-->',
            "self": '<!--[TEMPLATE: ["/self.html"]]-->', "cycle": '<!--[TEMPLATE: ["/c1.html"]]-->', "long-cycle": '<!--[TEMPLATE: ["/l1.html"]]-->',
            "not-passed-on": '<!--[TEMPLATE: ["/ret.html", {"v": {"type": "variable", "name": "w"}}]]-->',
            "unbalanced-push": '<!--[STACK: ["push", "x"]]-->', "pop-empty": '<!--[STACK: ["pop"]]-->'}[kind]
    parts["src/partials/ret.html"] = '<i><!--[STACK: ["retrieve", "v"]]--></i>'
    parts["src/partials/nest.html"] = '<p><!--[TEMPLATE: ["/ret.html", {}]]--></p>'
    if kind == "self":
        parts["src/partials/self.html"] = '<b></b><!--[TEMPLATE: ["/self.html"]]-->'
    if kind == "cycle":
        parts.update({"src/partials/c1.html": '<!--[TEMPLATE: ["/c2.html"]]-->', "src/partials/c2.html": '<!--[TEMPLATE: ["c1.html"]]-->'})
    if kind == "long-cycle":
        parts.update({f"src/partials/l{i}.html": f'<!--[TEMPLATE: ["/l{i % 5 + 1}.html"]]-->' for i in range(1, 6)})
    site = S.Site(tmp, {**parts, "src/public/index.html": page(body), "src/public/ok.html": page("<p>ok</p>")}, host="example.com")
    try:
        site.build()
        R.fail("meaningless-program-builds:" + kind, f"{body} does not fail the build: {site.served('index.html')[:500]!r}", parts=parts)
    except P.BuildFailed as e:
        R.key("fails", kind)
        R.eval()
    R.count("meaningless programs")
    return R
