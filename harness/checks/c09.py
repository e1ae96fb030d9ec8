"""Cycles and dangling references of every kind are put into projects, at once or by an edit; valid projects of every shape are built."""
import os, random, shutil
from common import CaseResult
import project as P, world as W

PROPERTY = "C09"
TIMEOUT = 60
TECHNIQUE = "runtime monitoring with fault injection: build outcome (fails / succeeds / bounded time) against the reference graph of generated projects"
RULE = ("cycles of 1 to 7 sources (imports, rule imports, stylesheet urls, preloads, partials, mixed) and dangling references (each reference kind) "
        "put into random projects, present from the start, closed by editing one of the files, or made by deleting the target; every such build must raise within the "
        "time limit, the following repaired build must succeed; acyclic projects with long chains, diamonds and shared outputs must build. "
        "Distinct by (fault kind, size, when, first/incremental)")


def cases(tier, rng):
    n = 130 if tier == "quick" else 1800
    res = []
    for i in range(n):
        what = rng.choice(["cycle", "cycle", "dangling", "dangling", "valid"])
        kind = rng.choice({"cycle": CYCLES, "dangling": DANGLING, "valid": VALID}[what])
        # a stylesheet may import its own rules, and its own url stays as it is
        sizes = [2, 2, 3, 4, 7] if kind in ("nest", "mixed-css", "url") else [1, 2, 2, 3, 4, 7]
        res.append({"seed": rng.randrange(1 << 60), "n": rng.choice([0, 3, 6, 12]), "what": what, "size": rng.choice(sizes),
                    "kind": kind,
                    "when": rng.choice(["first", "edit", "edit", "later"]), "dev": rng.random() < .3, "symlinks": rng.random() < .2})
    return res


CYCLES = ["js-abs", "js-rel", "nest", "url", "partial", "partial-rel", "preload", "mixed-css", "js-named"]
DANGLING = ["js-import", "js-rel-import", "html-link", "html-script", "html-preload", "css-url", "css-url-bare", "nest-file", "nest-rule", "nest-default-rule", "partial", "partial-in-partial",
            "inline-import", "inline-url", "icon-file", "iconurl"]
VALID = ["external", "chain-js", "chain-partial", "diamond-js", "diamond-css", "icons", "wide", "random", "chain-nest"]

PAGE = "<!DOCTYPE html>\n<html><head>{head}</head><body>{body}</body></html>\n"


def cyc_files(kind, size, rng):
    """path -> text of a cycle; and the same with the last reference left out."""
    full, cut = {}, {}
    for i in range(size):
        j = (i + 1) % size
        d = rng.choice(["", "d/", "d/e/"]) if kind != "js-rel" else ""
        if kind.startswith("js"):
            mk = lambda i: f"zc/c{i}.js"
            ref = {"js-abs": f"import '/{mk(j)}';", "js-rel": f"import './c{j}.js';", "js-named": f'import {{ x as y{i} }} from "/{mk(j)}";'}[kind]
            own = f"export const x = {i};\n"
        elif kind in ("nest", "url", "mixed-css"):
            mk = lambda i: f"zc/c{i}.css"
            form = {"nest": 0, "url": 1, "mixed-css": i % 2}[kind]
            ref = [f".q {{ /*! PREPROCESSOR: import .r FROM /{mk(j)} */ }}", f".u {{ background: url('/{mk(j)}'); }}"][form]
            own = f".r {{ order: {i}; }}\n"
        elif kind.startswith("partial"):
            mk = lambda i: f"zc/c{i}.html"
            ref = f'<!--[TEMPLATE: ["{"/" + mk(j) if kind == "partial" else rng.choice([f"c{j}.html", f"../zc/c{j}.html"])}", {{}}]]-->'
            own = f"<p>{i}</p>\n"
        else:
            mk = lambda i: f"zc/c{i}.html"
            ref = f'<link rel="preload" as="fetch" href="/{mk(j)}">'
            own = "<!DOCTYPE html><title>x</title>"
        root = "src/partials/" if kind.startswith("partial") else "src/public/"
        full[root + mk(i)] = own + ref + "\n" if kind != "js-abs" else ref + "\n" + own
        cut[root + mk(i)] = own if i == size - 1 else full[root + mk(i)]
    if kind.startswith("partial"):
        t = PAGE.format(head="", body='<!--[TEMPLATE: ["/zc/c0.html", {}]]-->')
        full["src/public/zc/page.html"] = cut["src/public/zc/page.html"] = t
    return full, cut


def dangling_files(kind):
    """(bad files, the same with the reference left out or its target added, path to delete to make it dangle)"""
    base = "src/public/zd/"
    tgt = {"js-import": ("t.js", "export const a = 1;\n"), "js-rel-import": ("t.js", "export const a = 1;\n"), "html-link": ("t.css", "a { b: c; }\n"),
           "html-script": ("t.js", "let a;\n"), "html-preload": ("t.bin", "zz"), "css-url": ("t.svg", "<svg/>"), "css-url-bare": ("t.svg", "<svg/>"),
           "nest-file": ("t.css", ".x { color: red; }\n"), "nest-rule": ("t.css", ".x { color: red; }\n"), "inline-import": ("t.js", "export const a = 1;\n"),
           "inline-url": ("t.svg", "<svg/>")}
    src = {"js-import": ("s.js", "import { a } from '/zd/t.js';\n"), "js-rel-import": ("s.js", "import { a } from './t.js';\n"),
           "html-link": ("s.html", PAGE.format(head='<link rel="stylesheet" href="/zd/t.css">', body="")),
           "html-script": ("s.html", PAGE.format(head='<script src="/zd/t.js"></script>', body="")),
           "html-preload": ("s.html", PAGE.format(head='<link rel="preload" as="font" href="/zd/t.bin">', body="")),
           "css-url": ("s.css", "a { background: url('/zd/t.svg'); }\n"), "css-url-bare": ("s.css", "a { background: url(/zd/t.svg); }\n"),
           "nest-file": ("s.css", "a { /*! PREPROCESSOR: import .x FROM /zd/t.css */ }\n"),
           "nest-rule": ("s.css", "a { /*! PREPROCESSOR: import .x FROM /zd/t.css */ }\n"),
           "inline-import": ("s.html", PAGE.format(head="", body="<script type=\"module\">\nimport '/zd/t.js';\n</script>")),
           "inline-url": ("s.html", PAGE.format(head="<style>a { background: url('/zd/t.svg'); }</style>", body=""))}
    if kind in src:
        good = {base + src[kind][0]: src[kind][1], base + tgt[kind][0]: tgt[kind][1]}
        bad = dict(good)
        if kind == "nest-rule":
            bad[base + tgt[kind][0]] = ".y { color: red; }\n"
        else:
            del bad[base + tgt[kind][0]]
        return bad, good
    if kind == "nest-default-rule":
        t = "a { /*! PREPROCESSOR: import .no-such-rule */ }\n"
        return {base + "s.css": t}, {base + "s.css": "a { top: 0; }\n"}
    if kind == "partial":
        g = {base + "s.html": PAGE.format(head="", body='<!--[TEMPLATE: ["/zd/t.html", {}]]-->'), "src/partials/zd/t.html": "<p>x</p>\n"}
    elif kind == "partial-in-partial":
        g = {base + "s.html": PAGE.format(head="", body='<!--[TEMPLATE: ["/zd/u.html", {}]]-->'),
             "src/partials/zd/u.html": '<div><!--[TEMPLATE: ["/zd/t.html", {}]]--></div>', "src/partials/zd/t.html": "<p>x</p>\n"}
    elif kind == "icon-file":
        g = {base + "s.css": '/*! PREPROCESSOR: icon zd primary ["accent"] all-sizes no-btn */\n', "src/public/img/icons/zd.svg": '<svg fill="#336699"/>'}
        return {k: v for k, v in g.items() if k.endswith(".css")}, g
    else:
        g = {base + "s.css": "a { background: url('/img/icons/zd/accent.svg'); }\n",
             base + "a.css": '/*! PREPROCESSOR: icon zd primary ["accent"] all-sizes no-btn */\n', "src/public/img/icons/zd.svg": '<svg fill="#336699"/>'}
        return {k: v for k, v in g.items() if not k.endswith("a.css")}, g
    bad = dict(g)
    del bad["src/partials/zd/t.html"]
    return bad, g


def valid_files(kind, rng, size):
    f = {}
    pub = "src/public/zv/"
    n = 10 + size * 6
    if kind == "chain-js":
        for i in range(n):
            f[f"{pub}c{i}.js"] = (f"import './c{i + 1}.js';\n" if i + 1 < n else "") + f"let a{i};\n"
    elif kind == "chain-partial":
        for i in range(n):
            f[f"src/partials/zv/c{i}.html"] = f"<p>{i}</p>" + (f'<!--[TEMPLATE: ["/zv/c{i + 1}.html", {{"i": "{i}"}}]]-->' if i + 1 < n else "")
        f[pub + "p.html"] = PAGE.format(head="", body='<!--[TEMPLATE: ["/zv/c0.html", {}]]-->')
    elif kind == "chain-nest":
        for i in range(n):
            f[f"{pub}c{i}.css"] = ".r { order: 1; }\n" if i + 1 == n else f".r {{ /*! PREPROCESSOR: import .r FROM /zv/c{i + 1}.css */ }}\n"
    elif kind == "diamond-js":
        names = [f"m{i}" for i in range(n)]
        for i, a in enumerate(names):
            later = names[i + 1:]
            f[f"{pub}{a}.js"] = "".join(f"import '/zv/{b}.js';\n" for b in rng.sample(later, min(len(later), 4))) + f"let {a};\n"
    elif kind == "diamond-css":
        for i in range(n):
            later = [f"c{j}" for j in range(i + 1, n)]
            f[f"{pub}c{i}.css"] = f".r {{ order: {i}; }}\n" + "".join(
                rng.choice([f".q{k} {{ /*! PREPROCESSOR: import .r FROM /zv/{b}.css */ }}\n", f".u {{ background: url('/zv/{b}.css'); }}\n"])
                for k, b in enumerate(rng.sample(later, min(len(later), 3))))
    elif kind == "icons":
        for i in range(4):
            f[f"src/public/img/icons/zv{i}.svg"] = '<svg fill="#336699"/>'
        for i in range(6):
            # c_i makes icon i%4; later ones also name the urls of icons made by earlier ones only
            f[f"{pub}c{i}.css"] = "".join(f"/*! PREPROCESSOR: icon zv{j} primary all-colors all-sizes no-btn */\n.x {{ background: url('/img/icons/zv{j}/accent.svg'); }}\n"
                                          for j in rng.sample(range(4), rng.choice([1, 2])))
        f[f"{pub}own.css"] = ".x { background: url('/img/icons/zvo/accent.svg'); }\n/*! PREPROCESSOR: icon zvo primary all-colors all-sizes no-btn */\n"
        f["src/public/img/icons/zvo.svg"] = '<svg fill="#336699"/>'
    elif kind == "external":
        f["src/public/img/zv.svg"] = '<svg/>'
        f[pub + "e.css"] = ("a { background: url('/img/zv.svg#part'); } b { background: url(//cdn.example.com/x.png); } c { background: url(\"https://a.b/c.png\"); }\n"
                            "d { background: url(rel/x.png); } e { background: url('../up.png?x=1'); } f { background: url('#frag'); } g { background: url('/img/zv.svg?v=1'); }\n"
                            "h { background: url('/zv/e.css'); } /* url('/nowhere.png') */ i { content: \"url('/nowhere.png')\"; }\n")
        f[pub + "e.js"] = ("import 'https://cdn.example.com/a.js';\nimport x from '//cdn.example.com/b.js';\nimport y from 'bare';\n"
                           "/*PREPROCESSOR: ignore-import*/\nimport z from '/nowhere.js';\n// import '/nowhere.js';\nlet s = \"import '/nowhere.js'\";\n")
        f[pub + "e.html"] = PAGE.format(head='<link rel="stylesheet" href="https://a.b/c.css"><link rel="stylesheet" href="//a.b/c.css"><script src="//a.b/c.js"></script>'
                                        '<script src="https://a.b/c.js"></script><link rel="icon" href="/nowhere.ico"><link rel="stylesheet" href="rel.css"><link rel="preload" as="image" href="/img/zv.svg#p">',
                                        body='<a href="/nowhere.html">x</a><img src="/nowhere.png"><!-- [TEMPLATE "/nowhere.html"] --><!-- /nowhere.css -->')
    elif kind == "wide":
        for i in range(40):
            f[f"{pub}w{i}.js"] = f"let w{i};\n"
        f[pub + "all.js"] = "".join(f"import './w{i}.js';\n" for i in range(40))
        for i in range(6):
            f[f"{pub}p{i}.html"] = PAGE.format(head="".join(f'<script src="/zv/w{j}.js"></script>' for j in range(40)), body="")
    return f


def put(w, files, gone=()):
    for p in gone:
        os.remove(os.path.join(w.folder, p))
    for p, t in files.items():
        fp = os.path.join(w.folder, p)
        os.makedirs(os.path.dirname(fp), exist_ok=True)
        if os.path.exists(fp) and open(fp).read() == t:
            continue
        with open(fp, "w") as f:
            f.write(t)
        w.disk._stamp(fp)


def attempt(w):
    try:
        w.build()
        return None
    except P.BuildFailed as e:
        return str(e)


def run_case(case, tmp):
    R = CaseResult()
    w = W.World(case, tmp)
    w.dev = case["dev"]
    rng = w.rng
    what, kind, when = case["what"], case["kind"], case["when"]
    if what == "valid":
        files = valid_files(kind, rng, case["size"])
        if when != "first":
            e = attempt(w)
            R.expect(e is None, "valid-fails", f"a valid project fails to build: {e}")
        put(w, files)
        for rnd in range(3):
            e = attempt(w)
            R.count("valid_builds")
            if not R.expect(e is None, "valid-fails", f"a project without cycles or dangling references ({kind}) fails to build: {e}", history=w.history):
                break
            R.key("valid", kind, case["size"], when, rnd)
            for p in rng.sample(sorted(files), min(len(files), 4)):
                w.disk._stamp(os.path.join(w.folder, p))
            w.edit()
        R.sample({"case": case, "files": sorted(files)[:10]})
        return R
    bad, good = cyc_files(kind, case["size"], rng) if what == "cycle" else dangling_files(kind)
    size = case["size"] if what == "cycle" else 1
    label = f"{what} {kind} of {size}"
    if when == "later":
        e = attempt(w)
        R.expect(e is None, "valid-fails", f"a valid project fails to build: {e}")
        w.edit()
    if when == "edit":
        put(w, good)
        e = attempt(w)
        if not R.expect(e is None, "valid-fails", f"{label} repaired: fails to build: {e}", files=good):
            return R
        if rng.random() < .5:
            w.edit()
    put(w, bad, [p for p in good if p not in bad] if when == "edit" else [])
    for again in range(rng.choice([1, 2])):
        e = attempt(w)
        R.count("faulty_builds")
        R.expect(e is not None, f"{what}-accepted", f"{label} ({when}): the build succeeded", files=bad)
        R.key(what, kind, size, when, again)
    put(w, good, [p for p in bad if p not in good])
    e = attempt(w)
    R.count("repaired_builds")
    R.expect(e is None, "repaired-fails", f"{label} ({when}): after repairing it the build fails: {e}", files=good)
    if e is None:
        d = P.diff_trees(w.out(), w.clean_tree())
        R.expect(not d, "repaired-differs", f"{label}: after repairing it the build differs from a clean one: {d}")
    R.sample({"case": case, "files": bad, "error": e})
    return R


def finalize(results, tier, counters):
    need = {"faulty_builds": 60, "valid_builds": 20, "repaired_builds": 50}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
