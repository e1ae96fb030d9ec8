"""Scripts with imports in every form are built; an independent parser says what was imported before and after."""
import os, posixpath, random, re
from urllib.parse import parse_qs
from common import CaseResult
import minisite as S, project as P, refs, jsgen

PROPERTY = "C13"
TECHNIQUE = "runtime monitoring: real builds of generated modules; the import declarations an independent parser (acorn) finds in source and served script are compared with the files they name, their served bytes and the recorded graph"
RULE = ("modules in folders of several depths importing staged files (odd names, scripts of every kind of neighbour) in all clause forms with comments and line breaks in them, both quotes, string escapes, root-relative and relative paths "
        "with redundant dots; mixed with imports of packages and urls, exports from, dynamic imports, marked imports of missing files and import-like text inside of comments, strings, templates and regular expressions; "
        "then an incremental build after targets changed. Distinct by (clause form, path style, context) seen")
ASSUMPTIONS = ["specifiers are file paths: percent signs and the like are not decoded", "lines with a marker comment directly before the import declaration are what is documented to be ignored"]

NASTY = [x for x in jsgen.NASTY if "PREPROCESSOR" not in x] + ["import x from './missing.js';", "\nimport '/missing.js';\n".strip(), "import", "from '/missing.js'"]
TARGETS = ["t.js", "deep/t.js", "deep/er/t.js", "deep/er/u-1.min.js", "x y.js", "é/名.js", "it's/q\"q.js", "a&b=c+d%41.js", "deep/data.json", "deep/s.css", "UP.JS.js", "dots.../a..b.js", "$/_.js", "[x](y).js", "from/import.js", "sub/index.js", "js/constants.js", "m.mjs"]


def cases(tier, rng):
    n = 90 if tier == "quick" else 2500
    return [{"seed": rng.randrange(1 << 60), "size": rng.choice([3, 6, 9]), "depth": rng.choice([1, 2, 3])} for _ in range(n)]


def spec_for(rng, at, target):
    """A specifier for the file below the public folder, from another file there"""
    if rng.random() < .4:
        p = "/" + target
        style = "root"
    else:
        p = posixpath.relpath(target, posixpath.dirname(at) or ".")
        if not p.startswith("../"):
            p = "./" + p
        style = "up" if p.startswith("../") else "here"
    x = rng.random()
    if x < .12:
        i = p.index("/")
        p = p[:i] + "/." + p[i:]
        style += "-dot"
    elif x < .24:
        i = p.rindex("/")
        if i > 0 or p.startswith("/"):
            p = p[:i] + "/zz/.." + p[i:]
            style += "-dotdot"
    return p, style


def escape(rng, p, q):
    res = ""
    for ch in p:
        if ch == q or ch == "\\":
            res += "\\" + ch
        elif rng.random() < .03:
            res += rng.choice([f"\\x{ord(ch):02x}" if ord(ch) < 256 else "\\u%04x" % ord(ch), "\\u{%x}" % ord(ch), "\\\n" + ch])
        else:
            res += ch
    return q + res + q


def declaration(g, rng, lit):
    """An import declaration of that literal: (text, form)"""
    G, nm = g.g, g.fresh
    def named():
        xs = [rng.choice([lambda: g.prop_plain() + g.g1() + "as" + g.g1() + nm(), nm, lambda: "default" + g.g1() + "as" + g.g1() + nm(), lambda: rng.choice(['"s x"', "'from'", "'a,b'", "'/x.js'", '"import"']) + G() + "as" + g.g1() + nm()])() for _ in range(rng.randrange(4))]
        return "{" + G() + (G() + "," + G()).join(xs) + (G() + "," if xs and rng.random() < .2 else "") + G() + "}"
    d = lambda: rng.choice([nm, nm, lambda: nm() + "from", lambda: rng.choice(["from", "as", "of", "async", "get"]) if not g.used_kw and not setattr(g, "used_kw", True) else nm()])()
    form = rng.randrange(7)
    if form == 0:
        return "import" + G() + lit, form
    clause = {1: lambda: g.g1() + d(), 2: lambda: G() + "*" + G() + "as" + g.g1() + nm(), 3: lambda: G() + named(), 4: lambda: g.g1() + d() + G() + "," + G() + named(), 5: lambda: g.g1() + d() + G() + "," + G() + "*" + G() + "as" + g.g1() + nm(), 6: lambda: G() + named()}[form]()
    gap = G() if clause.endswith("}") else g.g1()
    return "import" + clause + gap + "from" + G() + lit, form


def program(rng, case, at, targets, R):
    g = jsgen.JS(rng, module=True, comments=rng.choice([0, .2, .4]))
    g.used_kw = False
    parts, marked = [], []
    if rng.random() < .1:
        parts.append("#!/usr/bin/env node\n")
    for _ in range(rng.randrange(1, case["size"] + 1)):
        x = rng.random()
        q = rng.choice("'\"")
        if x < .6:
            spec, style = spec_for(rng, at, rng.choice(targets))
            text, form = declaration(g, rng, escape(rng, spec, q))
            R.key("import", form, style, posixpath.dirname(at).count("/") + bool(posixpath.dirname(at)), bool("/*" in text or "//" in text), "\n" in text)
            R.count("local")
        elif x < .7:
            spec = rng.choice(["/missing", "./missing", "../missing"]) + str(len(marked)) + ".js"
            text, form = declaration(g, rng, escape(rng, spec, q))
            text = rng.choice(["/*PREPROCESSOR: ignore-import*/", "//PREPROCESSOR: ignore-import\n", "/*PREPROCESSOR: ignore-import because */", "/*PREPROCESSOR: ignore-import*/ \n /* c */ "]) + g.sp().replace("import", "") + text
            marked.append(spec)
            R.key("marked", form, at)
            R.count("marked")
        elif x < .8:
            text = g.imp().rstrip(" ;\n")
            if text.endswith("// c"):
                text += "\n"
            R.count("foreign")
        elif x < .9:
            text = rng.choice(["export * from '/missing.js'", "export { import as y%d } from './missing.js'" % g.nx(), "export { default } from '/missing.js'" if "{ default }" not in "".join(parts) else ";", "let y%d = import('./missing.js')" % g.nx(), "let y%d = import.meta.url" % g.nx(),
                               "`\nimport x from './missing.js';\n${ `import '/missing.js'` }`", "let y%d = \"import x from './missing.js'\"" % g.nx(), "// import x from './missing.js';\n", "/*\nimport x from './missing.js';\n*/", "let y%d = /import '.\\/missing.js';/" % g.nx(),
                               "let y%d = { import: 1, import_() { } }.import" % g.nx(), "let y%d = { import() { '/missing.js' } }" % g.nx(), "(a.import, '/missing.js')", "x.import\n/* '/missing.js' */", "<!-- import '/missing.js'" if False else "a?.import", "class Z%d { import\nfrom\n'/missing.js'() {} }" % g.nx()])
        else:
            text = g.stmt(case["depth"])
        parts.append(text + rng.choice([";", ";\n", ";\n", "\n", "; // c\n", " ;", "\n\n", "; /* import './missing.js' */ "]))
    return "".join(parts), marked


def run_case(case, tmp):
    R = CaseResult()
    rng = random.Random(case["seed"])
    jsgen.NASTY[:] = NASTY
    targets = rng.sample(TARGETS, rng.randrange(4, len(TARGETS)))
    files = {}
    for t in targets:
        if t == "js/constants.js":
            files["src/public/" + t] = "/* generated */"
        else:
            files["src/public/" + t] = "{}" if t.endswith("json") else ".a{b:c}" if t.endswith("css") else f"export default {rng.randrange(1000)};\n"
    importers, srcs, marks = [], {}, {}
    for i in range(rng.randrange(3, 8)):
        d = rng.choice(["", "", "deep/", "deep/er/", "é/", "a b/c/", "it's/"])
        at = f"{d}i{i}.js"
        # importers may import earlier ones
        cands, ms = [], None
        for _ in range(6):
            R2 = CaseResult()
            st = rng.getstate()
            text, marked = program(rng, case, at, targets + importers, R2)
            cands.append((text, marked, R2))
        oks = S.node("jsast.js", {"items": [{"src": t} for t, _, _ in cands]})
        for (text, marked, R2), o in zip(cands, oks):
            if o["valid"] and o["type"] == "module" and [i["value"] for i in o["imports"] if i["marked"]] == marked:
                srcs[at], marks[at] = text, marked
                R.keys |= R2.keys
                for k, v in R2.counters.items():
                    R.count(k, v)
                importers.append(at)
                break
        else:
            R.count("no_valid")
    files.update({"src/public/" + a: t for a, t in srcs.items()})
    site = S.Site(tmp, files, js_constants={"relpath": "src/public/js/constants.js", "shared": {"A": rng.randrange(100)}, "dev": {}, "prod": {}})
    try:
        site.build()
    except P.BuildFailed as e:
        R.fail("build-fails", f"{e}\n" + "\n=====\n".join(f"{a}:\n{t[:800]}" for a, t in srcs.items()), files=srcs)
        return R
    judge(R, site, srcs, marks)
    # change some targets and build again
    for t in rng.sample(targets, min(3, len(targets))):
        if t.endswith(".js") and t != "js/constants.js":
            site.put({"src/public/" + t: f"export default {rng.randrange(10**6)}; // changed\n"})
    # and give one importer other imports
    if importers:
        a = rng.choice(importers[:1])
        spec, _ = spec_for(rng, a, targets[0])
        srcs[a], marks[a] = f"import {escape(rng, spec, chr(39))};\n", []
        site.put({"src/public/" + a: srcs[a]})
    try:
        site.build()
    except P.BuildFailed as e:
        R.fail("rebuild-fails", f"{e}", files=srcs)
        return R
    judge(R, site, srcs, marks)
    return R


def judge(R, site, srcs, marks):
    from vanillaplusjs.build.graph import FileDependencyGraph
    with open(site.path("out/dependency_graph.json")) as f:
        graph = FileDependencyGraph.load(f)
    ats = list(srcs)
    outs = {}
    for a in ats:
        try:
            outs[a] = site.served(a).decode("utf-8")
        except FileNotFoundError:
            R.fail("not-served", a)
            return
    res = S.node("jsast.js", {"items": [{"src": srcs[a], "out": outs[a]} for a in ats]})
    for a, r in zip(ats, res):
        ctx = f"in {a}:\n{srcs[a][:1200]}\n--- served:\n{outs[a][:1200]}"
        if not R.expect(not r.get("diff"), "meaning-changed", f"{r.get('diff')} {ctx}"):
            continue
        want_deps = set()
        if not R.expect(len(r["imports"]) == len(r["outImports"]), "import-count", ctx):
            continue
        for i, o in zip(r["imports"], r["outImports"]):
            v, w = i["value"], o["value"]
            local = re.match(r"(\./|\.\./|/(?!/))[^?#]*$", v) is not None
            if not local or v in marks[a]:
                R.expect(v == w, "left-alone-changed", f"{v} became {w} {ctx}")
                R.count("kept")
                continue
            target = posixpath.normpath(posixpath.join(posixpath.dirname("/" + a), v))
            want_deps.add("src/public" + target)
            p, _, query = w.partition("?")
            R.expect(posixpath.normpath(p) == target and p.startswith("/") and not p.startswith("//"), "wrong-path", f"{v} became {w}, not {target} {ctx}")
            try:
                sha = refs.b64(site.served(target[1:]))
            except FileNotFoundError:
                R.fail("target-missing", f"{target} is not served; {ctx}")
                continue
            R.expect(parse_qs(query).get("v") == [sha] and len(parse_qs(query).get("pv", [])) == 1, "wrong-version", f"{v} became {w}; {target} has {sha} {ctx}")
            R.count("versioned")
        have = set(graph.get_children("src/public/" + a))
        R.expect(want_deps == have, "wrong-dependencies", f"recorded {sorted(have)}, imports {sorted(want_deps)} {ctx}")
    if ats:
        R.sample({"at": ats[0], "source": srcs[ats[0]][:500], "served": outs[ats[0]][:500]})


def finalize(results, tier, counters):
    need = {"versioned": 600, "kept": 200, "marked": 60, "foreign": 60}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
