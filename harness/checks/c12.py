"""Generated and real scripts are built; the served ones must have the same syntax tree, by an independent parser."""
import os, random, re
from common import CaseResult
import minisite as S, project as P, jsgen

PROPERTY = "C12"
TIMEOUT = 150
TECHNIQUE = "runtime monitoring: differential oracle (acorn syntax trees of source and served script) over generated and real scripts through real builds"
RULE = ("random scripts from a grammar rich in lexical ambiguity (templates, regular expressions, divisions, every string escape and number form, comments and odd whitespace between any two tokens, automatic "
        "semicolons, module and sloppy code), hand-written hard cases, and real scripts of other packages; only those acorn accepts are judged, by tree equality. Distinct by node kind sets seen in judged scripts")
ASSUMPTIONS = ["acorn decides which scripts are valid and what they mean; html-like comments (<!-- -->) and names written with escapes are judged like acorn does"]

HARD = [
    "let a = `http://x`; let b = `// no ${ /* c */ 1 } /* no */ ${`n ${'}'} \\` `}`;\n", "a = b / c; d = '/'; e = 1 /2/ 3; // '\n", "x = a++ / b; y = /'/; z = (a) / b / c; if (x) /[/'\"`]/.test(y);\n",
    "let s = 'é ü 名前 \\u00e9 \\xe9 \\0 \\x001 \\u{1F600} \u2028 \\\n continued';\n", "return_ = function() { return\n/x/.y }\n", "f = () => {}\n/'/.test(x)\n", "var o = { import: 1, from: 2, as: 3 }; o.import; o.from; o.as\n",
    "a = x ? {} / 1 : {} / 2; b = [] / 1; c = ({}) / 2; d = {}\n/'/g\n", "label: { } /'/.test(x); case_: /\"/.test(y)\n", "let t = tag`a${1}b${`c${2}`}`; `\n`\n", "a\n++b\n", "let x = y\n(z)\n", "x = 1/**/\n/**/+2\n", "x = a //c\n/b/g\n",
    "for (const x of /'/.y) ; for (;/'/.z;) ;\n", "class A { static x = /'/; y = a / b; get z() { return /\"/ } static { /`/ } #p = `'`; import() {} }\n", "1..toString(); 1.0.x; .5.x; 0x1.x; 1_0n / 2n\n", "let \\u{61}b\\u0063 = 1; $ = 2; _ = 3; let $import, _from\n",
    "typeof /'/; void /\"/; delete /`/.x; x in /'/; x instanceof /'/; !/'/; ~/'/\n", "if (a) { } /'/; while (a) { } /'/; (function () { })\n/a/g; (() => { }) / 1\n", "x = a?.5:1; y = a?.b; z = a ?? /'/\n",
    "/[\\]'/]/; /[^/]/; /\\//; /\\[/; /[\\\\]/; /(?<a>')/u; /\\\\/\n", "async function f() { await /'/; for await (const x of y) /'/ }\n", "function* g() { yield /'/; yield\n/'/g }\n", "<!-- html-like ' comment\nx = 1\n--> it's\n", "#!/usr/bin/env it's // x\nlet a;\n",
    "let a = 1 /* multi\nline */ let_b = 2\n", "x = a /* c\n */ ++\ny\n", "`${ { a: { b: `}` } }.a.b } ${ function () { return '}' } }`\n", "'use strict'\nx\n", "\ufeffx = 1\n", "x = 'a' // c */ d\n/* e // */ y = 2\n", "a = b\n/* c */ /d/g.exec(e)\n",
    "switch (a) { case /'/: break; default: /'/ }\n", "do /'/.x; while (0) /'/.y\n", "var { from: as, as: from } = x; as / from / 2; '\n'.length" .replace("'\n'", "'\\n'") + "\n", "new.target_ = 1" .replace("new.target_", "newtarget") + "\n", "x = y ? z : /'/; w = { a: /'/ , b: {} }\n", "\"\\u2028\u2028\\u2029\"\n",
    "throw /'/\n", "x = `\r\n\\\r\n`\n", "let a = {}, b = a / 1, c = '/'\n", "\f x\f=\v1 // \f y\n", "export default /'/\n", "export { a as default }; let a\n", "import.meta.url; import('x'); let y = { import() { } }\n", "//" + "\n", "", "\n", "/**/", "/***/ x /****/", "//*\n x //**/\n",
    "x = {} / /'/ / 1" + "\n", "a = b ? (c, d) => e : f => ({})\n/g/i\n", "var async; async\n/a/g\n",
]


def cases(tier, rng):
    n, per = (60, 45) if tier == "quick" else (320, 80)
    res = [{"kind": "gen", "seed": rng.randrange(1 << 60), "n": per, "depth": rng.choice([2, 2, 3, 3, 4]), "size": rng.choice([3, 6, 10])} for _ in range(n)]
    res.append({"kind": "hard"})
    files = S.corpus((".js", ".mjs", ".cjs"), exclude=("/typescript/",), max_size=25000 if tier == "quick" else 200000)
    rng.shuffle(files)
    files = files[:160 if tier == "quick" else 2400]
    res += [{"kind": "real", "files": files[i:i + 10]} for i in range(0, len(files), 10)]
    return res


def run_case(case, tmp):
    R = CaseResult()
    items = []
    if case["kind"] == "gen":
        rng = random.Random(case["seed"])
        for _ in range(case["n"]):
            g = jsgen.JS(rng, module=rng.random() < .75, comments=rng.choice([0, .2, .4]))
            items.append(g.program(case["size"], case["depth"]))
    elif case["kind"] == "hard":
        items = list(HARD)
    else:
        for p in case["files"]:
            try:
                t = open(p, encoding="utf-8", newline="").read()
            except (OSError, UnicodeDecodeError):
                continue
            items.append(t)
    pre = S.node("jsast.js", {"items": [{"src": s} for s in items]})
    keep = []
    for s, o in zip(items, pre):
        if not o["valid"]:
            R.count("invalid_skipped")
            continue
        if any(re.match(r"(\./|\.\./|/(?!/))[^?#]*$", i["value"]) for i in o["imports"]) or case["kind"] == "real" and ("PREPROCESSOR" in s or "@@type-hint" in s):
            # imports of local files would be dangling here; and markers are for C13, C14
            R.count("importing_skipped")
            continue
        keep.append(s)
    names = [f"src/public/s{i}.js" for i in range(len(keep))]
    site = S.Site(tmp, dict(zip(names, keep)))
    try:
        site.build()
    except P.BuildFailed as e:
        bad = culprit(tmp, keep)
        R.fail("build-fails", f"a valid script fails to build: {e}: {bad[:2000] if bad else ''!r}", source=(bad or "")[:3000])
        return R
    outs = [site.served(f"s{i}.js") for i in range(len(keep))]
    res = S.node("jsast.js", {"items": [{"src": s, "out": o.decode("utf-8")} for s, o in zip(keep, outs)]})
    for s, o, r in zip(keep, outs, res):
        R.count("scripts")
        R.count("bytes", len(s))
        R.count("comments", r.get("comments", 0))
        R.expect(not r.get("diff"), "meaning-changed", f"{r.get('diff')}\n--- source:\n{s[:1500]}\n--- served:\n{o.decode()[:1500]}", source=s[:4000])
        ks = r.get("kinds", {})
        for k in ("RegExp", "TemplateLiteral", "BinaryExpression/", "TaggedTemplateExpression", "BigInt", "string", "number"):
            R.count(k, ks.get(k, 0))
        R.key(tuple(sorted(ks)), r.get("type"))
    if keep:
        R.sample({"kind": case["kind"], "source": keep[0][:600], "served": outs[0].decode()[:600]})
    return R


def culprit(tmp, keep):
    for i, s in enumerate(keep):
        site = S.Site(tmp, {"src/public/s.js": s}, name=f"one{i}")
        try:
            site.build()
        except P.BuildFailed:
            return s
        if i > 60:
            break
    return None


def finalize(results, tier, counters):
    need = {"scripts": 1500, "RegExp": 700, "TemplateLiteral": 700, "BinaryExpression/": 150, "string": 1500, "comments": 1500}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
