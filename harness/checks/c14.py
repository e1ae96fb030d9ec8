"""Scripts with type-hint lines are built; an independent parser says what each line of the served script is."""
import random
from common import CaseResult
import minisite as S, project as P, jsgen

PROPERTY = "C14"
TECHNIQUE = "runtime monitoring: real builds of generated scripts; acorn's syntax tree with line numbers and comment ranges of the served script against those of the source with the marked lines emptied"
RULE = ("scripts of nested functions, classes, calls and random statements with marked lines (first, last, consecutive, after empty lines, indented, without final newline, unbalanced, containing strings, templates, regular expressions, "
        "other comments and imports of missing files) and decoys (comments which differ from the marker in a few characters or have more text, on lines with code, strings, templates and multi-line comments mentioning the marker). Distinct by (position, marker form, content, neighbours)")

HINTS = ["export function foo(a: string): void;", "function f(a: number, b?: string): a is string;", "type X = { a: number };", "type X = {", "}", "m(a: string): Promise<void>;", "import type { A } from './missing';", "import A from '/missing.js';", "foo(", ");", "a: string,", "declare const x: 'a' | \"b\";",
         "let y = `t` / 2;", "x = /re'/.x;", "a = b /", "?: [", "interface I<T extends `a${string}`> {}", "/* c */ x /* d */", "é = '名'", "'use strict';", "if (", "case 1:", "return", "=>", "x ? ", "@dec()", "<T>(a) => T", "'a*/b';", "/* a */ '/*'", "``;", "{ {", "} }", "export default", "class A<T> extends B<T> {"]
DECOYS = ["// @type-hint", "// not @@type-hint", "x = '@@type-hint';", "x = `@@type-hint`;", "x = `\n@@type-hint // @@type-hint\n`;", "/* a\n@@type-hint\n*/", "x = /@@type-hint/;", "// // @@type-hint", "/* // @@type-hint */", "x = `/*@@type-hint*/`", "y = '/* @@type-hint */';", "/** @@type-hint */", "f(); /* a */ // b"]


def cases(tier, rng):
    n = 70 if tier == "quick" else 1200
    return [{"seed": rng.randrange(1 << 60), "n": 14} for _ in range(n)]


class Gen:
    def __init__(self, rng, nl):
        self.r, self.nl = rng, nl
        self.g = jsgen.JS(rng, comments=rng.choice([0, .2]))
        self.lines = []          # (text, kind)

    def add(self, text, kind=None):
        self.lines.append((text, kind))

    def marker(self):
        return self.r.choice(["// @@type-hint", "//@@type-hint", "/* @@type-hint */", "/*@@type-hint*/", "//   @@type-hint  ", "/*\t@@type-hint */"])

    def hints(self, where, ind=""):
        r = self.r
        if r.random() > .45:
            return
        for i in range(r.choice([1, 1, 1, 2, 3])):
            if r.random() < .15:
                self.add(r.choice(["", "", "  ", "\t"]))
            h, m = r.choice(HINTS), self.marker()
            form = r.randrange(4)
            if m.startswith("//") or form == 0:
                t = h + r.choice([" ", "", "  "]) + m
                if h.endswith("/"):
                    t = h + " " + m
            elif form == 1:
                t = m + " " + h
            elif form == 2:
                t = m
            else:
                t = h + " " + m + " " + r.choice(["// more", "/* x */", "y();", "// @@type-hint"])
            if r.random() < .1:
                t = m
            ind2 = r.choice(["", ind, "  ", "\t", "\u00a0"])
            self.add(ind2 + t, "hint")
            self.keys.append((where, i, m[:3].strip(), h, form))

    def one_line(self, d):
        for _ in range(30):
            s = self.g.stmt(d).strip()
            if not any(c in s for c in "\n\r\u2028\u2029") and "@@type" not in s:
                if "//" in s:
                    continue
                return s + ";"
        return "a();"

    def near_miss(self):
        """a comment which is like the marker but isn't exactly it"""
        m = "@@type-hint"
        r = self.r
        k = r.randrange(8)
        if k == 0:
            i = r.randrange(len(m)); t = m[:i] + m[i + 1:]
        elif k == 1:
            i = r.randrange(len(m)); t = m[:i] + m[i].swapcase() + m[i + 1:] if m[i].isalpha() else m.upper()
        elif k == 2:
            t = m + r.choice([" foo", "-ing", "ed", ":", ".", " are below", ", really", "@@type-hint", " @@type-hint"])
        elif k == 3:
            t = r.choice(["see ", "x", "* ", "@", "-", "/", "no "]) + m
        elif k == 4:
            t = m.replace("-", r.choice(["_", " ", "", "\u2011"]))
        elif k == 5:
            t = r.choice(['"%s"', "'%s'", "`%s`", "<%s>", "(%s)"]) % m
        elif k == 6:
            t = r.choice(["see ", "x "]) + m + r.choice([".", " y"])
        else:
            i = r.randrange(1, len(m)); t = m[:i] + " " + m[i:]
        c = r.choice(["// %s", "//%s", "/* %s */", "/*%s*/", "/** %s */"]) % t
        code = r.choice(["", "", "f(); ", "x = 1; ", "x = a / 2; ", "x = /'/; ", "export const q%d = 1; " % self.g.nx(), "{ } "])
        self.add((c + " " + code if c.endswith("*/") and r.random() < .5 else code + c) or c, "decoy")
        self.keys.append(("near miss", k, c[:3]))
        self.near += 1

    def decoy(self):
        if self.r.random() < .6:
            return self.near_miss()
        for l in self.r.choice(DECOYS).split("\n"):
            self.add(l, "decoy")

    def body(self, d, n):
        r = self.r
        for _ in range(n):
            self.hints("statement", "  " * (3 - d))
            x = r.random()
            if x < .2:
                self.decoy()
            elif x < .3 and d > 0:
                self.add(f"{r.choice(['', 'async '])}function {self.g.fresh()}(a) {{")
                self.hints("first in function")
                self.body(d - 1, r.randrange(3))
                self.hints("last in function")
                self.add("}")
            elif x < .42 and d > 0:
                self.add(f"class {self.g.fresh()} {{")
                for _ in range(r.randrange(3)):
                    self.hints("member")
                    self.add(f"m{self.g.nx()}() {{")
                    self.body(d - 1, r.randrange(2))
                    self.add("}")
                self.hints("last member")
                self.add("}")
            elif x < .54:
                self.add("f(")
                self.hints("first argument")
                self.add(r.choice(["a,", "1 / 2,", "/'/,", "'x',"]))
                self.hints("argument")
                self.add(r.choice(["b", "/a/g", "x / y"]))
                self.hints("last argument")
                self.add(");")
            elif x < .62:
                self.add("x = a")
                self.hints("in expression")
                self.add(r.choice(["/ b / c;", "+ /'/.x;", "? /\"/ : 1;", "\n".strip() + ";/'/.y;"]))
            elif x < .7:
                self.add(r.choice(["", "  ", "// c", "/* d */", "import 'bare';" if d == self.top else ";", "/'/.test(a);"]))
            else:
                self.add(self.one_line(r.choice([1, 2])))

    def make(self):
        self.keys = []
        self.near = 0
        self.top = 2
        if self.r.random() < .1:
            self.add("#!/usr/bin/env node")
        self.hints("start")
        self.body(2, self.r.randrange(1, 7))
        self.hints("end")
        if self.r.random() < .3 and self.lines:
            self.hints("end")
        final = self.r.random() < .5
        src = self.nl.join(t for t, _ in self.lines) + (self.nl if final else "")
        blank = "\n".join("" if k == "hint" else t for t, k in self.lines) + ("\n" if final else "")
        hinted = [i + 1 for i, (_, k) in enumerate(self.lines) if k == "hint"]
        if hinted and hinted[-1] == len(self.lines):
            self.keys.append(("last line", final))
        return src, blank, hinted


def run_case(case, tmp):
    R = CaseResult()
    rng = random.Random(case["seed"])
    jsgen.NASTY[:] = [x for x in jsgen.NASTY if "PREPROCESSOR" not in x and "type-hint" not in x]
    items = []
    for _ in range(case["n"]):
        g = Gen(rng, rng.choice(["\n", "\n", "\n", "\r\n", "\r"]))
        src, blank, hinted = g.make()
        items.append((src, blank, hinted, g.keys, g.near))
    pre = S.node("jsast.js", {"items": [{"src": b} for _, b, _, _, _ in items]})
    items = [i for i, o in zip(items, pre) if o["valid"]]
    R.count("invalid_skipped", len(pre) - len(items))
    site = S.Site(tmp, {f"src/public/s{i}.js": it[0] for i, it in enumerate(items)})
    try:
        site.build()
    except P.BuildFailed as e:
        R.fail("build-fails", f"{e}\n" + "\n====\n".join(i[0][:500] for i in items)[:3000])
        return R
    outs = [site.served(f"s{i}.js").decode("utf-8") for i in range(len(items))]
    res = S.node("jsast.js", {"items": [{"src": it[1], "out": o, "lines": True, "hinted": it[2]} for it, o in zip(items, outs)]})
    for it, o, r in zip(items, outs, res):
        src, blank, hinted, keys, near = it
        ctx = f"\n--- source:\n{src[:1500]}\n--- served:\n{o[:1500]}"
        R.expect(not r.get("diff"), "other-lines-changed", f"{r.get('diff')} {ctx}", source=src)
        R.expect(not r.get("bareLines"), "hinted-line-not-commented", f"lines {r.get('bareLines')} of {hinted} {ctx}", source=src)
        R.count("scripts")
        R.count("hinted_lines", len(hinted))
        R.count("near_misses", near)
        R.count("other_lines", blank.count("\n") + 1 - len(hinted))
        for k in keys:
            R.key(k)
    if items:
        R.sample({"source": items[0][0][:600], "served": outs[0][:600]})
    return R


def finalize(results, tier, counters):
    need = {"scripts": 400, "hinted_lines": 800, "near_misses": 100}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
