"""Stylesheets with rule imports are built and edited; an independent expansion says which tokens must be served."""
import os, random, re
from urllib.parse import unquote
from common import CaseResult
import minisite as S, project as P, csstok, refs

PROPERTY = "C16"
TIMEOUT = 200
TECHNIQUE = "runtime monitoring: differential oracle (independent expansion of rule imports over the generator's own syntax trees, compared as CSS tokens with the served bytes) through real clean and incremental builds"
RULE = ("random sets of stylesheets importing rules from the default stylesheet, from others and from themselves, before and after their definition, in chains and diamonds, within nested and media blocks; imported selectors of all kinds with repeated, nested, commented-out and look-alike rules around them; "
        "edits of imported rules at any distance followed by incremental builds; imports of rules which are not there. Distinct by (where the import points, what surrounds the target, chain length, edit)")
ASSUMPTIONS = ["a declaration before an import command ends with a semicolon", "selectors are compared up to quotes, white space and surrounding comments", "comments and empty declarations do not count as declarations"]

SEL = [".a{n}", "#i{n}", ".b{n}:hover", ".c{n} > .d", ".e{n},\n.f{n}", "[data-x=\"{n}\"]", "[data-y='{n} {{']", "h{n}", ".g{n}::before", ".from-h{n}", ".sm\\:j{n}", "*.k{n}", ".l{n}:not(.m, [a=\"}}\"])", ".n{n} + p ~ q", "é{n}", "--o{n}", ".import{n}"]


def cases(tier, rng):
    q = tier == "quick"
    res = [{"kind": "sets", "seed": rng.randrange(1 << 60), "sets": 3, "edits": 4} for _ in range(40 if q else 500)]
    res += [{"kind": "missing", "seed": rng.randrange(1 << 60), "n": 6} for _ in range(8 if q else 60)]
    return res


class Sheets:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.datas = {}
        self.order = ["css/main.css"] + [rng.choice(["css/", "css/lib/", "", "x y/"[:0]]) + f"s{i}.css" for i in range(rng.choice([1, 2, 3, 4]))]
        rng.shuffle(self.order)
        self.files = {}
        for f in self.order:
            self.files[f] = []
        for rank, f in enumerate(self.order):
            for _ in range(rng.choice([1, 2, 4, 6])):
                self.files[f].append(self.top(f, rank))
            rng.shuffle(self.files[f])

    def uid(self):
        self.n += 1
        return self.n

    def decl(self):
        r, n = self.r, self.uid()
        c = r.randrange(12)
        if c == 0:
            return f"background: url(/img/a.png) {n}px"
        if c == 1:
            return f"background: url({r.choice(chr(34) + chr(39))}/img/b.svg{{q}}) {n}px".replace("{q}", "") if False else f'background: url("/img/b.svg") {n}px'
        if c == 2:
            self.datas[f"t{n}"] = 1
            return f"background: url(\"data:image/svg+xml,%3Csvg%3Et{n}%3C/svg%3E\")"
        if c == 3:
            return f"--v{n}: {{ a: b; c: d }}"
        if c == 4:
            return f"content: \"x;}}{{{n}\""
        if c == 5:
            return f"width: calc((100% - {n}px) * 2) !important"
        if c == 6:
            return f"grid: [l{n}] 1fr / auto"
        return r.choice(["color: #{0:06x}", "margin: {0}px 0 -{0}em", "z-index: {0}", "font: {0}px/1.{0} 'F {0}', serif", "--x{0}:", "transition: a{0} 1e3ms"]).format(n)

    def sel(self):
        return self.r.choice(SEL).format(n=self.uid())

    def targets(self, f, rank, rule_rank):
        """(file, selector, depth) which may be imported without making a cycle"""
        res = []
        for k, g in enumerate(self.order[:rank + 1]):
            for it in self.files[g]:
                if it["t"] == "rule" and (k < rank or it["rank"] < rule_rank):
                    res.append((g, it["sel"]))
        return res

    def body(self, f, rank, rr, d=0):
        r = self.r
        res = []
        for _ in range(r.choice([0, 1, 2, 3, 4])):
            c = r.random()
            if c < .5:
                res.append({"t": "decl", "text": self.decl()})
            elif c < .8:
                ts = self.targets(f, rank, rr)
                if ts:
                    g, s = r.choice(ts)
                    res.append({"t": "import", "file": g, "sel": s, "look": r.randrange(1 << 20)})
            elif c < .9:
                res.append({"t": "comment", "text": r.choice([" x ", "! keep ", "! PREPROCESSOR import .x", " ; } ", "*"])})
            elif d < 2:
                res.append({"t": "nested", "pre": r.choice(["&:hover", "@media print", "@media (min-width: 10px)", "& > .x", "@supports (a: b)"]), "body": self.body(f, rank, rr, d + 1)})
        return res

    def top(self, f, rank):
        r = self.r
        c = r.random()
        if c < .75:
            rr = r.random()
            return {"t": "rule", "sel": self.sel(), "rank": rr, "body": self.body(f, rank, rr)}
        if c < .85:
            rr = r.random()
            return {"t": "at", "pre": r.choice(["@media (min-width: 3px)", "@supports (display: grid)", "@layer x", "@media print"]), "items": [{"t": "rule", "sel": self.sel(), "rank": rr, "body": self.body(f, rank, rr)} for _ in range(r.choice([0, 1, 2]))]}
        return {"t": "raw", "text": r.choice(["@layer a, b;", "/* .a1 { color: red } */", "@font-face { font-family: X; src: url(/img/a.png) }", "@keyframes from { from { top: 0 } 50.5% { top: 1px } to { top: 2px } }", "<!-- ", "-->", "@namespace x url(http://x);", "@page :first { margin: 1in }", "/*! PREPROCESSOR: nothing */"])}

    def decoys(self):
        """Things which look like imported rules but are not, put where they must not matter."""
        r = self.r
        for f in self.order:
            rules = [it for it in self.files[f] if it["t"] == "rule"]
            for it in rules:
                c = r.random()
                if c < .25:
                    # a later rule of the same selector
                    i = self.files[f].index(it)
                    self.files[f].insert(r.randrange(i + 1, len(self.files[f]) + 1), {"t": "rule", "sel": it["sel"], "rank": 9, "dup": 1, "body": [{"t": "decl", "text": self.decl()}]})
                elif c < .4:
                    self.files[f].insert(0, {"t": "at", "pre": "@media screen", "items": [{"t": "rule", "sel": it["sel"], "rank": 9, "body": [{"t": "decl", "text": self.decl()}]}]})
                elif c < .5:
                    self.files[f].insert(0, {"t": "raw", "text": "/* " + it["sel"] + " { color: red } */"})
                elif c < .6:
                    self.files[f].insert(0, {"t": "rule", "sel": it["sel"] + r.choice([" x", ":focus", ", y"]), "rank": 9, "body": [{"t": "decl", "text": self.decl()}]})
                elif c < .7:
                    self.files[f].insert(0, {"t": "rule", "sel": "x " + it["sel"], "rank": 9, "body": [{"t": "nested", "pre": it["sel"], "body": [{"t": "decl", "text": self.decl()}]}]})

    # ------------------------------------------------------------ text
    def cmd(self, f, x):
        r = random.Random(x["look"])
        sel = x["sel"].replace("\n", " ")
        if "'" in sel and r.random() < .5 and '"' not in sel:
            sel = sel.replace("'", '"')
        frm = "" if x["file"] == "css/main.css" and r.random() < .7 else r.choice([" FROM /", " from /", "  From  /"]) + x["file"]
        sp = r.choice(["", " ", "  ", "\n"])
        return f"/*{sp}!{r.choice(['', ' '])}PREPROCESSOR{r.choice(['', ' '])}:{r.choice([' ', '  '])}import{r.choice([' ', '  '])}{sel}{frm}{r.choice(['', ' ', chr(10) + '    '])}*/"

    def render_body(self, f, body, look, src=True, seen=()):
        out = []
        for i, x in enumerate(body):
            if x["t"] == "decl":
                last = all(y["t"] == "comment" for y in body[i + 1:])
                semi = "" if last and src and random.Random(repr((look, i))).random() < .4 else ";"
                out.append(x["text"] + semi)
            elif x["t"] == "import":
                out.append(self.cmd(f, x) if src else self.expand(x["file"], x["sel"], seen))
            elif x["t"] == "comment":
                out.append("/*" + x["text"] + "*/")
            else:
                out.append(x["pre"] + " {\n" + self.render_body(f, x["body"], look, src, seen) + "\n}")
        return "\n    ".join(out)

    def expand(self, f, sel, seen=()):
        assert (f, sel) not in seen and len(seen) < 60
        for it in self.files[f]:
            if it["t"] == "rule" and it["sel"] == sel:
                return self.render_body(f, it["body"], 0, False, seen + ((f, sel),))
        raise KeyError((f, sel))

    def render(self, f, src=True):
        out = []
        for i, it in enumerate(self.files[f]):
            look = repr((f, i))
            r = random.Random(look)
            if it["t"] == "raw":
                out.append(it["text"])
                continue
            rules = [it] if it["t"] == "rule" else it["items"]
            ts = []
            for x in rules:
                pre, post = ("", "") if not src else (r.choice(["", "", "/* c */ ", "\n"]), r.choice([" ", " ", "", " /* d */", "\n"]))
                ts.append(f"{pre}{x['sel']}{post}{{{r.choice(['', chr(10)]) if src else ' '}{self.render_body(f, x['body'], look, src)}\n}}")
            out.append("\n".join(ts) if it["t"] == "rule" else it["pre"] + " {\n" + "\n".join(ts) + "\n}")
        return "\n".join(out) + "\n"

    def chain(self, f, sel):
        for it in self.files[f]:
            if it["t"] == "rule" and it["sel"] == sel:
                return 1 + max([self.chain(x["file"], x["sel"]) for x in self.imports(it["body"])], default=0)
        return 0

    def imports(self, body):
        for x in body:
            if x["t"] == "import":
                yield x
            elif x["t"] == "nested":
                yield from self.imports(x["body"])

    def all_imports(self):
        for f in self.order:
            for it in self.files[f]:
                for x in ([it] if it["t"] == "rule" else it.get("items", [])):
                    for y in self.imports(x["body"]):
                        yield f, x, y

    # ------------------------------------------------------------ editing
    def edit(self):
        r = self.r
        used = {(y["file"], y["sel"]) for _, _, y in self.all_imports()}
        c = r.choice(["decl", "decl", "decl", "adddecl", "rename", "dup", "reorder", "addimport", "dropimport", "delete"])
        rules = [(f, it) for f in self.order for it in self.files[f] if it["t"] == "rule"]
        if not rules:
            return "none"
        hot = [(f, it) for f, it in rules if (f, it["sel"]) in used] or rules
        f, it = r.choice(hot if r.random() < .8 else rules)
        if c == "decl":
            ds = [x for x in it["body"] if x["t"] == "decl"]
            if ds:
                r.choice(ds)["text"] = self.decl()
            else:
                it["body"].append({"t": "decl", "text": self.decl()})
        elif c == "adddecl":
            it["body"].insert(r.randrange(len(it["body"]) + 1), {"t": "decl", "text": self.decl()})
        elif c == "rename":
            old, new = it["sel"], self.sel()
            if sum(1 for x in self.files[f] if x["t"] == "rule" and x["sel"] == old) == 1:
                for _, _, y in self.all_imports():
                    if (y["file"], y["sel"]) == (f, old):
                        y["sel"] = new
                it["sel"] = new
        elif c == "dup":
            # from now on another rule is the first one
            self.files[f].insert(0, {"t": "rule", "sel": it["sel"], "rank": -1, "body": [{"t": "decl", "text": self.decl()}]})
        elif c == "reorder":
            dups = {}
            for x in self.files[f]:
                if x["t"] == "rule":
                    dups[x["sel"]] = dups.get(x["sel"], 0) + 1
            if all(v == 1 for v in dups.values()):
                r.shuffle(self.files[f])
        elif c == "addimport":
            ts = self.targets(f, self.order.index(f), it["rank"]) if it["rank"] <= 1 else []
            if ts:
                g, s = r.choice(ts)
                it["body"].insert(r.randrange(len(it["body"]) + 1), {"t": "import", "file": g, "sel": s, "look": r.randrange(1 << 20)})
        elif c == "dropimport":
            it["body"] = [x for x in it["body"] if x["t"] != "import"]
        elif c == "delete":
            if (f, it["sel"]) not in used:
                self.files[f].remove(it)
        return c


def norm(toks):
    """Without what separates declarations: white space around them and empty declarations."""
    res = []
    for t in toks:
        if t[0] == "ws":
            if res and res[-1][0] not in ("{", "}", ";", "ws", "CDO", "CDC"):
                res.append(("ws",))
            continue
        if t[0] in ("{", "}", ";", "CDO", "CDC") and res and res[-1][0] == "ws":
            res.pop()
        if t == (";",) and (not res or res[-1][0] in ("{", "}", ";")):
            continue
        if t == ("}",) and res and res[-1] == (";",):
            res.pop()
        res.append(t)
    if res and res[-1][0] == "ws":
        res.pop()
    return res


LOCAL = {"/img/a.png": b"\x89PNG", "/img/b.svg": b"<svg/>"}


def judge(R, sh, site, label):
    import vanillaplusjs.constants as C
    from urllib.parse import urlencode
    versions = {k: "?" + urlencode({"v": refs.b64(site.served(k[1:])), "pv": C.PROCESSOR_VERSION}) for k in LOCAL}
    for f in sh.order:
        want = norm(csstok.tokens(sh.render(f, src=False)))
        out = site.served(f).decode("utf-8")
        got = norm(csstok.tokens(out))
        uw = set(csstok.urls(want))
        bad = None
        for i in range(max(len(want), len(got))):
            x = want[i] if i < len(want) else None
            y = got[i] if i < len(got) else None
            if i in uw and y is not None and y[0] == x[0]:
                if x[1] in versions:
                    x = (x[0], x[1] + versions[x[1]]) + x[2:]
                elif x[1].startswith("data:image/") and y[1].startswith("/img/gen/"):
                    data = unquote(x[1].split(",", 1)[1]).encode()
                    path = y[1].split("?")[0]
                    if not os.path.exists(site.path("out/www" + path)) or site.served(path[1:]) != data:
                        bad = f"{y[1]} does not hold {data}"
                        break
                    R.count("images")
                    continue
            if x != y:
                bad = f"token {i}: expected {x}, got {y}; around {want[max(0, i - 6):i + 6]} / {got[max(0, i - 6):i + 6]}"
                break
        R.count("sheets")
        R.expect(bad is None, "wrong-expansion", f"{f} after {label}: {bad}\n--- source:\n{sh.render(f)[:1500]}\n--- served:\n{out[:1500]}", files={g: sh.render(g)[:1500] for g in sh.order}, label=label)
    for f, it, y in sh.all_imports():
        R.count("imports")
        tgt = [x for x in sh.files[y["file"]] if x["t"] == "rule" and x["sel"] == y["sel"]]
        R.key(y["file"] == f, y["file"] == "css/main.css", min(sh.chain(y["file"], y["sel"]), 4), len(tgt) > 1, label.split()[0], it in sh.files[f])


def run_sets(case, tmp, R):
    rng = random.Random(case["seed"])
    for k in range(case["sets"]):
        sh = Sheets(rng)
        sh.decoys()
        local = {"src/public" + p: v for p, v in LOCAL.items()}
        site = S.Site(tmp, {**{"src/public/" + f: sh.render(f) for f in sh.order}, **local}, name=f"s{k}")
        label = "first build"
        for e in range(case["edits"] + 1):
            try:
                site.build(dev=rng.random() < .3)
            except P.BuildFailed as ex:
                R.fail("build-fails", f"after {label}: {ex}", files={g: sh.render(g)[:2500] for g in sh.order})
                break
            judge(R, sh, site, label)
            if R.violations:
                break
            before = {f: sh.render(f) for f in sh.order}
            label = sh.edit()
            for _ in range(rng.choice([0, 0, 1])):
                label += "+" + sh.edit()
            changed = {"src/public/" + f: sh.render(f) for f in sh.order if sh.render(f) != before[f]}
            site.put(changed)
            R.count("edits", bool(changed))
        if k == 0:
            R.sample({"files": {f: sh.render(f)[:600] for f in sh.order}})


def run_missing(case, tmp, R):
    rng = random.Random(case["seed"])
    for k in range(case["n"]):
        where = rng.choice(["self", "main", "other"])
        sel = rng.choice([".gone", "#gone", ".gone > p", ".gone:hover"])
        tgt = {"self": "src/public/css/x.css", "main": "src/public/css/main.css", "other": "src/public/o.css"}[where]
        frm = {"self": " FROM /css/x.css", "main": "", "other": " FROM /o.css"}[where]
        near = rng.choice(["", f"@media print {{ {sel} {{ top: 0 }} }}", f"/* {sel} {{ top: 0 }} */", f"{sel}x {{ top: 0 }}", f"x {{ {sel} {{ top: 0 }} }}", f"{sel}, y {{ top: 0 }}", f".y::after {{ content: '{sel} {{ }}' }}", f"@x {sel};"])
        files = {"src/public/css/main.css": ".a { top: 0 }\n", "src/public/o.css": ".b { top: 0 }\n", "src/public/css/x.css": f".c {{ /*! PREPROCESSOR: import {sel}{frm} */ }}\n"}
        files[tgt] += near + "\n"
        site = S.Site(tmp, files, name=f"s{k}")
        try:
            site.build()
        except P.BuildFailed:
            R.expect(True, "missing-accepted", "")
        else:
            R.expect(False, "missing-accepted", f"importing {sel}, which is not in {tgt}, builds; served: {site.served('css/x.css')[:300]}", files=files)
        R.count("missing")
        R.key("missing", where, near[:3])
        # and once it is there, it builds
        site.put({tgt: files[tgt] + f"{sel} {{ left: 7px }}\n"})
        try:
            site.build()
        except P.BuildFailed as e:
            R.fail("build-fails", f"with the rule added: {e}", files=files)
        else:
            R.expect(b"left: 7px" in site.served("css/x.css").split(b"}")[0], "wrong-expansion", f"the rule was added: {site.served('css/x.css')[:300]}", files=files)


def run_case(case, tmp):
    R = CaseResult()
    {"sets": run_sets, "missing": run_missing}[case["kind"]](case, tmp, R)
    return R


def finalize(results, tier, counters):
    need = {"sheets": 1200, "imports": 1000, "edits": 200, "missing": 40, "images": 60}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
