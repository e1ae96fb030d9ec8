"""Icon commands are built, edited and rebuilt; the served classes and drawings are compared with what was asked for."""
import json, os, random, re
from common import CaseResult
import minisite as S, project as P, csstok, refs
from PIL import ImageColor

PROPERTY = "C17"
TIMEOUT = 200
TECHNIQUE = "runtime monitoring: real builds and incremental rebuilds of icon commands; oracle from the generator's own description (classes, dimensions, versioned urls, colour slots of the drawings) over the served files"
RULE = ("random sets of colour and size variables (hex of both lengths and cases, named, repeated, absent), drawings using the source colour and look-alikes in many places, commands with all or chosen colours and sizes, known and unknown, buttons by default, suppressed, or given, one icon from several "
        "stylesheets, and button settings in the configuration; then edits of drawings, variables and commands with incremental builds. Distinct by the forms of the command, colours and buttons and by the edit before the build")
ASSUMPTIONS = ["a colour variable is a hex or named colour", "a button whose colours are not all defined is left out; colours and sizes which are not defined are ignored, and a command for none of them makes nothing"]

# the names of css colours, from a library
NAMED = {n: ImageColor.getrgb(n)[:3] for n in ImageColor.colormap}
assert len(NAMED) == 148
COLS = ["primary", "primary-dark", "disabled", "accent", "a1", "x_y", "Light", "unknown", "é"]
SIZES = ["large", "medium", "small", "x2", "Tiny", "nosize"]


def cases(tier, rng):
    q = tier == "quick"
    return [{"seed": rng.randrange(1 << 60), "sets": 1, "edits": 0, "names": True}] + [{"seed": rng.randrange(1 << 60), "sets": 2, "edits": 4} for _ in range(56 if q else 700)]


def cased(r, n):
    return r.choice([n, n, n.upper(), n.title()])


def color(r):
    """(text in the stylesheet, rgb)"""
    if r.random() < .25:
        n = r.choice(sorted(NAMED))
        return cased(r, n), NAMED[n]
    if r.random() < .4:
        h = "%03x" % r.randrange(1 << 12)
        v = tuple(int(c * 2, 16) for c in h)
    else:
        h = "%06x" % r.randrange(1 << 24)
        v = tuple(int(h[i:i + 2], 16) for i in (0, 2, 4))
    return "#" + (h.upper() if r.random() < .5 else h), v


def write_color(r, rgb):
    h = "%02x%02x%02x" % rgb
    if h[0] == h[1] and h[2] == h[3] and h[4] == h[5] and r.random() < .5:
        h = h[0] + h[2] + h[4]
    return "#" + (h.upper() if r.random() < .6 else h)


class Set:
    def __init__(self, r):
        self.r = r
        self.colors = {}
        for c in COLS:
            if c != "unknown" and (c in ("primary", "primary-dark", "disabled") or r.random() < .5):
                self.colors[c] = color(r)
        if r.random() < .15:
            self.colors.pop("disabled")
        self.sizes = {s: f"{r.randrange(1, 9)}.5rem" for s in SIZES if s != "nosize" and (s == "medium" or r.random() < .6)}
        self.icons = {}
        for n in r.sample(["nav", "x-close", "arrow_left", "Big", "b2"], r.choice([1, 2, 3])):
            self.icons[n] = None
        for n in self.icons:
            self.draw(n)
        self.sheets = {"css/main.css": []}
        for i in range(r.choice([1, 2, 3])):
            self.sheets[r.choice(["css/", "", "deep/er/"]) + f"s{i}.css"] = []
        for s in self.sheets:
            seen = set()
            for _ in range(r.choice([0, 1, 2, 2])):
                c = self.command()
                # the classes of two commands for an icon in one stylesheet would overlap
                if c["icon"] not in seen:
                    seen.add(c["icon"])
                    self.sheets[s].append(c)
        self.style = r.randrange(1 << 30)
        self.config = r.choice([None, None, {}, {"default_button": None}, {"default_button": {"active_color": "accent", "hover_color": "primary"}},
                                {"button_by_identifier": {"warn": {"active_color": "accent", "hover_color": "primary", "disabled_color": "primary-dark"}, "alt": {}}},
                                {"default_button": None, "button_by_identifier": {"only": {"hover_color": "disabled"}}}])

    def draw(self, n):
        r = self.r
        src = self.colors.get("primary", ("", (1, 2, 3)))[1]
        pieces = ['<?xml version="1.0"?>' + r.choice(["\n", "\r\n", ""]) + '<svg xmlns="http://www.w3.org/2000/svg" viewBox="0 0 9 9">']
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            q = r.choice("\"\"'")
            look = "%02X%02X%02X" % src
            near = look[:5] + ("0" if look[5] != "0" else "1")
            pieces += r.choice([[f"<path d={q}M{r.randrange(99)} 0z{q} fill={q}", None, f"{q}/>"], [f"<g stroke={q}", None, f"{q} fill={q}", None, f"{q} />"], ["<rect style=\"fill:", None, ";stroke: ", None, '"/>'],
                                [f'<use href="#{look}"/><use xlink:href="#{look}x"/>'], [f'<path fill="#{near}" stroke="#{look}80"/>'], ["<style>.a{fill:", None, "}.b{stroke:", None, " ;x:1}</style>"],
                                [f"<!-- {look} é -->"], [f'<path fill="url(#{look})" id="{look}"/>'], ['<path fill="none" stroke="currentColor"/>\n'], [f'<stop stop-color="', None, '"/>']])
        pieces.append("</svg>" + r.choice(["\n", "", "\r\n"]))
        self.icons[n] = {"src": src, "pieces": pieces, "forms": [write_color(r, src) for p in pieces if p is None]}

    def svg(self, n):
        f = iter(self.icons[n]["forms"])
        return "".join(next(f) if p is None else p for p in self.icons[n]["pieces"]).encode()

    def command(self):
        r = self.r
        b = r.choice(["", "", "no-btn", "btn", "default", None])
        if b is None:
            b = {k: [r.choice(COLS) for _ in range(3)] for k in r.sample(["default", "warn", "b-2"], r.choice([0, 1, 2]))}
        return {"icon": r.choice(sorted(self.icons)), "src": "primary", "cols": None if r.random() < .4 else [r.choice(COLS) for _ in range(r.choice([1, 1, 2, 3]))],
                "sizes": None if r.random() < .5 else [r.choice(SIZES) for _ in range(r.choice([1, 2]))], "btn": b, "look": r.randrange(1 << 30)}

    # ------------------------------------------------------------ text
    def cmd_text(self, c):
        r = random.Random(c["look"])
        sp = lambda: r.choice([" ", " ", "  ", "\n    "])
        lst = lambda xs: "[" + r.choice(["", " "]) + (r.choice([", ", ",", ",\n  "])).join(r.choice(['"{}"', "'{}'"]).format(x) for x in xs) + "]"
        cols = "all-colors" if c["cols"] is None else lst(c["cols"])
        sizes = "all-sizes" if c["sizes"] is None else lst(c["sizes"])
        b = c["btn"]
        if isinstance(b, dict):
            b = "{" + ", ".join(f'"{k}": {lst(v)}' for k, v in b.items()) + "}"
        return f"/*{r.choice(['', ' '])}! PREPROCESSOR: icon{sp()}{c['icon']}{sp()}{c['src']}{sp()}{cols}{sp()}{sizes}{sp() + b if b else ''}{r.choice(['', ' ', chr(10)])}*/"

    def sheet(self, s):
        r = random.Random(self.style)
        out = []
        if s == "css/main.css":
            decls = [f"--col-{k}: {v[0]}" for k, v in self.colors.items()] + [f"--icon-size-{k}: {v}" for k, v in self.sizes.items()]
            # the last of two declarations counts
            if self.colors and r.random() < .3:
                decls.insert(0, f"--col-{sorted(self.colors)[0]}: #123456")
            if self.sizes and r.random() < .3:
                decls.insert(0, f"--icon-size-{r.choice(sorted(self.sizes))}: 77px")
            if r.random() < .5:
                decls.insert(r.randrange(len(decls)), r.choice(["color: var(--col-primary)", "--other: calc((1px + 2px) * 3)", "--obj: { a: b; }", "background: url(data:;x)"]))
            pre = r.choice(["", "/* :root { --col-primary: #fff } */\n", "@media print { :root { --col-primary: #000; } }\n", "a:hover { top: 0 }\n", "@charset \"utf-8\";\n", "*:not(:root) > b { top: 0 }\n"])
            end = r.choice([";", "", "; /* c */"])
            out.append(pre + r.choice([":root", ":root ", ":root /* c */"]) + "{\n  " + r.choice([";\n  ", "; /* x */ ", ";"]).join(decls) + end + "\n}")
        out += [self.cmd_text(c) for c in self.sheets[s]]
        out.insert(r.randrange(1, len(out) + 1) if s == "css/main.css" else r.randrange(len(out) + 1), ".plain { color: red }")
        return "\n\n".join(out) + "\n"

    def files(self):
        res = {"src/public/" + s: self.sheet(s) for s in self.sheets}
        res.update({f"src/public/img/icons/{n}.svg": self.svg(n) for n in self.icons})
        return res

    # ------------------------------------------------------------ what is asked for
    def buttons(self, c):
        b = c["btn"]
        if b == "no-btn":
            return {}
        if isinstance(b, dict):
            res = {("" if k == "default" else "-" + k): tuple(v) for k, v in b.items()}
        else:
            cfg = self.config or {}
            std = ("primary", "primary-dark", "disabled")
            names = ("active_color", "hover_color", "disabled_color")
            res = {}
            d = cfg.get("default_button", {})
            base = std
            if d is not None:
                base = res[""] = tuple(d.get(n, s) for n, s in zip(names, std))
            for k, v in cfg.get("button_by_identifier", {}).items():
                res["-" + k] = tuple(v.get(n, s) for n, s in zip(names, base))
        return {k: v for k, v in res.items() if all(x in self.colors for x in v)}

    def wanted(self, c):
        """(classes, buttons, images) of a command"""
        if c["src"] not in self.colors:
            return [], {}, set()
        cols = [x for x in (sorted(self.colors) if c["cols"] is None else dict.fromkeys(c["cols"])) if x in self.colors]
        sizes = [x for x in (sorted(self.sizes) if c["sizes"] is None else dict.fromkeys(c["sizes"])) if x in self.sizes]
        if not cols or not sizes:
            return [], {}, set()
        bt = self.buttons(c)
        return ([(s, x) for s in sizes for x in cols], {(s, k): v for s in sizes for k, v in bt.items()}, set(cols) | {x for v in bt.values() for x in v})

    # ------------------------------------------------------------ editing
    def edit(self):
        r = self.r
        c = r.choice(["draw", "draw", "recolor", "recolor-source", "addcolor", "delcolor", "addsize", "delsize", "command", "addcommand", "delcommand", "resize", "body"])
        cmds = [(s, i) for s in self.sheets for i in range(len(self.sheets[s]))]
        if c == "draw":
            self.draw(r.choice(sorted(self.icons)))
        elif c == "recolor" and len(self.colors) > 1:
            self.colors[r.choice([x for x in sorted(self.colors) if x != "primary"])] = color(r)
        elif c == "recolor-source" and "primary" in self.colors:
            self.colors["primary"] = color(r)
            if r.random() < .5:
                for n in self.icons:
                    self.draw(n)
        elif c == "addcolor":
            self.colors[r.choice([x for x in COLS if x != "unknown"])] = color(r)
        elif c == "delcolor":
            self.colors.pop(r.choice(COLS), None)
        elif c == "addsize":
            self.sizes[r.choice([x for x in SIZES if x != "nosize"])] = "9px"
        elif c == "delsize":
            self.sizes.pop(r.choice(SIZES), None)
        elif c == "command" and cmds:
            s, i = r.choice(cmds)
            new = self.command()
            if all(x["icon"] != new["icon"] or j == i for j, x in enumerate(self.sheets[s])):
                self.sheets[s][i] = new
        elif c == "addcommand":
            s = r.choice(sorted(self.sheets))
            new = self.command()
            if all(x["icon"] != new["icon"] for x in self.sheets[s]):
                self.sheets[s].append(new)
        elif c == "delcommand" and cmds:
            s, i = r.choice(cmds)
            self.sheets[s].pop(i)
        elif c == "resize" and self.sizes:
            self.sizes[r.choice(sorted(self.sizes))] = f"{r.randrange(99)}em"
        elif c == "body":
            self.style = r.randrange(1 << 30)
        return c


def rules(text):
    """Top-level style rules of a stylesheet: (selector text, {property: value tokens})"""
    toks = csstok.tokens(text)
    res, pre, i = [], [], 0
    while i < len(toks):
        t = toks[i]
        if t == (";",):
            pre = []
        elif t != ("{",):
            pre.append(t)
        else:
            depth, j = 1, i + 1
            while depth and j < len(toks):
                depth += (toks[j] == ("{",)) - (toks[j] == ("}",))
                j += 1
            decls, cur = {}, []
            d = 0
            for u in toks[i + 1:j - 1] + [(";",)]:
                if u[0] in ("(", "{", "[", "function"):
                    d += 1
                elif u[0] in (")", "}", "]"):
                    d -= 1
                if u == (";",) and d == 0:
                    cur = [x for x in cur if x[0] != "ws"]
                    if len(cur) > 2 and cur[0][0] == "ident" and cur[1] == (":",):
                        decls[cur[0][1]] = cur[2:]
                    cur = []
                else:
                    cur.append(u)
            while pre and pre[0][0] == "ws":
                pre.pop(0)
            while pre and pre[-1][0] == "ws":
                pre.pop()
            sel = "".join(" " if x[0] == "ws" else "@" + str(x[1]) if x[0] == "at" else str(x[1]) if len(x) > 1 else x[0] for x in pre)
            res.append((sel, decls))
            pre, i = [], j
            continue
        i += 1
    return res


def judge(R, st, site, label):
    import vanillaplusjs.constants as C
    images = {n: set() for n in st.icons}
    dump = {p: (t if isinstance(t, str) else t.decode())[:1500] for p, t in st.files().items()}

    def url_ok(value, name, col, what):
        us = [t[1] for t in value if t[0] in ("string", "url")]
        path = f"/img/icons/{name}/{col}.svg"
        if not R.expect(len(us) == 1 and us[0].split("?")[0] == path, "wrong-image", f"{what} uses {us}, expected {path}", files=dump):
            return
        _, v, pv = refs.split(us[0])
        if not R.expect(os.path.exists(site.path("out/www" + path)), "image-missing", f"{what} uses {path}, which is not served", files=dump):
            return
        R.expect(v == refs.b64(site.served(path[1:])) and pv == str(C.PROCESSOR_VERSION), "wrong-version", f"{what}: {us[0]} is not the version of the served file", files=dump)

    for s in st.sheets:
        got = {}
        for sel, d in rules(site.served(s).decode("utf-8")):
            if re.search(r"\.icon-", sel):
                R.expect(sel not in got, "repeated-class", f"{s}: {sel} twice", files=dump)
                got[sel] = d
        want = set()
        for c in st.sheets[s]:
            classes, btns, imgs = st.wanted(c)
            images[c["icon"]] |= imgs
            R.key("cmd", c["cols"] is None, c["sizes"] is None, "given" if isinstance(c["btn"], dict) else c["btn"], len(classes) > 0, len(btns) > 0, bool(imgs - {x for _, x in classes}), json.dumps(st.config))
            for size, col in classes:
                sel = f".icon-{c['icon']}-{size}-{col}"
                want.add(sel)
                R.count("classes")
                d = got.get(sel)
                if not R.expect(d is not None, "class-missing", f"{s} after {label}: no {sel}; there are {sorted(got)[:20]}", files=dump):
                    continue
                var = [("function", "var"), ("ident", f"--icon-size-{size}"), (")",)]
                R.expect([x[:2] for x in d.get("width", [])] == var and [x[:2] for x in d.get("height", [])] == var, "wrong-size", f"{s}: {sel} has {d.get('width')} x {d.get('height')}", files=dump)
                url_ok(d.get("background-image", []), c["icon"], col, sel)
            for (size, iden), (act, hov, dis) in btns.items():
                base = f".icon-btn-{c['icon']}-{size}{iden}"
                R.count("buttons")
                want.add(base)
                R.expect(base in got, "class-missing", f"{s} after {label}: no {base}; there are {sorted(got)[:30]}", files=dump)
                want.add(base + ":disabled")
                for suffix, col in (("", act), (":hover", hov), (":disabled", dis)):
                    sel = f"{base}{suffix} .icon-btn--icon"
                    want.add(sel)
                    d = got.get(sel)
                    if not R.expect(d is not None, "class-missing", f"{s} after {label}: no {sel}", files=dump):
                        continue
                    url_ok(d.get("background-image", []), c["icon"], col, sel)
                    if not suffix:
                        var = [("function", "var"), ("ident", f"--icon-size-{size}"), (")",)]
                        R.expect([x[:2] for x in d.get("width", [])] == var and [x[:2] for x in d.get("height", [])] == var, "wrong-size", f"{s}: {sel} has {d.get('width')} x {d.get('height')}", files=dump)
        extra = set(got) - want
        R.expect(not extra, "unwanted-class", f"{s} after {label}: {sorted(extra)[:8]} were not asked for", files=dump)
        R.count("sheets")
    src = st.colors.get("primary", ("", None))[1]
    for n, cols in images.items():
        folder = site.path(f"out/www/img/icons/{n}")
        have = {f[:-4] for f in os.listdir(folder) if f.endswith(".svg")} if os.path.isdir(folder) else set()
        R.expect(have == cols, "wrong-images", f"after {label}: drawings of {n} in {sorted(have)}, wanted {sorted(cols)}", files=dump)
        R.expect(site.served(f"img/icons/{n}.svg") == st.svg(n), "drawing-changed", f"{n}.svg is not served as it is", files=dump)
        ic = st.icons[n]
        for col in have & cols:
            R.count("drawings")
            data = site.served(f"img/icons/{n}/{col}.svg")
            if ic["src"] == src:
                pat = b"".join(b"(.*?)" if p is None else re.escape(p.encode()) for p in ic["pieces"])
                m = re.fullmatch(pat, data, re.S)
                if not R.expect(m is not None, "drawing-changed", f"after {label}: {n} in {col} changed more than its colour: {st.svg(n)} -> {data}", files=dump):
                    continue
                for g in m.groups():
                    h = g.decode("utf-8", "replace").lstrip("#")
                    h = h if len(h) != 3 else "".join(c * 2 for c in h)
                    ok = g.startswith(b"#") and h.lower() == "%02x%02x%02x" % st.colors[col][1]
                    R.count("slots")
                    if not R.expect(ok, "wrong-color", f"after {label}: {n} in {col}: {g} where {st.colors[col]} belongs: {st.svg(n)} -> {data}", files=dump):
                        break
            else:
                # the drawing does not use the declared colour; only look-alikes may be there
                lit = "%02x%02x%02x" % src
                if not re.search(rb"(?i)#(%s|%s)\b" % (lit.encode(), (lit[0] + lit[2] + lit[4]).encode()), st.svg(n)):
                    R.expect(data == st.svg(n), "drawing-changed", f"{n} does not contain the source colour {src} but {col} differs: {st.svg(n)} -> {data}", files=dump)


def run_case(case, tmp):
    R = CaseResult()
    rng = random.Random(case["seed"])
    for k in range(case["sets"]):
        st = Set(rng)
        if case.get("names"):
            # every colour there is, in one project
            st.colors.update({"n-" + n: (cased(rng, n), v) for n, v in NAMED.items()})
            st.icons["nav"] = None
            st.draw("nav")
            st.icons["nav"]["pieces"].insert(1, "<path fill=")
            st.icons["nav"]["pieces"][2:2] = ['"', None, '"/>']
            st.icons["nav"]["forms"].insert(0, write_color(rng, st.icons["nav"]["src"]))
            st.sheets["names.css"] = [{**st.command(), "icon": "nav", "cols": None, "sizes": None}]
            st.sizes = {"medium": "1px"}
        over = {"icons": st.config} if st.config is not None else {}
        files = st.files()
        site = S.Site(tmp, files, name=f"s{k}", **over)
        label = "first build"
        for e in range(case["edits"] + 1):
            try:
                site.build(dev=rng.random() < .3)
            except P.BuildFailed as ex:
                R.fail("build-fails", f"after {label}: {ex}", files={p: (t if isinstance(t, str) else t.decode())[:2000] for p, t in st.files().items()}, config=st.config)
                break
            judge(R, st, site, label)
            R.key("edit", label)
            if R.violations:
                break
            label = st.edit()
            new = st.files()
            site.put({p: t for p, t in new.items() if files.get(p) != t})
            R.count("edits", new != files)
            files = new
        if k == 0:
            R.sample({p: (t if isinstance(t, str) else t.decode())[:700] for p, t in files.items()})
    return R


def finalize(results, tier, counters):
    need = {"classes": 2500, "buttons": 500, "drawings": 1500, "slots": 2500, "edits": 200}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
