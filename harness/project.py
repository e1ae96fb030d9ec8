"""Model of a vanillaplusjs project: generates sources, edits them, and knows what each refers to.

Everything is derived from one random.Random. References are always valid (no dangling reference,
no cycle) unless a fault is asked for explicitly.
"""
import json, os, random, re, shutil

PUB = "src/public/"
PART = "src/partials/"
MAIN = "src/public/css/main.css"
CONST = "src/public/js/constants.js"

# small and quick, but with a choice between exports and with steps
IMAGES = {"formats": {"png": {"exports": {"best": {"preference": 1, "formatter_kwargs": {"optimize": True}}}, "minimum_unit_size_bytes": 1},
                      "jpeg": {"exports": {"95": {"preference": 5, "formatter_kwargs": {"quality": 95}}, "20": {"preference": 1, "formatter_kwargs": {"quality": 20}}}, "minimum_unit_size_bytes": 100}},
          "default_format": "png", "maximum_resolution": 2, "resolution_step": 1}

DEFAULT = frozenset({"js", "css", "html", "partial", "static", "icon", "nest", "inline", "canonical", "const", "dataimg"})

DIRS = ["", "a/", "a/b/", "lib/", "deep/x/y/"]
COLORS = {"primary": "#336699", "primary-dark": "#102030", "disabled": "#999999", "accent": "red", "light": "#ABC"}
SIZES = {"large": "1.5rem", "medium": "1rem", "small": "0.75rem"}

JS_BODY = [
    'export const v{n} = "{s}";', "export function f{n}(a, b) {{\n    return a + b + {k};\n}}",
    "// note {s}", "/* block {s} */", "let r{n} = /ab[/]c{k}/g;", "export class K{n} {{ m() {{ return '{s}'; }} }}",
    "const o{n} = {{ a: {k}, 'b': [1, 2, {k}], c: \"x-{s}\" }};",
    "const t{n} = `x {s}`;", "if (o{n}?.a > {k}) {{ v{n}(); }}", "export function g{n}(a); // @@type-hint",
]
CSS_BODY = [
    ".c{n} {{\n    color: #{h};\n    margin: {k}px 0 auto;\n}}", "@media (min-width: {k}px) {{\n    .m{n} {{ padding: {k}%; }}\n}}",
    "/* {s} */", ".d{n}::before {{ content: \"{s}\"; }}", "a.e{n}:hover > b {{ width: calc(100% - {k}px); }}",
    "@font-face {{ font-family: 'F{n}'; font-weight: {k}; }}",
]
HTML_BODY = ["<p>Para {s} &amp; more {k}</p>", "<div class=\"c{n}\"><span>{s}</span></div>", "<ul><li>{k}</li><li>{s}</li></ul>",
             "<!-- comment {s} -->", "<img alt=\"{s}\" src=\"data:,\">"]


def rel_import(frm, to):
    r = os.path.relpath(to, os.path.dirname(frm)).replace(os.sep, "/")
    return r if r.startswith("../") else "./" + r


class Node:
    def __init__(self, kind, rank):
        self.kind, self.rank = kind, rank
        self.body = []          # text pieces
        self.refs = []          # dicts with "to" (source path) or "out"
        self.raw = b""
        self.bad = self.own = False

    def __repr__(self):
        return f"Node({self.kind},{self.rank:.2f},{self.refs})"


class Project:
    def __init__(self, rng, n=10, features=None, host="https://example.com"):
        self.rng = rng
        self.features = set(features or DEFAULT)
        self.nodes = {}
        self.serial = 0
        self.config = {"host": host, "const": {"shared": {"S": "shared"}, "dev": {"API": "http://127.0.0.1:1"}, "prod": {"API": ""}}}
        self.colors = dict(COLORS)
        self.sizes = dict(SIZES)
        if self.features & {"css", "icon", "nest"}:
            m = self.nodes[MAIN] = Node("main", 0.0)
            m.body = [self.text(CSS_BODY) for _ in range(2)]
            m.refs = [{"t": "rule", "sel": f".base-{i}", "k": rng.randrange(1000)} for i in range(3)]
            if "nest" in self.features and rng.random() < .5:
                m.refs.append({"t": "selfnest", "sel": ".base-1", "cls": self.uid()})
        if "const" in self.features:
            c = self.nodes[CONST] = Node("const", 0.0)
            c.raw = b"// constants\n"
        for _ in range(n):
            self.add()
        self.fix_iconurls()

    # ------------------------------------------------------------ helpers
    def uid(self):
        self.serial += 1
        return self.serial

    def text(self, pool):
        r = self.rng
        if r.random() < .01:
            # longer than what is read at once
            words = " ".join("w%x" % r.randrange(1 << 24) for _ in range(r.choice([600, 1300, 9000])))
            return f"<p>{words}</p>" if pool is HTML_BODY else f"/* {words} */"
        return r.choice(pool).format(n=self.uid(), s="t%x" % r.randrange(1 << 24), k=r.randrange(1, 999), h="%06x" % r.randrange(1 << 24))

    def of(self, *kinds, below=2.0):
        return sorted(p for p, n in self.nodes.items() if n.kind in kinds and n.rank < below)

    def new_path(self, kind):
        r = self.rng
        d = r.choice(DIRS)
        u = self.uid()
        if kind == "js":
            return f"{PUB}{r.choice(['js/', 'js/', ''])}{d}m{u}.js"
        if kind == "css":
            return f"{PUB}{r.choice(['css/', 'css/', ''])}{d}s{u}.css"
        if kind == "html":
            return f"{PUB}{d}p{u}.html"
        if kind == "partial":
            return f"{PART}{d}t{u}.html"
        if kind == "stray":
            # not published
            return r.choice(["src/public2/", "src/publicity/", "src/", PART, "src/public.old/js/", "src/drafts/"]) + f"z{u}{r.choice(['.js', '.css', '.txt', '.svg', '.html'])}"
        if kind == "icon":
            return f"{PUB}img/icons/i{u}.svg"
        if kind == "photo":
            return f"{PUB}img/{d}h{u}.{r.choice(['png', 'bmp', 'gif', 'jpeg'])}"
        if kind == "list":
            return f"{PUB}{r.choice(['js/', 'img/', ''])}{d}l{u}.images.json"
        return f"{PUB}{r.choice(['img/', 'assets/', ''])}{d}f{u}{r.choice(['.svg', '.txt', '.bin', '.woff', '.min.map', ''])}"

    def kinds(self):
        pool = []
        for k, w in (("js", 4), ("css", 3), ("html", 4), ("partial", 2), ("static", 2), ("icon", 1), ("stray", 1)):
            if k in self.features or k == "stray" and "static" in self.features:
                pool += [k] * w
        return pool + (["photo"] * 4 + ["list"] * 2 if "image" in self.features else [])

    # ------------------------------------------------------------ growing
    def add(self, kind=None, path=None, rank=None):
        r = self.rng
        kind = kind or r.choice(self.kinds())
        path = path or self.new_path(kind)
        n = Node(kind, rank if rank is not None else r.uniform(0.01, 1))
        self.nodes[path] = n
        self.fresh_content(path)
        return path

    def fresh_content(self, path):
        r, n = self.rng, self.nodes[path]
        if n.kind in ("static", "stray"):
            size = r.choice([0, 1, 7, 300, 300, 300, 4095, 8193, 65535, 65537, 70000, 300000]) if r.random() < .6 else 40
            n.raw = r.randbytes(size)
            return
        if n.kind == "photo":
            import imggen
            f = imggen.EXT[path.rsplit(".", 1)[1]]
            m = r.choice([m for m in imggen.MODES[f] if m != "CMYK"])
            n.raw = imggen.make_image(r.randrange(1 << 60), r.choice([16, 24, 33]), r.choice([16, 24, 40]), m, f)
            # it may not be a picture, or too small a one, when nobody relies on it
            if r.random() < .25 and not self.relied(path):
                n.raw = r.choice([b"not a picture", b"", imggen.make_image(1, 3, 3, "RGB", "PNG")])
                n.bad = True
            else:
                n.bad = False
            return
        if n.kind == "list":
            n.refs = []
            for _ in range(r.choice([0, 1, 2, 3])):
                self.add_ref(path)
            n.own = r.random() < .4
            return
        if n.kind == "icon":
            n.raw = (f'<svg xmlns="http://www.w3.org/2000/svg" viewBox="0 0 9 9"><path fill="#336699" d="M{r.randrange(99)} 0z"/>'
                     f'<g stroke="#336699" fill="#00FF00"/></svg>\n').encode()
            return
        if n.kind == "const":
            n.raw = b"// constants %d\n" % r.randrange(9999)
            return
        pool = {"js": JS_BODY, "css": CSS_BODY, "main": CSS_BODY}.get(n.kind, HTML_BODY)
        n.body = [self.text(pool) for _ in range(r.randrange(1, 4))]
        if n.kind == "main":
            for x in n.refs:
                if x["t"] == "rule" and r.random() < .5:
                    x["k"] = r.randrange(1000)
            return
        n.refs = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            self.add_ref(path)

    def add_ref(self, path):
        """Adds one random valid reference to the node; returns it or None."""
        r, n = self.rng, self.nodes[path]
        opts = []
        if n.kind == "list":
            used = self.imported(path)
            for t in self.of("photo"):
                if not (used and self.nodes[t].bad):
                    opts.append({"t": "item", "to": t, "name": f"n{self.uid()}", **self.crop()})
        if n.kind == "js":
            for t in self.lists():
                opts += [{"t": "import", "to": t, "style": r.choice(["abs", "rel"]), "form": r.randrange(6)}] * 2
            for t in self.of("js", "const", below=n.rank):
                opts.append({"t": "import", "to": t, "style": r.choice(["abs", "rel"]), "form": r.randrange(6)})
        elif n.kind == "css":
            for t in self.of("static", "icon", "photo"):
                opts.append({"t": "url", "to": t, "q": r.choice(["'", '"', ""])})
            if "nest" in self.features:
                opts.append({"t": "nest", "to": MAIN, "sel": f".base-{r.randrange(3)}", "cls": self.uid(), "explicit": r.random() < .3})
                for t in self.of("css", below=n.rank):
                    opts.append({"t": "nest", "to": t, "sel": ".exp", "cls": self.uid(), "explicit": True})
            if "icon" in self.features:
                for t in self.of("icon"):
                    opts += [self.icon_ref(t)] * 2
                for c in self.of("css", below=n.rank):
                    for x in self.nodes[c].refs:
                        if x["t"] == "icon" and self.icon_cols(x):
                            opts.append({"t": "iconurl", "via": c, "to": x["to"], "col": r.choice(self.icon_cols(x))})
            if "dataimg" in self.features:
                opts.append({"t": "data", "svg": "t%x" % r.randrange(1 << 20)})
        elif n.kind in ("html", "partial"):
            for t in self.of("photo"):
                opts += [{"t": "image", "to": t, **self.crop()}] * 2
            for t in self.of("css", "main"):
                opts.append({"t": r.choice(["link", "link", "preload"]), "to": t})
            for t in self.of("js", "const"):
                opts.append({"t": "script", "to": t, "module": r.random() < .7})
            for t in self.of("static"):
                if r.random() < .3:
                    opts.append({"t": "preload", "to": t})
            for t in self.of("partial", below=n.rank):
                opts += [{"t": "tpl", "to": t, "var": "w%x" % r.randrange(1 << 20)}] * 3
            if "inline" in self.features:
                js = self.of("js", "const") + self.lists()
                opts += [{"t": "inline", "txt": self.text(JS_BODY[:4]), "to": r.choice(js) if js and r.random() < .6 else None, "form": r.randrange(6), "style": "abs"}]
                opts += [{"t": "style", "txt": self.text(CSS_BODY), "to": None}]
            if "canonical" in self.features:
                opts.append({"t": "canon", "form": r.randrange(4)})
        if not opts:
            return None
        ref = dict(r.choice(opts))
        n.refs.append(ref)
        return ref

    def crop(self):
        r = self.rng
        return {"w": r.choice([4, 7, 16]), "h": r.choice([4, 9, 16]), "crop": r.choice([{}, {}, {"crop_left_percentage": 0.25}, {"crop_top_percentage": 1}]), "lazy": r.random() < .5}

    def imported(self, path):
        return any(x.get("to") == path for n in self.nodes.values() for x in n.refs)

    def relied(self, photo):
        """Is there an imported list with this image?"""
        return any(n.kind == "list" and self.imported(p) and any(x["to"] == photo for x in n.refs) for p, n in self.nodes.items())

    def lists(self):
        """The lists which can be imported."""
        return [p for p in self.of("list") if not any(self.nodes[x["to"]].bad for x in self.nodes[p].refs)]

    def icon_ref(self, t):
        r = self.rng
        cols = r.choice([None, ["primary-dark"], ["accent", "primary"], ["light"], ["gold"], ["teal", "light"], ["disabled", "primary", "primary-dark"]])
        # the default button needs these three colours
        return {"t": "icon", "to": t, "cols": cols, "sizes": r.choice([None, ["small"], ["large", "medium"]]),
                "btn": "no-btn" if cols is not None and "disabled" not in cols else r.choice(["", "no-btn", "btn"])}

    def icon_cols(self, x):
        return [c for c in x["cols"] if c in self.colors] if x["cols"] is not None else sorted(self.colors)

    def deps(self, path):
        """Source files the given file refers to."""
        return [x["to"] for x in self.nodes[path].refs if x.get("to")] + [x["via"] for x in self.nodes[path].refs if x.get("via")]

    # ------------------------------------------------------------ rendering
    def import_line(self, frm, x, n):
        t = x["to"][:-4] + "js" if x["to"].endswith(".images.json") else x["to"]
        spec = "/" + t[len(PUB):] if x["style"] == "abs" else rel_import(frm, t)
        q = '"' if n % 2 else "'"
        name = f"i{n}_{x.get('form', 0)}"
        form = x.get("form", 0)
        if form == 0:
            return f"import {q}{spec}{q};"
        if form == 1:
            return f"import {name} from {q}{spec}{q};"
        if form == 2:
            return f"import * as {name} from {q}{spec}{q};"
        if form == 3:
            return f"import {{ a as {name}, b }} from {q}{spec}{q};"
        if form == 4:
            return f"import {name}, {{\n    z as y,\n}}\n    from {q}{spec}{q};"
        return f"import {{{name}}} from{q}{spec}{q}"

    def icon_cmd(self, x):
        name = os.path.basename(x["to"])[:-4]
        cols = "all-colors" if x["cols"] is None else json.dumps(x["cols"])
        sizes = "all-sizes" if x["sizes"] is None else json.dumps(x["sizes"])
        return f"/*! PREPROCESSOR: icon {name} primary {cols} {sizes} {x['btn']} */".replace("  ", " ")

    def render(self, path):
        n = self.nodes[path]
        if n.kind in ("static", "icon", "const", "stray", "photo"):
            return n.raw
        if n.kind == "list":
            return json.dumps({x["name"]: {"path": "/" + x["to"][len(PUB):], "width": x["w"], "height": x["h"], "crop_arguments": x["crop"]} for x in n.refs}).encode()
        out = []
        if n.kind == "main":
            out.append(":root {\n" + "".join(f"    --col-{k}: {v};\n" for k, v in self.colors.items())
                       + "".join(f"    --icon-size-{k}: {v};\n" for k, v in self.sizes.items()) + "}")
        if n.kind == "js":
            for i, x in enumerate(n.refs):
                out.append(self.import_line(path, x, i))
            out += n.body
            return ("\n".join(out) + "\n").encode()
        if n.kind in ("css", "main"):
            for x in n.refs:
                t = x["t"]
                if t == "rule":
                    out.append(f"{x['sel']} {{\n    margin-top: {x['k']}px;\n    border: none;\n}}")
                elif t == "selfnest":
                    out.append(f".n{x['cls']} {{\n    /*! PREPROCESSOR: import {x['sel']} */\n    top: 0;\n}}")
                elif t == "nest":
                    frm = f" FROM /{x['to'][len(PUB):]}" if x["explicit"] or x["to"] != MAIN else ""
                    out.append(f".n{x['cls']} {{\n    top: 1px;\n    /*! PREPROCESSOR: import {x['sel']}{frm} */\n}}")
                elif t == "url":
                    out.append(f".u {{ background: url({x['q']}/{x['to'][len(PUB):]}{x['q']}); }}")
                elif t == "iconurl":
                    out.append(f".iu {{ background: url(\"/img/icons/{os.path.basename(x['to'])[:-4]}/{x['col']}.svg\"); }}")
                elif t == "icon":
                    out.append(self.icon_cmd(x))
                elif t == "data":
                    out.append(f".d {{ background: url(\"data:image/svg+xml,%3Csvg xmlns='http://www.w3.org/2000/svg'%3E{x['svg']}%3C/svg%3E\"); }}")
            if n.kind == "css":
                out.append(f".exp {{\n    order: {len(n.body[0])};\n    {n.body[0].split('{')[0].strip('./*@ ')[:1] or 'z'}z: 1;\n}}")
            out += n.body
            return ("\n\n".join(out) + "\n").encode()
        head, body = [], []
        for i, x in enumerate(n.refs):
            t = x["t"]
            if t == "link":
                head.append(f'<link rel="stylesheet" href="/{x["to"][len(PUB):]}">')
            elif t == "preload":
                head.append(f'<link rel="preload" as="fetch" href="/{x["to"][len(PUB):]}">')
            elif t == "script":
                head.append(f'<script src="/{x["to"][len(PUB):]}"{" type=" + chr(34) + "module" + chr(34) if x["module"] else ""}></script>')
            elif t == "tpl":
                body.append(f'<!--[TEMPLATE: ["/{x["to"][len(PART):]}", {{"v": "{x["var"]}"}}]]-->')
            elif t == "image":
                body.append(f'<!--[IMAGE: /{x["to"][len(PUB):]} {x["w"]} {x["h"]} cover {json.dumps(x["crop"])} {"lazy" if x["lazy"] else "eager"}]-->')
            elif t == "inline":
                imp = (self.import_line(path, x, i) + "\n") if x["to"] else ""
                body.append(f'<script type="module">\n{imp}{x["txt"]}\n</script>')
            elif t == "style":
                body.append(f"<style>\n{x['txt']}\n</style>")
            elif t == "canon":
                head.append(['<link rel="canonical">', '<link rel="canonical" href="/x/y">', '<meta property="og:url">', '<meta property="og:url" content="/q">'][x["form"]])
        if n.kind == "partial":
            return ("\n".join(head + ['<b><!--[STACK: ["retrieve", "v"]]--></b>'] + body + n.body) + "\n").encode()
        return ("<!DOCTYPE html>\n<html>\n<head>\n<meta charset=\"utf-8\">\n" + "\n".join(head) + "\n</head>\n<body>\n"
                + "\n".join(body + n.body) + "\n</body>\n</html>\n").encode()

    def snapshot(self):
        res = {p: self.render(p) for p in self.nodes}
        for p, n in self.nodes.items():
            if n.kind == "list" and n.own:
                res[p[:-4] + "js"] = b"// mine\nexport default {};\n"
        return res

    # ------------------------------------------------------------ editing
    def drop_refs(self, target):
        changed = []
        for p, n in self.nodes.items():
            keep = [x for x in n.refs if x.get("to") != target and x.get("via") != target]
            if len(keep) != len(n.refs):
                n.refs = keep
                changed.append(p)
        self.fix_iconurls()
        return changed

    def fix_iconurls(self):
        again = True
        while again:
            again = False
            for p, n in self.nodes.items():
                for x in list(n.refs):
                    if x["t"] == "iconurl":
                        v = self.nodes.get(x["via"])
                        ok = v is not None and self.makes(v, x)
                        # the url refers to every stylesheet making the file, unless this one makes it itself
                        if ok and not self.makes(n, x):
                            ok = all(m.rank < n.rank for m in self.nodes.values() if m is not n and self.makes(m, x))
                        if not ok:
                            n.refs.remove(x)
                            again = True

    def makes(self, node, x):
        return any(y["t"] == "icon" and y["to"] == x["to"] and x["col"] in self.icon_cols(y) for y in node.refs)

    def edit_used(self, kind):
        """Edits only a file of the kind which others use, making one if there is none."""
        r = self.rng
        used = [p for p in self.of(kind) if self.imported(p)]
        if not used:
            p = r.choice(self.of(kind) or [self.add(kind)])
            users = [q for q in self.of("html", "partial", "js", "css") if q != p and (self.nodes[q].kind == "html" if kind == "partial" else self.nodes[q].kind == kind)]
            q = r.choice(users) if users else self.add("html" if kind == "partial" else kind)
            self.nodes[q].rank = max(self.nodes[q].rank, self.nodes[p].rank + .001)
            self.nodes[q].refs.append({"t": "tpl", "to": p, "var": "w%x" % r.randrange(1 << 20)} if kind == "partial" else {"t": "import", "to": p} if kind == "js" else {})
            return "use " + p
        p = r.choice(used)
        self.nodes[p].body = [self.text({"js": JS_BODY, "css": CSS_BODY}.get(kind, HTML_BODY))]
        return "body " + p

    def delete(self, *kinds):
        """Deletes some file of the kinds, if there is one."""
        if not self.of(*kinds):
            return "none"
        p = self.rng.choice(self.of(*kinds))
        del self.nodes[p]
        self.drop_refs(p)
        self.fix_iconurls()
        return "delete " + p

    def edit(self):
        res = self._edit()
        self.fix_iconurls()
        return res

    def _edit(self):
        """Applies one random edit to the model; returns its name."""
        r = self.rng
        paths = sorted(self.nodes)
        op = r.choice(["content", "content", "content", "body", "body", "addref", "addref", "dropref", "add", "add", "delete", "rename", "main", "touch", "rekind", "flip", "flip"])
        if op == "main":
            if MAIN not in self.nodes:
                op = "content"
            else:
                what = r.choice(["color", "rule", "body", "newcolor", "delcolor", "sizes"])
                extra = ["gold", "teal", "c-9"]
                if what == "newcolor":
                    free = [c for c in extra if c not in self.colors]
                    what = "color" if not free else what
                    if free:
                        self.colors[r.choice(free)] = "#%06x" % r.randrange(1 << 24)
                        return "main:newcolor"
                if what == "delcolor":
                    used = {x.get("col") for n in self.nodes.values() for x in n.refs}
                    gone = [c for c in extra if c in self.colors and c not in used]
                    if gone:
                        del self.colors[r.choice(gone)]
                        return "main:delcolor"
                    return "none"
                if what == "sizes":
                    if "huge" in self.sizes:
                        del self.sizes["huge"]
                    else:
                        self.sizes["huge"] = "4rem"
                    return "main:sizes"
                if what == "color":
                    # not the colour the icons are drawn in
                    c = r.choice([c for c in sorted(self.colors) if c != "primary"])
                    self.colors[c] = "#%06X" % r.randrange(1 << 24)
                elif what == "rule":
                    for x in self.nodes[MAIN].refs:
                        if x["t"] == "rule":
                            x["k"] = r.randrange(1000)
                            break
                else:
                    self.nodes[MAIN].body = [self.text(CSS_BODY)]
                return f"main:{what}"
        p = r.choice(paths)
        n = self.nodes[p]
        if op == "content":
            self.fresh_content(p)
            self.fix_iconurls()
        elif op == "body":
            if n.kind in ("static", "icon", "const", "stray", "photo", "list"):
                self.fresh_content(p)
            else:
                n.body = [self.text({"js": JS_BODY, "css": CSS_BODY, "main": CSS_BODY}.get(n.kind, HTML_BODY)) for _ in range(r.randrange(1, 3))]
        elif op == "flip":
            # an edit which keeps the length
            if n.kind == "static" and n.raw:
                at = r.choice([0, len(n.raw) - 1, r.randrange(len(n.raw))])
                n.raw = n.raw[:at] + bytes([n.raw[at] ^ 1]) + n.raw[at + 1:]
            elif n.body and n.kind not in ("photo", "list", "static", "icon", "const", "stray"):
                n.body[-1] = re.sub(r"[0-8]", lambda m: str(int(m[0]) + 1), n.body[-1], count=1)
        elif op == "addref":
            self.add_ref(p)
        elif op == "dropref":
            if n.refs and n.kind != "main":
                n.refs.pop(r.randrange(len(n.refs)))
                self.fix_iconurls()
        elif op == "add":
            q = self.add()
            # someone may start using it
            for _ in range(3):
                u = r.choice(sorted(self.nodes))
                if u != q and r.random() < .5:
                    self.add_ref(u)
            p = q
        elif op == "delete":
            if n.kind in ("main",):
                return "none"
            del self.nodes[p]
            self.drop_refs(p)
        elif op == "rename":
            if n.kind in ("main", "const"):
                return "none"
            q = self.new_path(n.kind)
            self.nodes[q] = self.nodes.pop(p)
            for m in self.nodes.values():
                for x in m.refs:
                    if x.get("to") == p:
                        x["to"] = q
                    if x.get("via") == p:
                        x["via"] = q
            return f"rename {p} -> {q}"
        elif op == "touch":
            return f"touch {p}"
        elif op == "rekind":
            if n.kind == "static" and "static" in self.features:
                # the file becomes a folder of the same name with a file in it
                del self.nodes[p]
                self.drop_refs(p)
                self.add("static", path=p + "/inner.txt")
            else:
                return "none"
        return f"{op} {p}"

    # ------------------------------------------------------------ on disk
    def config_json(self):
        return None


def default_config():
    """The configuration the real `init` writes."""
    import tempfile
    import vanillaplusjs.runners.init as init
    d = tempfile.mkdtemp()
    try:
        init.main(["--folder", d])
        with open(os.path.join(d, "vanillaplusjs.json")) as f:
            return json.load(f)
    finally:
        shutil.rmtree(d)


def write_config(folder, proj_or_cfg, **over):
    cfg = default_config()
    if isinstance(proj_or_cfg, Project):
        cfg["host"] = proj_or_cfg.config["host"]
        c = proj_or_cfg.config["const"]
        cfg["js_constants"] = {"relpath": CONST, "shared": c["shared"], "dev": c["dev"], "prod": c["prod"]}
        if "image" in proj_or_cfg.features:
            cfg["images"] = IMAGES
    elif proj_or_cfg:
        cfg.update(proj_or_cfg)
    cfg.update(over)
    with open(os.path.join(folder, "vanillaplusjs.json"), "w") as f:
        json.dump(cfg, f)
    return cfg


class Disk:
    """Keeps a folder in step with the model, performing real file operations and recording them."""

    def __init__(self, folder):
        self.folder = folder
        self.have = {}
        self.clock = 1_600_000_000
        self.stamps = {}
        self.replaced = set()
        os.makedirs(os.path.join(folder, "src/public"), exist_ok=True)

    def _stamp(self, p, by=None):
        self.clock += 10
        # never the same time twice
        ns = self.stamps[p] + by + self.clock * 100 % 10**8 if by is not None else self.clock * 10**9
        self.stamps[p] = ns
        os.utime(p, ns=(ns, ns))

    def _modify(self, fp, b):
        """Writes new content the way some tool would: in place, by renaming a new file over the old one, within the
        same second, with the old modification time kept, or with an older one."""
        how = len(b) + self.clock // 10
        how = how * 2654435761 % 2**32 >> 8
        style = ("place", "place", "rename", "soon", "keep", "past")[how % 6]
        if style == "keep" and (fp in self.replaced or fp not in self.stamps):
            style = "rename"
        if style in ("rename", "keep"):
            with open(fp + "~new", "wb") as f:
                f.write(b)
            if style == "keep":
                # once for each file: the freed inode may come back
                self.replaced.add(fp)
                os.utime(fp + "~new", ns=(self.stamps[fp], self.stamps[fp]))
                self.clock += 10
            os.replace(fp + "~new", fp)
            if style == "keep":
                return
        else:
            with open(fp, "wb") as f:
                f.write(b)
        self._stamp(fp, {"soon": 300_000_000, "past": -400_000_000}.get(style) if fp in self.stamps else None)

    def sync(self, snap, touch=()):
        """Makes the folder's sources equal to snap; returns the list of (op, path)."""
        ops = []
        for p in sorted(set(self.have) - set(snap)):
            fp = os.path.join(self.folder, p)
            os.remove(fp)
            ops.append(("delete", p))
            d = os.path.dirname(fp)
            while d != os.path.join(self.folder, "src/public") and d != os.path.join(self.folder, "src") and not os.listdir(d):
                os.rmdir(d)
                d = os.path.dirname(d)
        for p, b in sorted(snap.items()):
            fp = os.path.join(self.folder, p)
            old = self.have.get(p)
            if old != b:
                os.makedirs(os.path.dirname(fp), exist_ok=True)
                if old is None:
                    with open(fp, "wb") as f:
                        f.write(b)
                    self._stamp(fp)
                else:
                    self._modify(fp, b)
                ops.append(("create" if old is None else "modify", p))
            elif p in touch:
                self._stamp(fp)
                ops.append(("modify", p))
        self.have = dict(snap)
        return ops


def tree(root, follow=True):
    """path -> bytes of every file below root (following links if asked)."""
    res = {}
    for d, dirs, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                res[os.path.relpath(p, root).replace(os.sep, "/")] = fh.read()
    return res


def empty_dirs(root):
    return [os.path.relpath(d, root) for d, dirs, files in os.walk(root) if not dirs and not files and d != root]


def diff_trees(a, b, limit=6):
    """Readable differences between two path->bytes maps."""
    res = []
    for p in sorted(set(a) | set(b)):
        if p not in a:
            res.append(f"only second: {p}")
        elif p not in b:
            res.append(f"only first: {p}")
        elif a[p] != b[p]:
            x, y = a[p], b[p]
            i = next((i for i, (u, v) in enumerate(zip(x, y)) if u != v), min(len(x), len(y)))
            res.append(f"differs: {p} at byte {i}: {x[max(0,i-60):i+80]!r} vs {y[max(0,i-60):i+80]!r}")
    return res[:limit] + ([f"... {len(res)-limit} more"] if len(res) > limit else [])


# ---------------------------------------------------------------- running the code under test

class BuildFailed(Exception):
    pass


def build(folder, dev=False, symlinks=False, workers=None):
    """One real build in this process. Raises BuildFailed with the original error."""
    import vanillaplusjs.runners.build as B
    args = ["--folder", folder, "--symlinks" if symlinks else "--no-symlinks"]
    if dev:
        args.append("--dev")
    old = os.cpu_count
    if workers:
        os.cpu_count = lambda: workers
    try:
        B.main(args)
    except SystemExit as e:
        raise BuildFailed(f"exit {e.code}")
    except Exception as e:
        raise BuildFailed(f"{type(e).__name__}: {e}") from e
    finally:
        os.cpu_count = old


def clean_build_tree(folder, work, dev=False, symlinks=False, name="clean"):
    """Copies the sources, configuration and artifacts elsewhere and builds them from scratch."""
    dst = os.path.join(work, name)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    shutil.copytree(os.path.join(folder, "src"), os.path.join(dst, "src"), symlinks=True)
    shutil.copy2(os.path.join(folder, "vanillaplusjs.json"), dst)
    if os.path.isdir(os.path.join(folder, "artifacts")):
        # only which slots are taken by what, so that the numbers are the same
        shutil.copytree(os.path.join(folder, "artifacts"), os.path.join(dst, "artifacts"),
                        ignore=lambda d, fs: [f for f in fs if f not in ("placeholder.json", "counter.txt") and os.path.isfile(os.path.join(d, f))])
    build(dst, dev=dev, symlinks=symlinks)
    return dst
