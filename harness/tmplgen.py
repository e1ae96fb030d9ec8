"""Random pages and partials with template commands, and an interpreter for them over document trees."""
import json, posixpath
import htmlgen
from htmlgen import merge

NAMES = ["title", "price", "a", "b", "x-y", "caf\u00e9", "with space", "type", "name"]
VALUES = ["Try it Now", "$24.99", "<b>bold</b> & co", "&amp;", "\u6f22\u5b57 \U0001f600", "\n leading", "trailing \n", "", " ", "-->", "<!--[STACK: [\"retrieve\", \"a\"]]-->", "[STACK: [\"pop\"]]", "]]-->", "quote \" and ' and \\", "\t tab",
          "</title></textarea></script>", "{{x}}", "\u2028", "a\nb\nc", 0, 1, -7, 42, 0.5, 1e21, 123456789012345678, "0", "None", "{\"type\": \"variable\"}"]
RESTRICT = ("a", "button", "label", "form", "main", "h1", "h2", "h3", "header", "footer", "address", "media", "svg", "noscript", "select", "option", "q")


class Slots(htmlgen.Gen):
    """Documents with places for commands: ["#slot", kind]."""
    RATE = .25

    def text(self, n=3):
        if self.r.random() < self.RATE:
            return ["#slot", "text"]
        return super().text(n)

    def phrasing(self, inside=()):
        if self.r.random() < self.RATE / 3 and "option" not in inside:
            self.left -= 1
            return ["#slot", "phrasing"]
        return super().phrasing(inside)

    def flow(self, inside=()):
        if self.r.random() < self.RATE:
            self.left -= 1
            return ["#slot", "flow"]
        return super().flow(inside)

    def textarea(self):
        t = super().textarea()
        plain([t])
        if self.r.random() < .5:
            t[2] = [["#slot", "rcdata"]] + t[2] if self.r.random() < .5 else t[2] + [["#slot", "rcdata"]]
        return t

    def head(self):
        res = super().head()
        plain(res)
        for n in res:
            if n[0] == "title" and self.r.random() < .7:
                n[2] = (n[2] if self.r.random() < .5 else []) + [["#slot", "rcdata"]] + (n[2] if self.r.random() < .3 else [])
        for _ in range(self.r.randrange(0, 3)):
            res.insert(self.r.randrange(len(res) + 1), ["#slot", "head"])
        return res

    def comment(self):
        c = super().comment()
        if self.r.random() < .3:  # close to a command, but not one
            c[1] = self.r.choice(["[TEMPLATE:[\"/none.html\"]]", "[TEMPLATE: not json]", "[STACK: {}]", "[STACK: []]", "[STACK: [1]]", "[TEMPLATE: \"/x.html\"]", " x [STACK: [\"pop\"]]", "[STACK: [\"pop\"]] x", "STACK: [\"pop\"]", "[TEMPLATES: [\"/x.html\"]]",
                                   "[STACK [\"pop\"]]", "[ TEMPLATE ]"])
        return c

    def node(self, n, inside, nxt, last):
        if n[0] == "#cmd":
            return "<!--" + self.command(n[1], inside in ("title", "textarea")) + "-->"
        return super().node(n, inside, nxt, last)

    def command(self, c, rcdata):
        r = self.r
        kind, args = c["text"]
        s = json.dumps(args, ensure_ascii=r.random() < .5)
        if kind == "TEMPLATE" and r.random() < .3:
            s = json.dumps(args, indent=r.choice([1, 4]), ensure_ascii=r.random() < .5)
        for ch in ("<", ">", "-", "\u2028") + (("&",) if rcdata else ()):
            if ch in s and (ch in "&\u2028" or rcdata and ch == "<" or r.random() < .5 or "--" in s or "<!" in s):
                s = "".join(f"\\u{ord(x):04x}" if x == ch and not (x == "-" and num(s, i)) else x for i, x in enumerate(s))
        return r.choice(["", " ", "\n  "]) + "[" + r.choice(["", " "]) + kind + r.choice(["", " "]) + ":" + r.choice([" ", "  "]) + s + "]" + r.choice(["", " ", "\n"])


def num(s, i):
    """Whether the minus at s[i] is part of a number (a \\u escape would not be valid there)."""
    q = 0
    for j in range(i):
        if s[j] == '"' and not esc(s, j):
            q ^= 1
    return not q


def esc(s, j):
    n = 0
    while j - 1 - n >= 0 and s[j - 1 - n] == "\\":
        n += 1
    return n % 2 == 1


def plain(nodes):
    """Text which looks like the start of a comment cannot be told from one in a title or textarea with commands."""
    for n in nodes:
        if n[0] in ("title", "textarea"):
            for t in n[2]:
                t[1] = t[1].replace("<!", "<") if t[0] == "#text" else t[1]


class Program:
    """A page or partial: its tree with commands, and the names it needs."""

    def __init__(self, path, kind, params, tree, gen):
        self.path, self.kind, self.params, self.tree, self.gen = path, kind, params, tree, gen

    def source(self):
        return self.gen.nodes(self.tree)


class Library:
    def __init__(self, rng, links, size=12):
        self.r = rng
        self.links = links
        self.size = size
        self.partials = {}
        self.stats = {}

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def slots(self, size):
        return Slots(self.r, size, self.links)

    def add_partial(self, kind):
        r = self.r
        d = r.choice(["", "head/", "a/", "a/b/"])
        path = f"src/partials/{d}{kind}{len(self.partials)}.html"
        g = self.slots(self.size)
        if kind == "text":
            kids = [["#slot", "rcdata"] if r.random() < .5 else g.words(2) and htmlgen.Gen.text(g) for _ in range(r.randrange(0, 4))]
        elif kind == "phrasing":
            kids = g.many(lambda: g.phrasing(RESTRICT), 5)
        elif kind == "flow":
            kids = g.many(lambda: g.flow(RESTRICT), 5)
        else:
            kids = [n for n in g.head() if r.random() < .7 and not (n[0] == "meta" and ["charset", "utf-8"] in n[1]) and n[0] != "base"]
            kids = [k for k in kids if k[0] != "#text" or not k[1].strip()] + ([["link", [["rel", "canonical"]], []]] if r.random() < .5 else []) + ([["script", [], [["#text", "import { b } from '/js/deep/b.js';\nconsole.log(b);"]]]] if r.random() < .4 else [])
        params = r.sample(NAMES, r.randrange(0, 4))
        tree, _ = self.fill(merge(kids), path, set(params))
        self.partials[path] = Program(path, kind, params, tree, g)
        return path

    def page(self, path):
        g = self.slots(self.size * 2)
        tree, _ = self.fill(g.document(), path, set())
        return Program(path, "page", [], tree, g)

    # choosing the commands, in document order
    def fill(self, nodes, path, scope, stack=None):
        stack = stack if stack is not None else []
        res = []
        for n in nodes:
            if n[0] == "#slot":
                new, scope = self.choose(n[1], path, scope, stack)
                res += new
            elif n[0].startswith("#"):
                res.append(n)
            else:
                kids, scope = self.fill(n[2], path, scope, stack)
                res.append([n[0], n[1], kids])
        return merge(res), scope

    def choose(self, kind, path, scope, stack):
        r, res = self.r, []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            fits = [p for p in self.partials.values() if p.kind == {"rcdata": "text", "text": "text"}.get(kind, kind) or kind in ("flow", "phrasing") and p.kind == "text" or kind == "flow" and p.kind == "phrasing"]
            if k < .3 and fits:
                p = r.choice(fits)
                vs, missing = {}, []
                for name in p.params:
                    vs[name] = {"type": "variable", "name": r.choice(sorted(scope))} if scope and r.random() < .3 else r.choice(VALUES)
                for _ in range(r.choice([0, 0, 1])):
                    vs.setdefault(r.choice(NAMES), r.choice(VALUES))
                how = "/" + p.path[len("src/partials/"):] if r.random() < .5 else posixpath.relpath(p.path, posixpath.dirname(path))
                if not how.startswith("/") and r.random() < .2:
                    how = "./" + how
                args = [how] + ([vs] if vs or r.random() < .3 else [])
                res.append(["#cmd", {"do": "template", "path": p.path, "vars": vs, "text": ["TEMPLATE", args]}])
                self.count("template:" + kind)
            elif k < .5:
                name, v = r.choice(NAMES), r.choice(VALUES)
                scope = scope | {name}
                res.append(["#cmd", {"do": "define", "name": name, "value": v, "text": ["STACK", ["define", name, v]]}])
                self.count("define:" + kind)
            elif k < .9:
                if not scope:
                    continue
                if kind == "head":  # text is not allowed between the elements of a head
                    continue
                name = r.choice(sorted(scope))
                res.append(["#cmd", {"do": "retrieve", "name": name, "text": ["STACK", ["retrieve", name]]}])
                self.count("retrieve:" + kind)
            elif kind != "rcdata" and k < .95:
                # a scope of its own around some commands
                inner, _ = self.choose("head" if kind == "head" else "text", path, set(), stack)
                if any(c[0] == "#cmd" and c[1]["do"] == "template" and not c[1]["text"][1][0].startswith("/") for c in inner):
                    continue
                res += [["#cmd", {"do": "push", "text": ["STACK", ["push", "src/partials/own.html"]]}], *inner, ["#cmd", {"do": "pop", "text": ["STACK", ["pop"]]}]]
                self.count("push:" + kind)
            elif kind == "text":
                res.append(["#text", r.choice(["plain", " ", "\n"])])
        return res, scope

    # what the commands mean
    def expand(self, nodes, env, stack=None):
        stack = stack if stack is not None else []
        env_box = env if isinstance(env, list) else [env]
        res = []
        for n in nodes:
            if n[0] == "#cmd":
                c = n[1]
                if c["do"] == "define":
                    env_box[0][c["name"]] = c["value"]
                elif c["do"] == "retrieve":
                    res.append(["#text", str(env_box[0][c["name"]])])
                elif c["do"] == "push":
                    stack.append(env_box[0])
                    env_box[0] = {}
                elif c["do"] == "pop":
                    env_box[0] = stack.pop()
                else:
                    own = {k: env_box[0][v["name"]] if isinstance(v, dict) else v for k, v in c["vars"].items()}
                    res += self.expand(self.partials[c["path"]].tree, own)
            elif n[0].startswith("#"):
                res.append(n)
            else:
                res.append([n[0], n[1], self.expand(n[2], env_box, stack)])
        return merge(res)
