"""Random conforming HTML documents: a tree (in the form harness/go/htmltree writes) and one of the many texts for it."""
BOOLEAN = set("allowfullscreen async autofocus autoplay checked controls default defer disabled formnovalidate inert ismap itemscope loop multiple muted nomodule novalidate open "
              "playsinline readonly required reversed selected compact nowrap noshade declare nohref irrelevant".split())
VOID = set("area base br col embed hr img input link meta param source track wbr".split())
RAW = {"script", "style", "iframe", "noembed", "noframes", "xmp"}
WORDS = ["alpha", "Beta", "gamma delta", "x < y", "a & b", "&copy;", "&amp;lt;", "caf\u00e9", "\u6f22\u5b57", "\U0001f600", "\u00a0", "\u2028", "a\u0301", "<b>", "</p>", "<!-- no -->", "<!--", "-->", "]]>", "<![CDATA[x]]>",
         "{{ x }}", "\"q\"", "'s'", "`t`", "1 &lt 2", "&#39;", "&notit;", "&nbsp", "%20", "\\n", "${y}", "[TEMPLATE: []]", "=", "<?php ?>", "\ufeff", "\u202e", "fi\u00adn", "\t", "  ", "\n", "\n\n  ", " "]
NAMED = {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "\u00a0": "&nbsp;", "\u00e9": "&eacute;", "\u00a9": "&copy;", "\u00ad": "&shy;"}
PHRASING = ["span", "a", "em", "strong", "code", "b", "i", "u", "small", "sub", "sup", "kbd", "mark", "q", "cite", "abbr", "time", "data", "bdi", "bdo", "var", "samp", "s", "del", "ins", "label", "my-element", "x-\u00e9"]
FLOW = ["div", "section", "article", "aside", "nav", "header", "footer", "blockquote", "figure", "address", "main", "form", "fieldset", "h1", "h2", "h3", "center-piece"]


class Gen:
    def __init__(self, rng, size=40, links=()):
        self.r = rng
        self.left = size
        self.links = list(links)
        self.used = set()

    # -- trees
    def words(self, n=3):
        return "".join(self.r.choice(WORDS) if self.r.random() < .5 else self.r.choice(["one ", "two ", "three", ", ", ". "]) for _ in range(self.r.randrange(1, n + 1)))

    def text(self, n=3):
        return ["#text", self.words(n)]

    def comment(self):
        s = self.r.choice(["", " c ", " a -- b ", "x\ny", " [if IE]> <p> <![endif] ", " & &amp; <b> ", " TEMPLATE ", "[OTHER: [1]]", " [STACK] ", "\u00e9", "! ", "-"]) + self.r.choice(["", " z"])
        if s.startswith((">", "->")) or s.endswith(("-", "<!-")) or "--!" in s:
            s = " k "
        return ["#comment", s]

    def attrs(self, name=""):
        r, res = self.r, {}
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            k = r.choice(["id", "class", "title", "lang", "dir", "data-x", "data-some-thing", "aria-label", "role", "style", "hidden", "tabindex", "itemscope", "x-custom", "@click", ":bind", "v-on:x.y", "contenteditable", "href-x", "\u00e9", "onclick"])
            res[k] = "" if k in BOOLEAN or r.random() < .1 else self.value()
        return res

    def value(self):
        return self.words(2) if self.r.random() < .6 else self.r.choice(["a", "/x?a=1&b=2", "?x=1&copy=2&lt=3", "a b  c", "it's", 'say "hi"', "both ' and \"", "<p>", "{\"k\": [1, 2]}", "\n line\n", "&amp;amp;", "x>y", "`", "=", "a/", "color: red;", "&notin", "100%"])

    def el(self, name, kids=(), /, **extra):
        a = self.attrs(name)
        a.update({k.rstrip("_").replace("_", "-"): v for k, v in extra.items() if v is not None})
        return [name, sorted([k, v] for k, v in a.items()), merge(kids)]

    def many(self, f, hi=4):
        res = []
        for _ in range(self.r.randrange(0, hi + 1)):
            if self.left <= 0:
                break
            x = f()
            res.extend(x if isinstance(x[0], list) else [x])
        return res

    def phrasing(self, inside=()):
        r = self.r
        self.left -= 1
        k = r.random()
        if k < .4 or self.left <= 0:
            return self.text()
        if k < .45:
            return self.comment()
        if k < .55:
            return r.choice([lambda: self.el("br"), lambda: self.el("wbr"), lambda: self.el("img", src=self.value(), alt=self.value()), lambda: self.el("input", type=r.choice(["text", "checkbox", "radio"]), checked=r.choice([None, ""]), value=self.value()),
                             lambda: self.el("embed", src="/e.bin")])()
        if k < .6 and not {"button", "select", "a", "option"} & set(inside):
            return r.choice([self.select, self.textarea, lambda: self.el("button", self.many(lambda: self.phrasing((*inside, "button", "a"))), type="button")])()
        if k < .66 and "svg" not in inside:
            return r.choice([lambda: self.svg(inside), self.math])()
        if k < .7 and "media" not in inside:
            i = (*inside, "media")
            return r.choice([lambda: self.el("video", [self.el("source", src="/a.mp4", type="video/mp4"), self.el("track", src="/t.vtt", default="")] + self.many(lambda: self.phrasing(i)), controls=""),
                             lambda: self.el("picture", [self.el("source", srcset="/a.webp 1x, /b.webp 2x", media="(min-width: 1px)"), self.el("img", src="/a.png", alt="")]),
                             lambda: self.el("iframe", srcdoc=self.value(), allowfullscreen=""), lambda: self.el("object", [self.el("param", name="a", value="b")] + self.many(lambda: self.phrasing(i)), data="/x.bin"),
                             lambda: self.el("ruby", [["#text", "\u6f22"], self.el("rp", [["#text", "("]]), self.el("rt", [self.text(1)]), self.el("rp", [["#text", ")"]])]),
                             lambda: self.el("map", [self.el("area", shape="rect", coords="0,0,1,1", href="/x.html"), self.text(1)], name="m"), lambda: self.el("canvas", [self.text(1)], width="3"),
                             lambda: self.el("audio", [self.el("source", src="/a.ogg")], loop="", muted="")])()
        if k < .73 and "noscript" not in inside:
            return self.el("noscript", self.many(lambda: self.phrasing((*inside, "noscript"))))
        if k < .76:
            return self.script()
        name = r.choice([p for p in PHRASING if p not in inside or p == "span"])
        if name in ("a", "label") and {"a", "button", "label"} & set(inside):
            name = "span"
        extra = {"href": r.choice(["/x.html", "?a=1&b=2", "#frag", "https://e.com/?x=1&amp;y", "mailto:a@b", "javascript:void(0)"])} if name == "a" else {}
        return self.el(name, self.many(lambda: self.phrasing((*inside, name))), **extra)

    def data_script(self):
        r = self.r
        return r.choice([lambda: self.el("script", [["#text", r.choice(['{"@context": "https://schema.org", "name": "a < b & c"}', "\n{}\n"])]], type="application/ld+json"),
                         lambda: self.el("script", [["#text", '{"imports": {"a": "/js/a.js"}}']], type="importmap"),
                         lambda: self.el("script", [["#text", "<div>{{x}} && <b></b></div>"]], type=r.choice(["text/template", "text/x-handlebars"]))])()

    def script(self):
        r = self.r
        js = [l for l in self.links if l.endswith(".js")]
        k = r.random()
        if k < .4 or not js:
            return self.data_script()
        if k < .8:
            a = {"src": r.choice(js), "type": r.choice([None, "module", "text/javascript"]), "defer": r.choice([None, ""]), "crossorigin": r.choice([None, "anonymous"])}
        else:
            a = {"src": r.choice(["https://cdn.example.net/x.js?a=1&b=2", "//cdn.example.net/y.js", "rel.js", js[0] + "?x=1", js[0] + "#y"]), "async": r.choice([None, ""])}
        return self.el("script", [], **a)

    def textarea(self):
        t = self.r.choice(["", "\n"]) + self.r.choice(["", self.words(4)])
        return self.el("textarea", [["#text", t]] if t else [], rows="3")

    def select(self):
        o = lambda: self.el("option", [self.text(1)], selected=self.r.choice([None, ""]), value=self.r.choice([None, self.value()]))
        kids = [self.el("optgroup", [o() for _ in range(2)], label="g") if self.r.random() < .3 else o() for _ in range(self.r.randrange(0, 4))]
        return self.el("select", kids, multiple=self.r.choice([None, ""]))

    def svg(self, inside=()):
        r = self.r
        def sub(d=0):
            self.left -= 1
            k = r.random()
            if k < .3 and d < 3:
                return self.el("svg g", self.many(lambda: sub(d + 1), 3), transform="a(1)")
            if k < .5:
                return self.el("svg path", [], d="M0 0L1 1", viewBox=r.choice([None, "0 0 1 1"]))
            if k < .6:
                return self.el("svg use", [], **{"xlink:href": "#a"})
            if k < .7:
                return self.el("svg text", [self.text(1), self.el("svg tspan", [self.text(1)])], **{"xml:space": "preserve"})
            if k < .75:
                return self.el("svg title", [self.text(1)])
            if k < .8:
                return self.el("svg linearGradient", [self.el("svg stop", [], offset="1")], gradientUnits="x", gradientTransform="y")
            if k < .85:
                return self.el("svg foreignObject", [self.el("p", self.many(lambda: self.phrasing((*inside, "svg")), 2))])
            if k < .9:
                return self.el("svg style", [["#text", r.choice([".a{fill:red}", ".a > .b{fill:url(#x)}"])]])
            if k < .95:
                return self.comment()
            return self.text(1)
        return self.el("svg svg", self.many(sub, 4), **{"viewBox": "0 0 10 10", "xmlns": r.choice([None, "http://www.w3.org/2000/svg"]), "xmlns:xlink": r.choice([None, "http://www.w3.org/1999/xlink"])})

    def math(self):
        return self.el("math math", [self.el("math mrow", [self.el("math mi", [self.text(1)]), self.el("math mo", [["#text", "<"]]), self.el("math mn", [["#text", "1"]])])], definitionURL=self.r.choice([None, "x"]))

    def p(self, inside=()):
        return self.el("p", self.many(lambda: self.phrasing(inside)))

    def flow(self, inside=()):
        r = self.r
        self.left -= 1
        k = r.random()
        if k < .25 or self.left <= 0:
            return self.p(inside)
        if k < .3:
            return self.comment()
        if k < .38:
            return ["#text", r.choice(["\n", "\n    ", " ", "loose text", self.words(2)])]
        if k < .45:
            t = r.choice(["ul", "ol", "menu"])
            return self.el(t, self.spaced([self.el("li", self.many(lambda: r.choice([self.phrasing, self.flow])(inside), 3)) for _ in range(r.randrange(0, 4))]))
        if k < .5:
            return self.el("dl", self.spaced([self.el(r.choice(["dt", "dd"]), [self.text(2)]) for _ in range(r.randrange(1, 4))]))
        if k < .58:
            return self.table(inside)
        if k < .64:
            t = self.r.choice(["", "\n", "\n\n", " \n"])
            return self.el("pre", merge(([["#text", t]] if t else []) + self.many(lambda: self.phrasing(inside))))
        if k < .68:
            return self.el("details", [self.el("summary", [self.text(1)])] + self.many(lambda: self.flow(inside)), open=r.choice([None, ""]))
        if k < .72:
            return self.el("hr")
        if k < .76:
            return self.phrasing(inside)
        name = r.choice([f for f in FLOW if f not in inside or f == "div"])
        i = (*inside, name)
        if name in ("h1", "h2", "h3"):
            return self.el(name, self.many(lambda: self.phrasing((*inside, "h1", "h2", "h3"))))
        return self.el(name, self.many(lambda: self.flow(i), 5))

    def spaced(self, kids):
        if self.r.random() < .5:
            return kids
        res = [["#text", "\n  "]]
        for k in kids:
            res += [k, ["#text", self.r.choice(["\n  ", " ", "\n"])]]
        return res

    def table(self, inside):
        r = self.r
        cell = lambda: self.el(r.choice(["td", "th"]), self.many(lambda: r.choice([self.phrasing, self.flow])(inside), 2), colspan=r.choice([None, "2"]))
        rows = lambda n: self.spaced([self.el("tr", self.spaced([cell() for _ in range(r.randrange(0, 3))])) for _ in range(n)])
        kids = []
        if r.random() < .3:
            kids.append(self.el("caption", [self.text(1)]))
        if r.random() < .3:
            kids.append(self.el("colgroup", [self.el("col", span="2")]))
        if r.random() < .4:
            kids.append(self.el("thead", rows(1)))
        kids += [self.el("tbody", rows(r.randrange(0, 3))) for _ in range(r.randrange(1, 3))]
        if r.random() < .3:
            kids.append(self.el("tfoot", rows(1)))
        return self.el("table", self.spaced(kids))

    def head(self):
        r = self.r
        res = [self.el("meta", charset="utf-8")] if r.random() < .8 else []
        t = self.r.choice(["", "\n"]) + r.choice(["Title", self.words(4), self.words(4), ""])
        res.append(self.el("title", [["#text", t]] if t else []))
        for _ in range(r.randrange(0, 6)):
            css = [l for l in self.links if l.endswith(".css")]
            k = r.random()
            if k < .2 and css:
                x = self.el("link", rel="stylesheet", href=r.choice(css + ["https://cdn.e.com/x.css?y=1&z=2", css[0] + "?k=1"]), media=r.choice([None, "print"]), integrity=r.choice([None, "sha256-x"]))
            elif k < .3 and self.links:
                x = self.el("link", rel="preload", href=r.choice(self.links), as_=r.choice(["script", "style"]))
            elif k < .45:
                x = self.el("link", rel=r.choice(["icon", "alternate", "manifest", "prefetch", "stylesheet alternate", "modulepreload"]), href=r.choice(["/favicon.ico", "/x.css", "https://e.com/"]))
            elif k < .6:
                x = self.el("meta", name=r.choice(["description", "viewport", "theme-color"]), content=self.value())
            elif k < .65:
                x = self.el("meta", property=r.choice(["og:title", "og:type", "twitter:card"]), content=self.value())
            elif k < .75:
                x = self.comment()
            elif k < .8:
                x = self.el("noscript", [self.el("link", rel="x", href="/y")])
            elif k < .85:
                x = self.el("base", target="_blank")
            else:
                x = self.script()
            res.append(x)
        return self.spaced(res)

    def document(self):
        r = self.r
        doctype = r.choice([["#doctype", "html", []]] * 8 + [["#doctype", "html", [["public", "-//W3C//DTD XHTML 1.0 Strict//EN"], ["system", "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd"]]],
                                                                ["#doctype", "html", [["system", "about:legacy-compat"]]]])
        body = self.el("body", self.many(self.flow, 8))
        while body[2] and body[2][-1][0] == "#text":  # text at the very end is joined with the line breaks which follow
            body[2].pop()
        between = [["#text", "\n"]] if r.random() < .5 else []
        kids = [self.el("head", self.head())] + between + [body]
        pre = [self.comment()] if r.random() < .2 else []
        post = [self.comment()] if r.random() < .1 else []
        return [*pre, doctype, *([self.comment()] if r.random() < .2 else []), self.el("html", kids, lang="en"), *post]

    # -- text
    def esc(self, s, quote=None):
        r, out = self.r, []
        for i, c in enumerate(s):
            must = c == "&" or c == "\r" or (c == "<" and quote is None) or c == quote
            if quote == "" and c in " \t\n\f\"'=<>`":
                must = True
            if c == "&" and r.random() < .3 and (i + 1 == len(s) or s[i + 1] in " \t\n"):
                must = False
            if must or (ord(c) > 126 or c in "<>\"'") and r.random() < .2 or r.random() < .005 and c not in "\n\t ":
                out.append(NAMED[c] if c in NAMED and r.random() < .6 else f"&#{ord(c)};" if r.random() < .5 else f"&#x{ord(c):{r.choice(['x', 'X'])}};")
            else:
                out.append(c)
        return "".join(out)

    def start(self, n):
        r = self.r
        name = n[0].split(" ")[-1]
        case = (lambda s: s.upper()) if " " not in n[0] and "\u00e9" not in name and r.random() < .05 else (lambda s: s)
        parts = []
        attrs = list(n[1])
        r.shuffle(attrs)
        for k, v in attrs:
            if v == "" and r.random() < .6:
                parts.append(k)
                continue
            q = r.choice(['"', '"', "'", ""])
            if q == "" and (v == "" or v.endswith("/")):
                q = '"'
            parts.append(k + r.choice(["=", "=", " = ", "=\n"] if q else ["="]) + q + self.esc(v, q) + q)
        sep = [r.choice([" ", " ", "\n   ", "  "]) for _ in parts]
        end = ""
        if name in VOID and " " not in n[0] and r.random() < .3:
            end = " /"
        return "<" + case(name) + "".join(s + p for s, p in zip(sep, parts)) + end + r.choice([">", ">", " >" if not end else ">"])

    def nodes(self, ns, inside=""):
        return "".join(self.node(n, inside, ns[i + 1] if i + 1 < len(ns) else None, i + 1 == len(ns)) for i, n in enumerate(ns))

    def node(self, n, inside, nxt, last):
        r = self.r
        if n[0] == "#text":
            return n[1] if inside in RAW else self.esc(n[1])
        if n[0] == "#comment":
            return "<!--" + n[1] + "-->"
        if n[0] == "#doctype":
            d = dict(n[2])
            kw = r.choice(["<!DOCTYPE html", "<!doctype html", "<!DOCTYPE HTML"])
            return kw + (f' PUBLIC "{d["public"]}" "{d["system"]}"' if "public" in d else f' SYSTEM "{d["system"]}"' if d else "") + ">" + r.choice(["", "\n"])
        name = n[0].split(" ")[-1]
        if " " not in n[0] and name in VOID:
            return self.start(n)
        if " " in n[0] and not n[2] and r.random() < .7:
            return self.start(n)[:-1].rstrip(" ") + " />"
        body = self.nodes(n[2], name if " " not in n[0] else "")
        if name in ("pre", "textarea", "listing") and (body.startswith("\n") or r.random() < .2):
            body = "\n" + body
        end = f"</{name}>"
        # end tags which may be left out
        nn = nxt[0] if nxt else None
        if " " not in n[0] and r.random() < .3 and not (n[2] and n[2][-1][0] == "#comment"):
            if name == "li" and (nn == "li" or last) or name in ("dt", "dd") and nn in ("dt", "dd") or name == "dd" and last or name in ("td", "th") and (nn in ("td", "th") or last) or \
                    name == "tr" and (nn == "tr" or last) or name == "option" and (nn in ("option", "optgroup") or last) or \
                    name == "p" and (nn in ("p", "div", "ul", "ol", "section", "pre", "h1", "h2", "hr", "blockquote") or last and inside in ("div", "section", "li", "td", "body")) or \
                    name == "tbody" and (nn in ("tbody", "tfoot") or last) and n[2]:
                end = ""
        return self.start(n) + body + end


def merge(kids):
    """Joins adjacent texts, as a parser does."""
    res = []
    for k in kids:
        if k[0] == "#text" and res and res[-1][0] == "#text":
            res[-1] = ["#text", res[-1][1] + k[1]]
        elif k != ["#text", ""]:
            res.append(k)
    return res
