"""Random stylesheets: well-formed ones rich in lexical detail, and soups of hostile fragments."""

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFURL"
NASTY_CH = ["é", "名", "😀", "\u2028", "\u00a0", "²", "٣", "½", "\ufeff", "\x7f", "\x01", "\x0b", "ß", "İ", "\u0300"]


class CSS:
    def __init__(self, rng, urls=(), comments=.1, nl="\n", soup=False):
        self.r, self.urls, self.pc, self.nl = rng, list(urls), comments, nl

    # ------------------------------------------------------------ lexical
    def esc(self, c=None):
        r = self.r
        c = c or r.choice("abfgzAF019 \"'()\\{};:@#-_/*é😀\t")
        k = r.randrange(4)
        if k == 0 and c not in "0123456789abcdefABCDEF\n":
            return "\\" + c
        h = "%x" % ord(c)
        if r.random() < .4:
            h = h.upper()
        if r.random() < .3:
            return "\\" + h.zfill(6) + r.choice(["", " ", "\t"])
        return "\\" + h + r.choice([" ", " ", "\t", self.nl])

    def name(self, n=None):
        r = self.r
        s = r.choice(["", "", "", "-", "--", "_"])
        first = True
        for _ in range(n or r.choice([1, 2, 3, 5, 8])):
            x = r.random()
            if x < .12:
                s += self.esc()
            elif x < .2:
                s += r.choice(["é", "名", "😀", "\u00a0", "²", "٣", "ß", "İ", "\ufffd"])
            elif x < .35 and not (first and not s.startswith("--")):
                s += r.choice("0123456789-_")
            else:
                s += r.choice(LETTERS)
            first = False
        return s

    def string(self, body=None):
        r = self.r
        q = r.choice("\"'")
        s = q
        for _ in range(r.choice([0, 1, 3, 6, 12])):
            x = r.random()
            if x < .2:
                s += self.esc()
            elif x < .25:
                s += "\\" + self.nl
            elif x < .35:
                s += "\\" + q
            elif x < .45:
                s += "'" if q == '"' else '"'
            elif x < .6:
                s += r.choice(NASTY_CH + ["/*", "*/", "<!--", "-->", "//", ";", "}", "{", "url(", ")", "\t", "\\\\"])
            else:
                s += r.choice(LETTERS + "0123456789 ")
        return s + q

    def number(self):
        r = self.r
        s = r.choice(["", "", "", "+", "-"])
        s += r.choice(["0", "1", "12", "007", "1.5", ".5", "0.50", "10.0", "100000000000000000000", "1e3", "1E-7", "1.5e+10", "00.10", "3.14159265358979323846", "1e-9", "123456789.123456789", ".0", "1e21", "5e-324", "9007199254740993"])
        return s

    def dim(self):
        n = self.number()
        u = self.r.choice(["px", "em", "%", "", "e", "E", "e-", "x", "-a", "--b", "\\65", "\\65 3", "vw", "fr", "Q", "é", "_", "n", "n-1", "\\31 px"])
        return n + u

    def url(self):
        r = self.r
        f = r.choice(["url", "url", "url", "URL", "Url", "u\\72l", "\\75rl"])
        if f.startswith("\\") or "\\" in f:
            f = f.replace("\\75", "\\75 ").replace("\\72", "\\72 ")
        ws = lambda: r.choice(["", "", "", " ", "\t", self.nl, "  "])
        u = r.choice(self.urls + ["x.png", "../a/b.gif", "#frag", "https://h/x?y=1&z#q", "//h/x", "data:,", "data:text/plain,x", "a%20b.png", "", "/x?y", "/y#z", "./é.png", "about:blank"]) if self.urls else "x.png"
        if r.random() < .55:
            q = r.choice("\"'")
            body = "".join(("\\" + c if c in (q, "\\") else self.esc(c) if r.random() < .05 else c) for c in u)
            return f + "(" + ws() + q + body + q + ws() + ")"
        body = "".join(("\\" + c if c in " \"'()\\" else self.esc(c) if r.random() < .05 else c) for c in u)
        return f + "(" + ws() + body + ws() + ")"

    def sp(self, must=False):
        r = self.r
        s = r.choice([" ", " ", "", self.nl, "\t", "  ", "\f" if r.random() < .1 else " "])
        if r.random() < self.pc:
            s += self.comment() + r.choice(["", " "])
        if must and not s:
            s = " "
        return s

    def comment(self):
        r = self.r
        return "/*" + "".join(r.choice(["a", " ", "*", "/ ", "'", '"', "{", "}", "//", "é", self.nl, "* /", "\\", "url(", "!", "PREPROCESSOR:"]) for _ in range(r.randrange(6))).replace("*/", "* ") + r.choice(["", "*", "**"]) + "*/"

    # ------------------------------------------------------------ grammar
    def value(self, d=2):
        r = self.r
        k = r.randrange(13)
        if k < 3:
            return self.name()
        if k < 5:
            return self.dim()
        if k == 5:
            return self.string()
        if k == 6:
            return self.url()
        if k == 7:
            return "#" + r.choice(["fff", "A1b2C3", "0e1", "123", "1e3", self.name(), "-", "\\31 a"])
        if k == 8 and d > 0:
            return self.name() + "(" + self.sp() + (self.sp() + "," + self.sp()).join(self.value(d - 1) for _ in range(r.randrange(4))) + self.sp() + ")"
        if k == 9 and d > 0:
            a, b = r.choice(["()", "[]", "{}"])
            return a + self.sp() + " ".join(self.value(d - 1) for _ in range(r.randrange(3))) + self.sp() + b
        if k == 10:
            return "calc(" + self.dim() + " " + r.choice("+-*/") + " " + self.dim() + ")"
        if k == 11:
            return r.choice(["U+26", "u+0-7F", "U+4??", "!important", "! important", "*", "=", "~", "|", "&", "/", "%", "$", "^=", "||", "?", "progid:DXImageTransform.Microsoft.gradient(startColorstr='#80000000')", "+", "-", ".", "<", ">", "\\", "`"])\
                .replace("\\", "\\41 ")
        return r.choice(["2n+1", "-n+3", "even", "+n", "n-2", "-2n-1", "n", "+ 1", "n- 1"])

    def decl(self):
        r = self.r
        return self.name() + self.sp() + ":" + self.sp() + r.choice([" ", ",", " , ", " ", self.sp(True)]).join(self.value() for _ in range(r.choice([1, 1, 2, 3]))) + r.choice(["", "", "", " !important", "!IMPORTANT"])

    def selector(self):
        r = self.r
        c = [lambda: "." + self.name(), lambda: "#" + self.name(), lambda: self.name(), lambda: "*", lambda: "[" + self.name() + r.choice(["=", "~=", "|=", "^=", "$=", "*="]) + self.string() + r.choice(["", " i"]) + "]",
             lambda: ":" + self.name(), lambda: "::" + self.name(), lambda: ":not(." + self.name() + ")", lambda: ":nth-child(" + r.choice(["2n+1", "2n + 1", "-n+3", "+3n-2", "even", "n+ 4", "-2n"]) + ")", lambda: "&", lambda: "a|b", lambda: "|x"]
        return r.choice([" ", ">", " > ", "+", " ~ ", ", ", ",", "", ""]).join(r.choice(c)() for _ in range(r.choice([1, 1, 2, 3])))

    def block(self, d):
        r = self.r
        s = "{" + self.sp()
        for _ in range(r.choice([0, 1, 2, 3])):
            if d > 0 and r.random() < .2:
                s += self.rule(d - 1) + self.sp()
            else:
                s += self.decl() + r.choice([";", ";", " ;", ";;"]) + self.sp()
        if r.random() < .3:
            s += self.decl() + self.sp()
        return s + "}"

    def rule(self, d=2):
        r = self.r
        x = r.random()
        if x < .25:
            at = r.choice(["@media (min-width:" + self.dim() + ")", "@media not all and (monochrome)", "@supports (" + self.decl() + ")", "@keyframes " + self.name(), "@font-face", "@page :first", "@layer " + self.name(), "@" + self.name() + " " + self.value(), "@container " + self.name() + " (width > " + self.dim() + ")"])
            if r.random() < .15:
                return at + self.sp() + ";"
            return at + self.sp() + self.block(d)
        return self.selector() + self.sp() + self.block(d)

    def sheet(self, n=6):
        r = self.r
        s = r.choice(["", "", "", "\ufeff", '@charset "utf-8";' + self.nl, "@import url(x.css) screen;" + self.nl, "@import 'y.css';", "<!-- ", self.comment()])
        for _ in range(r.randrange(n + 1)):
            s += self.rule() + self.sp()
        if s.startswith("<!-- "):
            s += "-->"
        return s

    SOUP = ["/*", "*/", "/", "*", "'", '"', "\\", "\\\n", "(", ")", "[", "]", "{", "}", "url(", "URL( ", "url(  '", "url(a b)", "url(a'b)", "url(a\\", "url(a\\\nb)", "url(a(b)", "url(\x01)", "url(a\\)b) ", "url", "u", "-", "--", "-->", "<!--", "<!-", "<", "#", "#-", "#1", "#\\", "@", "@-", "@a", "@1", "@\\41 ",
            "+", "+.", "+1", "-.5", ".", "..", ".5.5", "1.", "1e", "1e+", "1E5", "1e-x", "1--", "1-->", "1\\", "1%", "%", "!", ":", ";", ",", "\n", " ", "\t", "\f", "a", "é", "²", "٣", "½", "_", "0", "9", "\\0 ", "\\110000 ", "\\d800 ", "\\g", "\\a", "\\41", "\\000041 b", "\\41\t", "\\41\n\n", "\ufffd", "\ufeff", "\x00", "~", "`", "$", "|", "||", "&", "=", "^", ">",
            "U+??", "u+a", "\\\\", "'a\nb", '"\\', "'\\\n'", "''", '"\'"', "'\"'", "'\\'\"'", "data:", "-\\41 ", "-\\", "--\\41", "var(--x)", "!important", "e", "E", "x", "-->a", "a/**/b", "1/**/px", "#/**/a", "@/**/a", "url/**/(", "-/**/-", "/**/", "/***/", "/*/", "url(\n\n'a'\n)", "url( a )", "url()", "url('')", "format('x')", "\x7f", "\x0b", "\x1f"]

    def soup(self, n=20):
        r = self.r
        return "".join(r.choice(self.SOUP) for _ in range(r.randrange(1, n)))
