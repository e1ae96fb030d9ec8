"""Random scripts which are hard to tokenize. Most are valid; the independent parser decides which."""
import random

NASTY = ["http://x", "it's", '"', "`", "${", "}", "*\\/", "import x from '/nope.js'", 'import "/nope.css";', "@@type-hints", "// c", "<!-- x -->", "</script>", "é€😀", "/re/", "\\", "a/b/c",
         "PREPROCESSOR: ignore-imports", "\t", "]", "[", "(", "{", "import", "from '/nope.js'", "\\'", "0x", "-->", "'use strict'"]
IDENTS = ["a", "b", "x1", "$", "_", "$a", "_b", "a$b", "é", "ünï", "名前", "ℵ", "𝒳", "\\u0061b", "\\u{62}c", "as", "from", "of", "get", "set", "async", "let1", "importer", "fromage", "static1", "a_b", "$import", "_from",
          "undefined", "NaN", "target", "meta", "constructor", "𠮷"]
PROPS = IDENTS + ["import", "from", "as", "class", "return", "if", "typeof", "default", "delete", "in", "of", "constructor", "new", "case"]


class JS:
    def __init__(self, rng, hints=False, comments=0.25, module=True, nl="\n"):
        self.r = rng
        self.n = 0
        self.comments = comments
        self.module = module
        self.infn = 0

    def pick(self, *c):
        return self.r.choice(c)

    def fresh(self):
        self.n += 1
        return self.pick("v", "$v", "_v", "é", "v$") + str(self.n)

    # gaps
    def comment(self, single=True):
        r = self.r
        t = "".join(self.pick(r.choice(NASTY), " ", "w") for _ in range(r.randrange(4)))
        if single and r.random() < .5:
            return "//" + t.replace("\n", " ") + self.pick(" */", "", "/*", " /* */", "*/", " x*/y", "**/") + self.pick("\n", "\n", "\r\n", "\u2028")
        return "/*" + self.pick("", "*", " ", "/", "\n") + t.replace("*/", "") + self.pick("", "*", "\n * b\n", "//", "/* ") + "*/"

    def sp(self):
        """anything which is no line break"""
        x = self.r.random()
        if x < .5:
            return ""
        if x < .8:
            return " "
        if x < .8 + .1 * (self.comments > 0):
            return "/*" + self.pick("", " c ", "'", '"', "`", "*", "import", "//") + "*/"
        return self.pick("\t", "\u00a0", "\ufeff", "\f", "\v", "\u2003", "  ")

    def g(self):
        x = self.r.random()
        if x < .55:
            return ""
        if x < .75:
            return " "
        if x < .82:
            return self.pick("\n", "\n", "\n\n", "\n  ", "\r\n", "\u2029")
        if x < .82 + self.comments * .5:
            return self.comment()
        return self.sp()

    def g1(self):
        return self.g() + self.pick(" ", " ", "\t", "/**/", " ") + self.sp()

    # literals
    def number(self):
        return self.pick("0", "1", "42", "3.14", ".5", "5.", "1e3", "1E-7", "2.5e+10", "0xFf", "0b101", "0o17", "1_000", "10n", "0xFFn", "1..valueOf()", "5.0.toFixed(2)", "0.0000001", "1e21", ".1e-2",
                         "9007199254740993", "123456789012345678901234567890n", str(self.r.random()), "00" if not self.module else "0", "1_0.0_1")

    def string(self):
        q = self.pick("'", '"')
        parts = []
        for _ in range(self.r.randrange(5)):
            parts.append(self.pick(
                self.r.choice(NASTY).replace("\\", "\\\\").replace(q, "\\" + q), "a", " ", "\\n", "\\r", "\\t", "\\b", "\\f", "\\v", "\\0", "\\x41", "\\xe9", "\\u00e9", "\\u{1F600}", "\\u2028", "\\ud83d\\ude00", "\\ud83d",
                "\\" + q, "\\\\", "\\\n", "\\\r\n", "\\d", "\\/", "\\'", '\\"', "é", "😀", "\u2028", "\t", "\x7f", "\x01", "\f", "\v", "\\x00" + "1", "\\u{0000041}", "\\`", "\\$", "\u00a0", "\\a", "\\e", "'" if q == '"' else '"', "\\\u2028", "\\a0", "\\0a", "\\u000a", "0", "1", "abc",
                *([] if self.module else ["\\101", "\\7", "\\08", "\\8", "\\377", "\\400"])))
        return q + "".join(parts) + q

    def template(self, d):
        parts = []
        for _ in range(self.r.randrange(5)):
            parts.append(self.pick(self.r.choice(NASTY).replace("\\", "\\\\").replace("`", "\\`").replace("${", "\\${"), "\n", "\r\n", "\\n", "\\`", "$", "{", "}", "\\${", "a", "// x", "/*", "*/", "'", '"', "\f", "\u2028", "\\\\", "\\u{61}", "$$", "\nimport '/nope.js';\n", "/*@@type-hint*/"))
            if self.r.random() < .35 and d > 0:
                parts.append("${" + self.g() + self.expr(d - 1) + self.g() + "}")
        t = "".join(parts)
        return "`" + t + "`"

    def regex(self):
        body = "".join(self.pick("a", "\\d", "[/]", "\\/", "[\\]/]", "(?:x)", "'", '"', "`", "[^'\"/]", "\\\\", "[\\\\]", ".", "\\[", "[[]", "é", "(?<n>y)", "{2}", "\\'", "[/*]", "/*"[1:], "\\*", "$", "^", "|", "//"[:0], "\\u0041", "[(]", "\\(")
                       for _ in range(self.r.randrange(1, 5)))
        if body[:1] in ("", "*", "{", "?", "+"):
            body = "x" + body
        return "/" + body + "/" + self.pick("", "", "g", "gi", "m", "y", "s", "dg", "u"[:0])

    # expressions
    def prim(self, d):
        r = self.r.random()
        if d <= 0 or r < .2:
            return self.ident()
        if r < .3:
            return self.number()
        if r < .45:
            return self.string()
        if r < .58:
            return self.template(d)
        if r < .68:
            return self.regex()
        if r < .75:
            return "[" + ",".join(self.g() + self.pick("", "...")[:0] + self.expr(d - 1) for _ in range(self.r.randrange(3))) + self.g() + "]"
        if r < .84:
            return "(" + self.object(d - 1) + ")"
        if r < .9:
            return "(" + self.func(d - 1) + ")"
        if r < .95:
            return "(" + self.g() + self.expr(d - 1) + self.g() + ")"
        return self.pick("this", "null", "true", "new Map()", "import.meta.url" if self.module else "this", "import('/nope.js')", "import('./nope.js')", "typeof x", "new.target" if False else "void 0")

    def ident(self):
        return self.r.choice(IDENTS)

    def prop(self):
        return self.r.choice(PROPS)

    def object(self, d):
        ps = []
        for _ in range(self.r.randrange(4)):
            k = self.pick(self.prop(), self.string(), "1", "[" + self.expr(d - 1) + "]", "1e3")
            x = self.r.random()
            if x < .5:
                ps.append(k + self.g() + ":" + self.g() + self.expr(d - 1))
            elif x < .7:
                ps.append(k + self.sp() + "(" + ")" + self.g() + self.block(d - 1))
            elif x < .8:
                ps.append("get" + self.g1() + k + "()" + self.block(d - 1))
            elif x < .9:
                ps.append("..." + self.g() + self.prim(d - 1))
            else:
                ps.append("*" + self.g() + k + "(){}")
        return "{" + self.g() + (self.g() + "," + self.g()).join(ps) + self.g() + "}"

    def func(self, d):
        self.infn += 1
        try:
            return self.pick(
                lambda: "function" + self.pick("", self.g1() + self.fresh()) + self.g() + "(a, b)" + self.g() + self.block(d),
                lambda: self.pick("a", "(a)", "()", "async" + " (a)", "({a})", "(a = /x/)") + self.sp() + "=>" + self.g() + self.pick(self.block(d), "(" + self.object(d) + ")", self.prim(d)),
                lambda: "class" + self.g1() + self.pick("", "A ") + self.pick("", "extends B ", "extends (B) ") + self.classbody(d),
                lambda: "function*(){ yield" + self.sp() + " " + self.pick("/a/", "1", "") + "; }",
                lambda: "async function(){ await" + " " + self.sp() + self.prim(d) + "; }")()
        finally:
            self.infn -= 1

    def classbody(self, d):
        ms = []
        for _ in range(self.r.randrange(3)):
            ms.append(self.pick(
                lambda: self.prop() + "_(){}", lambda: "static" + self.g1() + "x" + self.g() + "=" + self.g() + self.expr(d - 1) + ";", lambda: f"#p{self.nx()} = 1;",
                lambda: "get y(){ return" + " " + self.expr(d - 1) + " }", lambda: "static { " + self.stmt(d - 1) + " }", lambda: "[" + self.expr(d - 1) + "](){}", lambda: "import(){}", lambda: "from = 1;", lambda: "'as'(){}")())
        return "{" + self.g() + (self.g()).join(m + self.pick("", ";", "\n") for m in ms) + "}"

    def nx(self):
        self.n += 1
        return self.n

    def post(self, d):
        e = self.prim(d)
        for _ in range(self.r.choice([0, 0, 1, 1, 2, 3])):
            e += self.g() + self.pick(
                lambda: "." + self.g() + self.prop(), lambda: "[" + self.expr(d - 1) + "]", lambda: "(" + self.g() + self.expr(d - 1) + self.g() + ")", lambda: "()", lambda: "?." + self.prop(), lambda: "?.[" + self.expr(d - 1) + "]",
                lambda: self.template(d - 1) if "?." not in e else ".x", lambda: "." + self.g() + self.prop())()
        if e[:1].isdigit() and ("." not in e):
            pass
        return e

    def unary(self, d):
        x = self.r.random()
        if x < .7:
            return self.post(d)
        if x < .85:
            return self.pick("!", "~", "+", "-", "typeof ", "void ", "delete this.p, +") + (self.post(d) if self.r.random() < .8 else "/x/.y")
        if x < .93:
            return "(" + self.pick("a", "x1", "$a.b") + self.pick("++", "--") + ")"
        return "(" + self.pick("a", "x1") + self.pick("++", "--") + self.sp() + self.pick("/", "%", "*", "-", "+") + " " + self.post(d) + ")"

    def expr(self, d):
        if d <= 0:
            return self.prim(0)
        x = self.r.random()
        if x < .35:
            return self.unary(d)
        if x < .7:
            op = self.pick("+", "-", "/", "/", "*", "%", "&&", "||", "<", ">", "<=", ">=", "==", "===", "!==", "<<", ">>", ">>>", "|", "&", "^", " in ", " instanceof ", "/")
            return self.unary(d - 1) + self.pick(self.sp(), " ", self.g1()) + op + self.pick(" ", self.g1()) + self.unary(d - 1)
        if x < .76:
            return "(" + self.unary(d - 1) + ") ?? (" + self.unary(d - 1) + ")"
        if x < .86:
            return self.unary(d - 1) + self.g1() + "?" + self.g1() + self.pick(self.expr(d - 1), "{}") + self.g1() + ":" + self.g1() + self.pick(self.expr(d - 1), self.object(d - 1))
        if x < .93:
            return "(" + self.pick("a", "x1", "$a", "b.c", "b[0]") + self.g() + self.pick("=", "+=", "/=", "??=", ">>>=", "**=", "-=") + self.g() + self.expr(d - 1) + ")"
        return "(" + self.expr(d - 1) + self.g() + "," + self.g() + self.expr(d - 1) + ")"

    # statements
    def end(self):
        return self.pick(";", ";", ";\n", "\n", "\n", self.comment() + "\n", " // end\n", ";" + self.g())

    def block(self, d):
        return "{" + self.g() + "".join(self.stmt(d - 1) for _ in range(self.r.randrange(3))) + self.g() + "}"

    def stmt(self, d):
        if d <= 0:
            return self.pick(self.ident() + self.end(), ";", "{}", self.pick("var", "var") + " " + self.fresh() + self.end())
        g = self.g
        return g() + self.pick(
            lambda: self.pick("let", "const", "var") + self.g1() + self.fresh() + g() + "=" + g() + self.expr(d) + self.end(),
            lambda: self.pick("let", "const", "var") + self.g1() + self.fresh() + g() + "=" + g() + self.pick(self.object(d), self.func(d)) + self.end(),
            lambda: self.pick("let", "const") + self.g1() + "{" + g() + self.pick("from", "as", "x") + g() + ":" + g() + self.fresh() + g() + "}" + g() + "=" + g() + self.ident() + self.end(),
            lambda: self.expr(d) + self.end(),
            lambda: self.expr(d) + self.end(),
            lambda: "if" + g() + "(" + self.expr(d - 1) + ")" + g() + self.pick(self.block(d), "/re'/.test(x)" + ";", self.expr(d - 1) + ";") + self.pick("", g() + "else" + self.g1() + self.block(d)),
            lambda: "for" + g() + "(" + self.pick("let i = 0; i < 1; i++", "const k of [1]", "var q in {}", ";false;") + ")" + g() + self.pick(self.block(d), "/`/.x" + ";"),
            lambda: "while" + g() + "(" + self.expr(d - 1) + ")" + g() + self.pick(self.block(d), "/\"/.exec(y);"),
            lambda: "do" + self.g1() + self.block(d) + g() + "while" + g() + "(0)" + self.pick(";", "\n", " "),
            lambda: self.pick("lab", "from", "as") + str(self.nx()) + g() + ":" + g() + self.pick(self.block(d), self.expr(d - 1) + ";"),
            lambda: "switch" + g() + "(" + self.expr(d - 1) + "){ case" + self.g1() + self.pick("/x/", self.expr(d - 1)) + g() + ":" + g() + self.stmt(d - 1) + " default" + g() + ":" + g() + self.pick(self.block(d), "/y'/.z;") + "}",
            lambda: "try" + g() + self.block(d) + g() + self.pick("catch" + g() + self.block(d), "finally" + self.block(d), "catch(e)" + self.block(d)) + self.pick("", "\n/'/.test(z);"),
            lambda: self.pick("", "async ") + "function" + self.pick("", "*") + self.g1() + self.fresh() + g() + "(" + self.pick("", "a", "a, b = /x/") + ")" + g() + self.fbody(d) + self.pick("", "\n/`/g;", ";"),
            lambda: "class" + self.g1() + self.fresh() + self.g1() + self.classbody(d),
            lambda: self.block(d) + self.pick("", "/'/.a;", "\n/\"/;"),
            lambda: "throw" + " " + self.sp() + self.expr(d - 1) + ";",
            lambda: self.pick("debugger;", ";", ";;", "{}", "'use strict';", "\"use strict\"\n"),
        )()

    def fbody(self, d):
        self.infn += 1
        s = "{" + self.g() + "".join(self.stmt(d - 1) for _ in range(self.r.randrange(3))) + self.pick("", "return" + self.sp() + " " + self.expr(d - 1) + self.end(), "return" + self.sp() + "\n" + self.expr(d - 1) + ";", "return;") + "}"
        self.infn -= 1
        return s

    def imp(self, spec=None, local=None):
        """An import declaration of the given specifier."""
        g = self.g
        if spec is None:
            spec = self.pick("bare", "https://cdn.example.com/x.js", "//cdn.example.com/y.js", "@scope/pkg", "/a.js?x=1", "./a.js#b", "data:text/javascript,1", "bare/from.js")
        q = self.pick("'", '"')
        s = q + spec.replace("\\", "\\\\").replace(q, "\\" + q) + q
        kind = self.r.randrange(8)
        nm = self.fresh
        if kind == 0:
            return "import" + g() + s + self.pick(";", "\n", " ;")
        named = lambda: "{" + g() + (g() + "," + g()).join(
            self.pick(lambda: self.prop_plain() + self.g1() + "as" + self.g1() + nm(), lambda: nm(), lambda: "default" + self.g1() + "as" + self.g1() + nm(), lambda: self.pick('"str x"', "'from'", "'a,b'") + g() + "as" + self.g1() + nm())()
            for _ in range(self.r.randrange(4))) + self.pick("", "", g()) + "}"
        d = nm()
        clause = [lambda: self.g1() + d, lambda: g() + "*" + g() + "as" + self.g1() + nm(), lambda: g() + named(), lambda: self.g1() + d + g() + "," + g() + named(), lambda: self.g1() + d + g() + "," + g() + "*" + g() + "as" + self.g1() + nm(),
                  lambda: g() + named(), lambda: self.g1() + d][kind - 1]()
        tail = self.pick("", "", "", " with { type: 'json' }") if self.module else ""
        return "import" + clause + (self.g1() if not clause.endswith("}") or self.r.random() < .5 else g()) + "from" + g() + s + tail + self.pick(";", "\n", " ;", "; // c\n")

    def prop_plain(self):
        return self.pick("a", "from", "as", "import", "class", "$", "_", "é")

    def program(self, size=12, d=3):
        parts = []
        if self.r.random() < .1:
            parts.append("#!/usr/bin/env node\n")
        if self.r.random() < .3:
            parts.append(self.comment())
        for _ in range(self.r.randrange(1, size)):
            if self.module and self.r.random() < .15:
                parts.append(self.g() + self.imp())
            elif self.module and self.r.random() < .12:
                parts.append(self.pick(lambda: "export " + self.pick("const", "let") + " " + self.fresh() + " = " + self.expr(d) + ";\n", lambda: "export * from 'bare';\n", lambda: "export {} from '/nope.js';\n", lambda: "export { default as " + self.fresh() + " } from './nope.js';\n")())
            else:
                parts.append(self.stmt(d))
            parts.append(self.pick("", "\n", "\n\n", " "))
        if self.r.random() < .3:
            parts.append(self.pick("// end", "/* end */", "// @@type-hints", "/'/", "`x`"))
        return "".join(parts)
