"""A tokenizer for stylesheets written from https://www.w3.org/TR/css-syntax-3/ (section 4), as an oracle.

tokens(text) -> list of tuples:
  ("ws",) ("string", v) ("bad-string",) ("hash", v, flag) ("delim", c) ("number", value, type) ("percentage", value) ("dimension", value, type, unit)
  ("ident", v) ("function", v) ("url", v) ("bad-url",) ("at", v) ("CDO",) ("CDC",) (":",) (";",) (",",) ("[",) ("]",) ("(",) (")",) ("{",) ("}",)
Comments yield nothing. With spans=True each is (token, start, end).
"""
import re
from decimal import Decimal

EOF = ""


def preprocess(text):
    text = re.sub("\r\n|\r|\f", "\n", text)
    return re.sub("[\0\ud800-\udfff]", "\ufffd", text)


class Tok:
    def __init__(self, text):
        self.t, self.i, self.n = text, 0, len(text)

    def at(self, k=0):
        j = self.i + k
        return self.t[j] if j < self.n else EOF

    # -- checks (4.3.8 - 4.3.10), at an offset
    def name_start(self, c):
        return c != EOF and (c.isascii() and c.isalpha() or c >= "\x80" or c == "_")

    def name(self, c):
        return c != EOF and (self.name_start(c) or c in "0123456789-")

    def digit(self, c):
        return c != EOF and c in "0123456789"

    def escape(self, k=0):
        return self.at(k) == "\\" and self.at(k + 1) != "\n"

    def ident(self, k=0):
        c = self.at(k)
        if c == "-":
            return self.name_start(self.at(k + 1)) or self.at(k + 1) == "-" or self.escape(k + 1)
        return self.name_start(c) or self.escape(k)

    def number(self, k=0):
        c = self.at(k)
        if c in ("+", "-"):
            return self.digit(self.at(k + 1)) or self.at(k + 1) == "." and self.digit(self.at(k + 2))
        if c == ".":
            return self.digit(self.at(k + 1))
        return self.digit(c)

    # -- consuming
    def comments(self):
        while self.at() == "/" and self.at(1) == "*":
            j = self.t.find("*/", self.i + 2)
            self.i = self.n if j < 0 else j + 2

    def c_escape(self):
        """after the backslash"""
        c = self.at()
        if c == EOF:
            return "\ufffd"
        if c in "0123456789abcdefABCDEF":
            m = re.compile("[0-9a-fA-F]{1,6}").match(self.t, self.i)
            self.i = m.end()
            if self.at() in ("\n", "\t", " "):
                self.i += 1
            v = int(m[0], 16)
            return "\ufffd" if v == 0 or 0xD800 <= v <= 0xDFFF or v > 0x10FFFF else chr(v)
        self.i += 1
        return c

    def c_ident(self):
        res = []
        while True:
            c = self.at()
            if self.name(c):
                res.append(c)
                self.i += 1
            elif self.escape():
                self.i += 1
                res.append(self.c_escape())
            else:
                return "".join(res)

    def c_number(self):
        m = re.compile(r"[+-]?[0-9]*(\.[0-9]+)?([eE][+-]?[0-9]+)?").match(self.t, self.i)
        self.i = m.end()
        typ = "number" if m[1] or m[2] else "integer"
        # the sign being written matters (an+b)
        try:
            v = str(Decimal(m[0]).normalize()) if len(m[0]) < 40 else m[0]
        except ArithmeticError:
            v = m[0]
        return (m[0][0] if m[0][0] in "+-" else "") + v, typ

    def c_string(self):
        q = self.at()
        self.i += 1
        res = []
        while True:
            c = self.at()
            if c == EOF:
                return ("string", "".join(res))
            if c == q:
                self.i += 1
                return ("string", "".join(res))
            if c == "\n":
                return ("bad-string",)
            self.i += 1
            if c == "\\":
                if self.at() == EOF:
                    continue
                if self.at() == "\n":
                    self.i += 1
                    continue
                res.append(self.c_escape())
            else:
                res.append(c)

    def ws(self):
        while self.at() in ("\n", "\t", " "):
            self.i += 1

    def bad_url(self):
        while True:
            c = self.at()
            if c == EOF:
                return ("bad-url",)
            if self.escape():
                self.i += 1
                self.c_escape()
                continue
            self.i += 1
            if c == ")":
                return ("bad-url",)

    def c_url(self):
        self.ws()
        res = []
        while True:
            c = self.at()
            if c == EOF:
                return ("url", "".join(res))
            if c == ")":
                self.i += 1
                return ("url", "".join(res))
            if c in "\n\t ":
                self.ws()
                if self.at() in (EOF, ")"):
                    continue
                return self.bad_url()
            if c in "\"'(" or c <= "\x08" or c == "\x0b" or "\x0e" <= c <= "\x1f" or c == "\x7f":
                return self.bad_url()
            if c == "\\":
                if not self.escape():
                    return self.bad_url()
                self.i += 1
                res.append(self.c_escape())
                continue
            res.append(c)
            self.i += 1

    def ident_like(self):
        v = self.c_ident()
        if self.at() == "(":
            self.i += 1
            if v.lower() == "url":
                while self.at() in ("\n", "\t", " ") and self.at(1) in ("\n", "\t", " "):
                    self.i += 1
                if self.at() in ('"', "'") or self.at() in ("\n", "\t", " ") and self.at(1) in ('"', "'"):
                    return ("function", v)
                return self.c_url()
            return ("function", v)
        return ("ident", v)

    def numeric(self):
        v, typ = self.c_number()
        if self.ident():
            return ("dimension", v, typ, self.c_ident())
        if self.at() == "%":
            self.i += 1
            return ("percentage", v)
        return ("number", v, typ)

    def next(self):
        self.comments()
        c = self.at()
        if c == EOF:
            return None
        if c in "\n\t ":
            self.ws()
            return ("ws",)
        if c in "\"'":
            return self.c_string()
        if c == "#":
            if self.name(self.at(1)) or self.escape(1):
                flag = "id" if self.ident(1) else ""
                self.i += 1
                return ("hash", self.c_ident(), flag)
        elif c in "(),:;[]{}":
            self.i += 1
            return (c,)
        elif c in "+.":
            if self.number():
                return self.numeric()
        elif c == "-":
            if self.number():
                return self.numeric()
            if self.at(1) == "-" and self.at(2) == ">":
                self.i += 3
                return ("CDC",)
            if self.ident():
                return self.ident_like()
        elif c == "<":
            if self.t.startswith("!--", self.i + 1):
                self.i += 4
                return ("CDO",)
        elif c == "@":
            if self.ident(1):
                self.i += 1
                return ("at", self.c_ident())
        elif c == "\\":
            if self.escape():
                return self.ident_like()
        elif self.digit(c):
            return self.numeric()
        elif self.name_start(c):
            return self.ident_like()
        self.i += 1
        return ("delim", c)


def tokens(text, spans=False):
    t = Tok(preprocess(text))
    res = []
    while True:
        t.comments()
        a = t.i
        k = t.next()
        if k is None:
            return res
        res.append((k, a, t.i) if spans else k)


def urls(toks):
    """indices of the tokens holding a url: url tokens, and strings in url()"""
    res = []
    for i, t in enumerate(toks):
        if t[0] == "url":
            res.append(i)
        elif t[0] == "function" and t[1].lower() == "url":
            j = i + 1
            while j < len(toks) and toks[j][0] == "ws":
                j += 1
            if j < len(toks) and toks[j][0] == "string":
                res.append(j)
    return res


def comments(text):
    """The comments of a stylesheet, in order: (text, start, end) in the preprocessed text."""
    t = Tok(preprocess(text))
    res = []
    while True:
        while t.at() == "/" and t.at(1) == "*":
            j = t.t.find("*/", t.i + 2)
            end = t.n if j < 0 else j + 2
            res.append((t.t[t.i + 2:j if j >= 0 else t.n], t.i, end))
            t.i = end
        if t.next() is None:
            return res
        # next() also skips comments, but there are none left here
