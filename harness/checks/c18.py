"""Stylesheets with embedded images in every encoding are built and edited; the served files are compared with the decoded data."""
import base64, os, random, re
from common import CaseResult
import minisite as S, project as P, csstok, refs

PROPERTY = "C18"
TIMEOUT = 200
TECHNIQUE = "runtime monitoring: real clean and incremental builds of stylesheets with embedded images; oracle: the bytes the generator encoded, against the served files the urls lead to (independent CSS tokenizer)"
RULE = ("random stylesheets with image data urls quoted and not, in base64 (with and without padding, white space, escapes), percent encoding (partial, either case), plain text, any parameters and types, equal and nearly equal data, next to data urls which are no images and text which looks like data urls; "
        "the same through rule imports within and across files, inline styles and edits. Distinct by (encoding, quoting, type, parameters, equal data or not, edit)")
ASSUMPTIONS = ["data urls with a raw number sign, tab or line break, or which end in spaces, are not used: what they encode depends on the reader"]

TYPES = [("png", "png"), ("svg+xml", "svg"), ("jpeg", "jpeg"), ("gif", "gif"), ("webp", "webp"), ("x-icon", "x-icon"), ("vnd.microsoft.icon", "vnd.microsoft.icon"), ("SVG+XML", "svg"), ("bmp", "bmp"), ("avif", "avif"), ("Png", "png")]
SVG = ["<svg xmlns='http://www.w3.org/2000/svg'><path d='M{n} 0'/></svg>", "<svg xmlns=\"http://www.w3.org/2000/svg\" viewBox=\"0 0 {n} 1\"><text>é%,;:+ 名</text></svg>", "<svg><a b='c&amp;d' e=\"#%23\"/>{n}</svg>", "{n}", ""]


def cases(tier, rng):
    q = tier == "quick"
    return [{"seed": rng.randrange(1 << 60), "sets": 2, "edits": 3} for _ in range(48 if q else 700)]


class Img:
    def __init__(self, r, n, pool):
        self.type, self.ext = r.choice(TYPES)
        if pool and r.random() < .35:
            # again, or nearly so
            o = r.choice(pool)
            self.data = o.data if r.random() < .6 else o.data + b" " if not o.data or r.random() < .5 else bytes([o.data[0] ^ 32]) + o.data[1:]
            if r.random() < .8:
                self.type, self.ext = o.type, o.ext
        elif self.ext == "svg" or r.random() < .3:
            self.data = r.choice(SVG).replace("{n}", str(n)).encode()
        else:
            self.data = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 10, 60])))
        self.enc = r.choice(["base64", "base64", "percent", "mixed", "mixed"])
        self.look = r.randrange(1 << 30)

    def uri(self):
        r = random.Random(self.look)
        par = r.choice(["", "", ";charset=utf-8", ";charset=UTF-8;x=y", ";utf8"])
        head = r.choice(["data", "data", "DATA"]) + ":" + r.choice(["image", "image", "Image"]) + "/" + self.type + par
        if self.enc == "base64":
            b = base64.b64encode(self.data).decode()
            if r.random() < .3:
                b = b.rstrip("=")
            if r.random() < .2:
                b = b.replace("+", "%2B").replace("/", "%2f").replace("=", "%3D")
            return head + r.choice([";base64", ";base64", ";BASE64"]) + "," + b
        safe = b"ABCabc0123456789-_.!~*'()<>/:;=@&,? \"" if self.enc == "mixed" else b""
        keep = r.random()
        out = ""
        try:
            text = self.data.decode("utf-8")
        except UnicodeDecodeError:
            text = None
        if text is not None and r.random() < .5:
            for c in text:
                if ord(c) > 127 and r.random() < keep:
                    out += c
                    continue
                for x in c.encode():
                    out += chr(x) if x in safe and r.random() < .8 else r.choice(["%%%02X", "%%%02x"]) % x
        else:
            for x in self.data:
                out += chr(x) if x in safe and r.random() < .8 else r.choice(["%%%02X", "%%%02x"]) % x
        while out.endswith(" "):
            out = out[:-1] + "%20"
        return head + "," + out

    def css(self):
        """As a url in a stylesheet."""
        r = random.Random(self.look + 1)
        u = self.uri()
        q = r.choice(["'", '"', "", '"'])
        url = r.choice(["url", "url", "URL", "Url"])
        if q == "":
            if re.search(r"[\s\"'()\\\x00-\x1f\x7f]", u):
                u = re.sub(r"[\s\"'()\\]", lambda m: "\\" + m.group(0), u)
            return f"{url}({r.choice(['', ' ', chr(10)])}{u}{r.choice(['', ' '])})"
        t = ""
        for c in u:
            if c == q or c == "\\":
                t += "\\" + c
            elif r.random() < .01:
                t += "\\%x " % ord(c)
            elif r.random() < .005:
                t += c + "\\\n"
            else:
                t += c
        return f"{url}({r.choice(['', ' ', chr(10)])}{q}{t}{q}{r.choice(['', ' '])})"

    def kind(self):
        r = random.Random(self.look + 1)
        return (self.enc, self.ext, len(self.data) % 3, self.css()[:6])


NOISE = [".t::before { content: \"data:image/png;base64,AAAA\" }", ".f { src: url(\"data:font/woff;base64,AAAA\") }", "/* url(\"data:image/png;base64,AAAA\") */", ".u { background: url(https://example.com/data:image/png,x) }", ".v { background: url(\"data:text/plain,image/png\") }",
         ".w { background: url(data:,x) }", ".r { color: red }", ".x { mask: url('#data') }", ".y { background: url(\"data:imagex/png,x\") }", "@media print { .p { top: 0 } }"]


class Sheet:
    def __init__(self):
        self.items = []     # ("img", Img, cls) | ("noise", text) | ("two", Img, Img, cls)


class Set:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.pool = []
        names = ["css/main.css", "css/a.css", "b.css", "css/deep/c.css", "css/a/x.css"]
        self.sheets = {s: self.sheet() for s in names[:r.choice([1, 2, 3, 5])]}
        self.imports = []   # (in sheet, class in sheet, of sheet)
        for s in self.sheets:
            for t in sorted(self.sheets):
                if r.random() < .3 and (t == s or sorted(self.sheets).index(t) < sorted(self.sheets).index(s)):
                    self.imports.append((s, t))
        self.inline = [self.img() for _ in range(r.choice([0, 1, 2]))]
        self.first = r.random() < .5

    def img(self):
        self.n += 1
        i = Img(self.r, self.n, self.pool)
        self.pool.append(i)
        return i

    def sheet(self):
        sh = []
        for _ in range(self.r.choice([1, 2, 4, 7])):
            c = self.r.random()
            if c < .65:
                sh.append(["img", [self.img()]])
            elif c < .75:
                sh.append(["img", [self.img(), self.img()]])
            else:
                sh.append(["noise", self.r.choice(NOISE)])
        return sh

    def rule(self, s, i, it):
        if it[0] == "noise":
            return it[1]
        return f".c{i} {{ background: " + ", ".join(x.css() for x in it[1]) + " }"

    def render(self, s):
        body = [self.rule(s, i, it) for i, it in enumerate(self.sheets[s])]
        imp = []
        for k, (a, b) in enumerate(self.imports):
            if a == s:
                for i, it in enumerate(self.sheets[b]):
                    if it[0] == "img":
                        imp.append(f".i{k}_{i} {{ /*! PREPROCESSOR: import .c{i} FROM /{b} */ }}")
        if self.first:
            imp.reverse()
        return "\n".join((imp + body) if self.first else (body + imp)) + "\n"

    def expected(self, s):
        """The images of the sheet, in order of appearance in the served one."""
        body = [x for it in self.sheets[s] if it[0] == "img" for x in it[1]]
        imp = []
        for k, (a, b) in enumerate(self.imports):
            if a == s:
                for i, it in enumerate(self.sheets[b]):
                    if it[0] == "img":
                        imp.append(list(it[1]))
        if self.first:
            imp.reverse()
        imp = [x for xs in imp for x in xs]
        return imp + body if self.first else body + imp

    def files(self):
        res = {"src/public/" + s: self.render(s) for s in self.sheets}
        if self.inline:
            res["src/public/p.html"] = "<!DOCTYPE html>\n<html>\n<head>\n<title>x</title>\n" + "".join(f"<style>.q{{ background: {x.css()} }}</style>\n" for x in self.inline) + "</head>\n<body></body>\n</html>\n"
        return res

    def edit(self):
        r = self.r
        c = r.choice(["data", "data", "encoding", "type", "add", "remove", "swap", "noise"])
        s = r.choice(sorted(self.sheets))
        imgs = [(it, k) for it in self.sheets[s] if it[0] == "img" for k in range(len(it[1]))]
        if c == "add":
            self.sheets[s].insert(r.randrange(len(self.sheets[s]) + 1), ["img", [self.img()]])
        elif c == "noise":
            self.sheets[s].append(["noise", r.choice(NOISE)])
        elif not imgs:
            return "none"
        elif c == "remove":
            self.sheets[s].remove(r.choice(imgs)[0])
        elif c == "swap":
            r.shuffle(self.sheets[s])
        else:
            it, k = r.choice(imgs)
            o = it[1][k]
            n = Img(random.Random(r.randrange(1 << 30)), self.n, [])
            self.n += 1
            if c in ("encoding", "type"):
                n.data = o.data
            if c != "type":
                n.type, n.ext = o.type, o.ext
            it[1][k] = n
        return c


def judge(R, st, site, label):
    dump = {p: t[:2500] for p, t in st.files().items()}
    owners = {}
    sheets = [(s, st.expected(s)) for s in st.sheets]
    if st.inline:
        pieces = sorted(re.findall(r'href="(/css/gen/[^"?]*)', site.served("p.html").decode()))
        R.expect(len(pieces) == len(st.inline), "inline-missing", f"{pieces}", files=dump)
        sheets += [(p[1:], [x]) for p, x in zip(re.findall(r'href="(/css/gen/[^"?]*)', site.served("p.html").decode()), st.inline)]
    present = {p for p in site.out() if p.startswith("img/gen/") and not p.endswith(".hash")}
    used = set()
    for s, want in sheets:
        out = site.served(s).decode("utf-8")
        toks = csstok.tokens(out)
        urls = [toks[i][1] for i in csstok.urls(toks)]
        left = [u for u in urls if re.match(r"(?i)\s*data:image/", u)]
        R.expect(not left, "not-outlined", f"{s} after {label}: {left[:3]} remain", files=dump)
        gen = [u for u in urls if u.startswith("/img/gen/")]
        R.count("sheets")
        if not R.expect(len(gen) == len(want) or left, "image-lost", f"{s} after {label}: {len(gen)} outlined images, {len(want)} expected: {gen}", files=dump):
            continue
        if left:
            continue
        for u, x in zip(gen, want):
            path, v, pv = refs.split(u)
            used.add(path[1:])
            R.count("images")
            R.key(x.kind(), label)
            if not R.expect(path[1:] in present, "image-missing", f"{s} after {label}: {u} is not served", files=dump):
                continue
            data = site.served(path[1:])
            R.expect(data == x.data, "wrong-data", f"{s} after {label}: {x.css()[:300]} encodes {x.data[:80]}, {u} is {data[:80]}", files=dump)
            R.expect(path.endswith("." + x.ext), "wrong-extension", f"{s} after {label}: {x.css()[:80]} became {u}", files=dump)
            R.expect(v == refs.b64(data), "wrong-version", f"{s}: {u} has not the version of its file {refs.b64(data)}", files=dump)
            owners.setdefault(path, set()).add(x.data)
    for p, ds in owners.items():
        R.expect(len(ds) == 1, "shared-by-different", f"{p} stands for {ds}", files=dump)
    R.expect(present == used, "unused-images", f"after {label}: {sorted(present - used)} are used by nothing", files=dump)


def run_case(case, tmp):
    R = CaseResult()
    rng = random.Random(case["seed"])
    for k in range(case["sets"]):
        st = Set(rng)
        files = st.files()
        site = S.Site(tmp, files, name=f"s{k}")
        label = "first build"
        for e in range(case["edits"] + 1):
            try:
                site.build(dev=rng.random() < .3)
            except P.BuildFailed as ex:
                R.fail("build-fails", f"after {label}: {ex}", files={p: t[:3000] for p, t in st.files().items()})
                break
            judge(R, st, site, label)
            if R.violations:
                break
            label = st.edit()
            new = st.files()
            site.put({p: t for p, t in new.items() if files.get(p) != t})
            R.count("edits", new != files)
            files = new
        if k == 0:
            R.sample({p: t[:700] for p, t in files.items()})
    return R


def finalize(results, tier, counters):
    need = {"images": 2500, "edits": 120, "sheets": 700}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
