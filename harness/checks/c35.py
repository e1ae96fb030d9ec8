"""The readers are driven with any pieces and lookahead; builds of the same sources with different line endings are compared."""
import io, os, random, re
from common import CaseResult
import minisite as S, project as P, jsgen, cssgen

PROPERTY = "C35"
TIMEOUT = 200
TECHNIQUE = "runtime monitoring: the real readers under random read and peek sequences against a model of the whole text; real builds of sources differing only in line endings, served bytes compared"
RULE = ("texts dense in CR, LF, form feeds, surrogates and astral characters, of lengths around buffer sizes, read in every mixture of read(n), peek(n), read all and peek all; generated and real scripts and stylesheets, with imports, nested rules, icons, type hints and embedded images, "
        "built with LF, CRLF, CR and mixed endings. Distinct by (reader, sizes used, what stands at the seam) and by features of the built sources")
ASSUMPTIONS = ["reading nothing (n = 0) is not a way to read", "files are given as text streams without newline translation to the readers, as well as through real files"]


def cases(tier, rng):
    q = tier == "quick"
    res = [{"kind": "reader", "seed": rng.randrange(1 << 60), "n": 1500} for _ in range(24 if q else 200)]
    res += [{"kind": "seams", "seed": rng.randrange(1 << 60)} for _ in range(4 if q else 16)]
    res += [{"kind": "build", "seed": rng.randrange(1 << 60), "n": 12} for _ in range(28 if q else 300)]
    files = S.corpus((".js", ".mjs", ".css"), exclude=("/typescript/",), max_size=15000 if q else 60000)
    rng.shuffle(files)
    files = files[:120 if q else 1200]
    res += [{"kind": "real", "seed": rng.randrange(1 << 60), "files": files[i:i + 10]} for i in range(0, len(files), 10)]
    return res


PIECES = ["\r", "\n", "\r\n", "\r\r\n", "\n\r", "\f", "a", "b ", "\ud800", "\udfff", "\U0001F600", "é", "\u2028", "\x00", "\t", "/*", "'", "xyz" * 4]


def normal(text, ff):
    """Whole text, line endings as LF, lone surrogates replaced."""
    t = text.replace("\r\n", "\n").replace("\r", "\n")
    if ff:
        t = t.replace("\f", "\n")
    return "".join("\ufffd" if 0xD800 <= ord(c) <= 0xDFFF else c for c in t)


def drive(R, rng, make, want, label, sizes):
    """Reads everything with random calls; every peek must foretell what follows."""
    fp = make()
    pos = 0
    calls = []
    n = len(want)
    for step in range(20 * (n + 5)):
        k = rng.choice(sizes)
        peek = rng.random() < .45
        if k == -1 and pos < n * .6 and rng.random() < .8:
            k = rng.choice([1, 2, 3])
        calls.append(("peek" if peek else "read", k))
        got = fp.peek(k) if peek else fp.read(k)
        got = got or ""
        exp = want[pos:] if k == -1 else want[pos:pos + k]
        R.evals += 1
        if got != exp:
            R.fail("reader-differs", f"{label}: after {calls[-8:]} at {pos} of {n}: got {got[:80]!r}, expected {exp[:80]!r} of {want[max(0,pos-10):pos+30]!r}", calls=repr(calls[-40:]), text=repr(want[:2000]))
            return
        R.key(label, peek, min(k, 9), len(exp) == k, exp[-1:] in ("\n", "\f", "\ufffd"), want[pos + max(k, 0):][:1] == "\n")
        if not peek:
            pos += len(exp)
            if pos >= n:
                for m in (1, 5, -1):
                    if fp.peek(m) or fp.read(m):
                        R.fail("reader-differs", f"{label}: something follows the end after {calls[-8:]}", text=repr(want[:2000]))
                        return
                R.count("texts_" + label)
                return
    R.inconclusive.append("reader did not get to the end")


def readers(text):
    from vanillaplusjs.build.ioutil import PeekableTextIO, PreprocessedTextIO
    return [("plain", lambda: PeekableTextIO(io.StringIO(text, newline="")), text),
            ("css", lambda: PreprocessedTextIO(PeekableTextIO(io.StringIO(text, newline=""))), normal(text, True)),
            ("js", lambda: PreprocessedTextIO(PeekableTextIO(io.StringIO(text, newline="")), form_feeds=False), normal(text, False))]


def run_reader(case, tmp, R):
    rng = random.Random(case["seed"])
    for _ in range(case["n"]):
        dens = rng.random()
        text = "".join(rng.choice(PIECES) if rng.random() < dens else rng.choice("\r\n") for _ in range(rng.choice([0, 1, 2, 5, 12, 30])))
        sizes = rng.choice([[1], [1, 2], [1, 2, 3], [1, 3, 7, -1], [2], [5, 9, 40], [1, 100, -1]])
        for label, make, want in readers(text):
            drive(R, rng, make, want, label, sizes)
    R.sample({"text": repr(text), "sizes": sizes})


def run_seams(case, tmp, R):
    """Through real files, with line endings across the boundaries of the buffers below."""
    from vanillaplusjs.build.ioutil import PeekableTextIO, PreprocessedTextIO
    rng = random.Random(case["seed"])
    for base in (8192, 16384, 4096):
        for d in range(-3, 3):
            text = "a" * (base + d) + rng.choice(["\r\n", "\r\r\n", "\n\r\n", "\f\r\n", "é\r\n"]) * rng.choice([1, 2, 5]) + "z" * 7
            p = os.path.join(tmp, "f.txt")
            with open(p, "w", newline="", encoding="utf-8") as f:
                f.write(text)
            opened = []

            def make(ff, newline):
                f = open(p, newline=newline, encoding="utf-8")
                opened.append(f)
                return PreprocessedTextIO(PeekableTextIO(f), form_feeds=ff)
            sizes = rng.choice([[1, 2], [100, 1, 3], [base, 1], [base - 1, 2, 1], [base + d + 1, -1], [base + d + 2, 1]])
            for nlmode in ("", None):
                for ff in (True, False):
                    drive(R, rng, lambda: make(ff, nlmode), normal(text, ff), "file", sizes)
            for f in opened:
                f.close()


def variant(text, how, rng):
    if how == "mixed":
        res, last = [], ""
        for c in text:
            # a carriage return and a line feed for two lines would be one line
            res.append(rng.choice(["\r\n", "\r"] + ["\n"] * (last != "\r")) if c == "\n" else c)
            last = res[-1]
        return "".join(res)
    return text.replace("\n", how)


MAIN = """:root {
    --col-primary: #333;
    --col-disabled: #999999;
    --col-primary-dark:
        #000;
    --icon-size-large: 1.5rem;
    --icon-size-small:
        0.75rem;
}

.unstyle {
    border: none;
    margin:
        0 1px;
}
"""
ICON = '<svg xmlns="http://www.w3.org/2000/svg"><path fill="#333"/></svg>'


def material(rng, n):
    """Sources with only LF endings, by path."""
    files = {"src/public/css/main.css": MAIN, "src/public/js/a.js": "export const a = 1;\n// @@type-hint\n"}
    for i in range(n):
        g = jsgen.JS(rng, hints=False, comments=rng.choice([0, .2, .4]), module=True)
        t = g.program(rng.choice([3, 6]), rng.choice([2, 3]))
        lines = t.split("\n")
        extra = ["import '/js/a.js';", "import {\n  a\n} from './a.js'", "/*\n @@type-hint \n*/", "function f(a); // @@type-hint", "// @@type-hint", "let t = `\n\n` + 'a\\\nb';", ""]
        t = "\n".join(rng.sample(extra, rng.randrange(0, 5)) + lines)
        files[f"src/public/js/x{i}.js"] = t
        c = cssgen.CSS(rng, urls=["/js/a.js"], comments=rng.choice([0, .1, .3]), nl="\n")
        s = c.sheet(rng.choice([1, 3, 6]))
        ex = ["/*! PREPROCESSOR: icon nav primary all-colors\nall-sizes */", "/*! PREPROCESSOR:\nicon nav primary [\n\"primary-dark\"\n] [\"small\"] no-btn */", ".b {\n/*! PREPROCESSOR: import .unstyle */\n}",
              ".c {\n    /*! PREPROCESSOR: import\n.unstyle FROM\n/css/main.css */\n    top: 0\n}", "a::after { content: \"x\\\ny\"; background: url(\n/js/a.js\n) }", "b { background: url(\"data:image/svg+xml,%3Csvg/%3E\") }", "c { background: url(\"data:image/svg+xml,<svg>\\\n</svg>\") }"]
        files[f"src/public/css/y{i}.css"] = "\n".join(rng.sample(ex, rng.randrange(0, 4)) + [s])
    return files


def clean_of(t):
    return "\r" not in t and "\f" not in t and "\x00" not in t


def run_build(case, tmp, R):
    rng = random.Random(case["seed"])
    if case["kind"] == "build":
        files = material(rng, case["n"])
    else:
        files = {"src/public/css/main.css": MAIN}
        for i, p in enumerate(case["files"]):
            try:
                t = open(p, encoding="utf-8", newline="").read()
            except (OSError, UnicodeDecodeError):
                continue
            t = t.replace("\r\n", "\n").replace("\r", "\n")
            if p.endswith(".css"):
                if "url(/" in t or 'url("/' in t or "url('/" in t:
                    continue
                files[f"src/public/css/y{i}.css"] = t
            else:
                # what it imports is not here
                t = re.sub(r"^(\s*)(import|export)\b([^\n]*from)?", r"\1\2_\3_", t, flags=re.M)
                files[f"src/public/js/x{i}.js"] = t
    files = {p: t.replace("\r", "").replace("\f", " ") for p, t in files.items()}
    fixed = {"src/public/img/icons/nav.svg": ICON}
    outs = {}
    names = {"\n": "lf", "\r\n": "crlf", "\r": "cr", "mixed": "mixed"}

    def go(how, sel):
        site = S.Site(tmp, {**{p: variant(t, how, rng) for p, t in sel.items()}, **fixed}, name=f"s{names[how]}{len(os.listdir(tmp))}")
        try:
            site.build()
        except P.BuildFailed as e:
            return str(e)
        out = site.out()
        return out
    base = go("\n", files)
    if isinstance(base, str):
        # find the ones which do not build, they are not about this property
        good = {"src/public/css/main.css": MAIN, **{p: t for p, t in files.items() if p.endswith("/a.js")}}
        for p, t in list(files.items()):
            if isinstance(go("\n", {**good, p: t}), dict):
                good[p] = t
        R.count("unbuildable", len(files) - len(good))
        files = good
        base = go("\n", files)
        if isinstance(base, str):
            R.inconclusive.append("nothing builds: " + base[:200])
            return
    for how in ("\r\n", "\r", "mixed"):
        o = go(how, files)
        if not R.expect(isinstance(o, dict), "line-endings-fail", f"with {names[how]} line endings the build fails: {o if isinstance(o, str) else ''}", how=names[how]):
            continue
        diff = P.diff_trees(base, o)
        # the version tags of other files change when a difference is real
        R.expect(not diff, "line-endings-show", f"served files differ between LF and {names[how]}: {diff}", how=names[how], files={p: files.get("src/public/" + p) for p in base if o.get(p) != base[p] and "src/public/" + p in files} if diff else {})
        R.count("builds_" + names[how])
    for p, t in files.items():
        R.count("files")
        R.key(p.endswith(".css"), "`" in t, "\\\n" in t, "PREPROCESSOR" in t, "type-hint" in t, "//" in t, "/*" in t, t.endswith("\n"), case["kind"])
    R.sample({"kind": case["kind"], "files": len(files), "example": list(files.values())[-1][:400]})


def run_case(case, tmp):
    R = CaseResult()
    {"reader": run_reader, "seams": run_seams}.get(case["kind"], run_build)(case, tmp, R)
    return R


def finalize(results, tier, counters):
    need = {"texts_plain": 20000, "texts_css": 20000, "texts_js": 20000, "texts_file": 100, "builds_cr": 20, "builds_crlf": 20, "builds_mixed": 20, "files": 600}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
