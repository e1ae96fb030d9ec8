"""Stylesheets are built; the served ones tokenize, by an independent tokenizer, to the same tokens."""
import os, random, re
from common import CaseResult
import minisite as S, project as P, csstok, cssgen, refs

PROPERTY = "C15"
TIMEOUT = 200
TECHNIQUE = "runtime monitoring: real builds of generated, hostile and real stylesheets; differential oracle (own tokenizer written from CSS Syntax Level 3) over source and served bytes"
RULE = ("random well-formed stylesheets rich in escapes, strings, numbers, units, urls, comments, line breaks and odd characters; soups of lexical fragments ending anywhere; real stylesheets, whole, cut and mutated. "
        "The served tokens must be the source's, urls of local files carrying the version of the served file, image data replaced by a file. Distinct by sets of token kinds")
ASSUMPTIONS = ["our tokenizer of CSS Syntax Level 3 decides the tokens; unicode-range tokens are not tokens in it, as in the specification"]
LOCAL = {"/img/a.png": b"\x89PNG", "/b c.svg": b"<svg/>", "/x/y(1).gif": b"GIF", "/n.css.txt": b"n", "/é/名.png": b"e", "/q'\".txt": b"q"}


def cases(tier, rng):
    q = tier == "quick"
    res = [{"kind": "gen", "seed": rng.randrange(1 << 60), "n": 40} for _ in range(40 if q else 500)]
    res += [{"kind": "soup", "seed": rng.randrange(1 << 60), "n": 150} for _ in range(24 if q else 400)]
    files = S.corpus((".css",), max_size=12000 if q else 120000) 
    rng.shuffle(files)
    files = files[:40] if q else files
    res += [{"kind": "real", "seed": rng.randrange(1 << 60), "files": files[i:i + 5]} for i in range(0, len(files), 5)]
    return res


def usable(src):
    """The root-relative urls of the source, or None if the case is not about this property."""
    toks = csstok.tokens(src)
    for i in csstok.urls(toks):
        u = toks[i][1]
        if u.startswith("/") and not u.startswith("//") and not re.search("[?#]", u) and u not in LOCAL:
            return None
    inside, first = False, False
    for t in toks:
        # url() holds one string; with more in it, it names nothing and what happens to it is unspecified
        if t[0] == "function" and t[1].lower() == "url":
            inside, first = True, True
        elif t == (")",):
            inside = False
        elif inside and t[0] != "ws":
            if not (first and t[0] == "string") and t[0] == "string" and t[1].startswith("/"):
                return None
            first = False
    return toks


def compare(R, src, out, versions):
    a, b = csstok.tokens(src), csstok.tokens(out)
    ua = set(csstok.urls(a))
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x == y and not (i in ua and x[1] in versions):
            continue
        if i in ua and y is not None and y[0] == x[0]:
            if x[1] in versions:
                if y[1] == x[1] + versions[x[1]]:
                    R.count("versioned_urls")
                    continue
                return f"token {i}: url {x[1]!r} became {y[1]!r}, expected {x[1] + versions[x[1]]!r}"
            if re.match(r"\s*data:image/", x[1], re.I) and y[1].startswith("/img/gen/"):
                R.count("outlined")
                continue
        ctx = f"tokens {a[max(0,i-3):i+4]} became {b[max(0,i-3):i+4]}"
        return f"token {i}: {x} became {y}; {ctx}"
    return None


def run_case(case, tmp):
    import vanillaplusjs.constants as C
    from urllib.parse import urlencode
    R = CaseResult()
    rng = random.Random(case["seed"])
    items = []
    if case["kind"] == "gen":
        for _ in range(case["n"]):
            g = cssgen.CSS(rng, urls=list(LOCAL) * 2, comments=rng.choice([0, .1, .3]), nl=rng.choice(["\n", "\n", "\r\n", "\r", "\f"]))
            s = g.sheet(rng.choice([1, 3, 6, 10]))
            x = rng.random()
            if x < .15 and s:
                s = s[:rng.randrange(len(s))]
            elif x < .25 and s:
                i = rng.randrange(len(s))
                s = s[:i] + rng.choice(cssgen.CSS.SOUP) + s[i:]
            items.append(s)
    elif case["kind"] == "soup":
        g = cssgen.CSS(rng)
        items = [g.soup(rng.choice([3, 6, 12, 30])) for _ in range(case["n"])]
    else:
        for p in case["files"]:
            try:
                t = open(p, encoding="utf-8", newline="").read()
            except (OSError, UnicodeDecodeError):
                continue
            items.append(t)
            for _ in range(2):
                i = rng.randrange(len(t)) if t else 0
                u = t[max(0, i - 600):i + 600]
                items += [u, u[:600] + rng.choice(cssgen.CSS.SOUP) + u[600:]]
    keep = [s for s in items if not ("PREPROCESSOR" in s and re.search(r"/\*\s*!\s*PREPROCESSOR", s)) and usable(s) is not None]
    R.count("skipped", len(items) - len(keep))
    files = {f"src/public/css/s{i}.css": s for i, s in enumerate(keep)}
    local = {"src/public" + k: v for k, v in LOCAL.items()}
    site = S.Site(tmp, {**files, **local})
    try:
        site.build()
    except P.BuildFailed as e:
        bad = None
        for i, s in enumerate(keep):
            one = S.Site(tmp, {"src/public/css/s.css": s, **local}, name=f"one{i}")
            try:
                one.build()
            except P.BuildFailed as e2:
                bad, e = s, e2
                break
        R.fail("build-fails", f"a stylesheet fails to build: {e}: {(bad or '')[-1500:]!r}", source=(bad or "")[:3000])
        return R
    versions = {k: "?" + urlencode({"v": refs.b64(site.served(k[1:])), "pv": C.PROCESSOR_VERSION}) for k in LOCAL}
    for i, s in enumerate(keep):
        out = site.served(f"css/s{i}.css").decode("utf-8")
        d = compare(R, s, out, versions)
        R.count("sheets")
        R.expect(d is None, "tokens-changed", f"{d}\n--- source:\n{s[:1200]!r}\n--- served:\n{out[:1200]!r}", source=s[:4000])
        toks = csstok.tokens(s)
        for t in toks:
            R.count("tok_" + t[0] if len(t[0]) > 2 else "tok_punct")
        R.key(sorted({t[0] for t in toks}), case["kind"])
    if keep:
        R.sample({"kind": case["kind"], "source": keep[0][:500]})
    return R


def finalize(results, tier, counters):
    need = {"sheets": 2500, "tok_string": 1500, "tok_url": 700, "tok_dimension": 1500, "tok_hash": 700, "tok_bad-url": 60, "tok_bad-string": 60, "versioned_urls": 400}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
