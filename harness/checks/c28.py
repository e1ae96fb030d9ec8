"""Projects with random constants are built through histories of mode switches and edits; the served module is evaluated by node."""
import base64, json, os, random, struct
from common import CaseResult
import minisite as S, project as P, refs

PROPERTY = "C28"
TECHNIQUE = "runtime monitoring: real builds in both modes through edit histories; oracle: the served module evaluated by node, compared value by value (bit exact) with the configuration, and version tags and whole served trees of a clean build"
RULE = ("random constants (strings with any code points, numbers of any magnitude, booleans, null, nested lists and objects with any keys, values from the environment) shared and per mode, with overriding; "
        "histories of builds alternating modes in any order with edits of values, names, environment, of the file's place, of its ignored source and of dependents. Distinct by (value kind, depth, step, mode)")
ASSUMPTIONS = ["constant names are valid identifiers which are not reserved"]

NAMES = ["API_URL", "a", "$x", "_y", "été", "名", "SHARED", "t0", "camelCase", "x1", "Π", "value", "from_", "as", "of", "get"]
CH = ["a", "Z", "0", " ", "'", '"', "\\", "\n", "\r", "\t", "\b", "\f", "\v", "\0", "\x01", "\x7f", "\x85", " ", " ", " ", "é", "名", "\U0001f600", "\ud83d", "\ude00", "`", "${x}", "</script>", "//", "/*", "*/", "<!--", "\\n", "\\u0041", "￿", "﻿", "%", "{", "}"]
NUMS = [0, 1, -1, 42, 2**53, 2**53 + 1, -2**63, 10**21, 10**30 + 7, 10**308, 10**400, 0.1, -0.0, 1e-7, 1.5e300, 5e-324, 1e21, 1e22, 123456789.123456789, -2.5, 1e16, 3.0, float("inf"), float("-inf"), 0.30000000000000004]
KEYS = ["a", "b c", "", "0", "12", "-1", "__proto__", "constructor", "é", "\n", "'", '"', "toString", "class", "\u2028", "${", "length"]


def value(r, depth=0):
    c = r.random()
    if c < .4 or depth > 3 and c < .5:
        return r.choice(["", "http://127.0.0.1:8080", "".join(r.choice(CH) for _ in range(r.choice([1, 2, 5, 12])))])
    if c < .6 or depth > 3:
        return r.choice(NUMS) if r.random() < .7 else r.choice([r.randrange(-1000, 1000), r.uniform(-1e6, 1e6), r.uniform(-1, 1) * 10 ** r.randrange(-300, 300)])
    if c < .68:
        return r.random() < .5
    if c < .74:
        return None
    if c < .87:
        return [value(r, depth + 1) for _ in range(r.choice([0, 1, 2, 4]))]
    return {(r.choice(KEYS) if r.random() < .7 else "".join(r.choice(CH) for _ in range(3))): value(r, depth + 1) for _ in range(r.choice([0, 1, 2, 3]))}


def shuffled(r, v):
    """The same value with the members of its objects in another order"""
    if isinstance(v, dict):
        ks = [(k, shuffled(r, x)) for k, x in v.items()]
        r.shuffle(ks)
        return dict(ks)
    return [shuffled(r, x) for x in v] if isinstance(v, list) else v


def alike(r, v):
    """Another value which is easily taken for the same"""
    if isinstance(v, bool):
        return r.choice([int(v), str(v).lower(), not v])
    if v is None:
        return r.choice(["null", False, 0, ""])
    if isinstance(v, (int, float)):
        try:
            return r.choice([str(v), [v], bool(v), -v, float(v), int(v), {"0": v}])
        except (OverflowError, ValueError):
            return str(v)
    if isinstance(v, str):
        return r.choice([v + " ", v.upper(), [v], v + "\0", list(v)[:5], v[::-1]])
    if isinstance(v, list):
        if v and r.random() < .6:
            i = r.randrange(len(v))
            return v[:i] + [alike(r, v[i])] + v[i + 1:]
        return r.choice([{str(i): x for i, x in enumerate(v)}, v[::-1], v + [None], [v], v + v[-1:]])
    if v and r.random() < .6:
        k = r.choice(sorted(v))
        return {n: alike(r, x) if n == k else x for n, x in v.items()}
    return r.choice([shuffled(r, v), [v], list(v.values()), {**v, "z": None}])


def units(s):
    b = s.encode("utf-16-be", "surrogatepass")
    return list(struct.unpack(">%dH" % (len(b) // 2), b))


def enc(v):
    if v is None:
        return ["null"]
    if isinstance(v, bool):
        return ["b", v]
    if isinstance(v, str):
        return ["s", units(v)]
    if isinstance(v, (int, float)):
        try:
            f = float(v)
        except OverflowError:
            f = float("inf") if v > 0 else float("-inf")
        return ["n", struct.pack(">d", f).hex()]
    if isinstance(v, list):
        return ["l", [enc(x) for x in v]]
    return ["o", sorted([units(k), enc(x)] for k, x in v.items())]


def norm(e):
    if e[0] == "l":
        return ["l", [norm(x) for x in e[1]]]
    if e[0] == "o":
        return ["o", sorted([k, norm(x)] for k, x in e[1])]
    return e


def shape(v, d=0):
    if isinstance(v, list):
        return ("l", tuple(sorted({shape(x) for x in v})))
    if isinstance(v, dict):
        return ("o", tuple(sorted({shape(x) for x in v.values()})))
    if isinstance(v, str):
        return ("s", tuple(sorted({c for c in v if not c.isalnum()}))[:2])
    return (type(v).__name__,)


def cases(tier, rng):
    return [{"seed": rng.randrange(1 << 60), "steps": 9} for _ in range(32 if tier == "quick" else 500)]


class Proj:
    PLACES = ["src/public/js/constants.js", "src/public/js/constants.js", "src/public/deep/c.js", "src/public/k.js", "src/public/js/other.js"]

    def __init__(self, r):
        self.r = r
        self.c = {k: {} for k in ("shared", "dev", "prod")}
        self.env = {}
        self.place = r.choice(self.PLACES)
        for _ in range(r.choice([0, 2, 6, 12])):
            self.assign()
        if r.random() < .5:
            self.c["shared"]["zz_nested"] = {"b": 1, "a": {"z": 1, "y": [{"q": 1, "p": 2}]}, "c": 1}
        self.src = {p: self.source() for p in self.PLACES if p == self.place or r.random() < .4}
        self.links = r.random() < .3

    def source(self):
        return self.r.choice(["// documented here\n", "export const API_URL = 'placeholder';\n", "export const A = 1;\nexport const B = 2;\n", ""])

    def assign(self):
        r = self.r
        d = r.choice(sorted(self.c))
        n = r.choice(NAMES)
        if r.random() < .12:
            var = "VPC28_%d" % r.randrange(4)
            self.env.setdefault(var, "".join(c for c in (r.choice(CH) for _ in range(4)) if c != "\0" and not "\ud800" <= c <= "\udfff"))
            self.c[d][n] = "env://" + var
        else:
            self.c[d][n] = value(r)

    def config(self):
        return {"relpath": self.place, **{k: dict(v) for k, v in self.c.items()}}

    def expected(self, dev):
        res = dict(self.c["shared"])
        res.update(self.c["dev" if dev else "prod"])
        return {k: self.env[v[6:]] if isinstance(v, str) and v.startswith("env://") else v for k, v in res.items()}

    def files(self):
        res = dict(self.src)
        js = [f"import '/{p[11:]}';\n" for p in sorted(self.src)]
        res["src/public/js/main.js"] = "".join(js) + "export const m = 1;\n"
        res["src/public/index.html"] = "<!DOCTYPE html>\n<html>\n<head>\n<title>x</title>\n<script type=\"module\" src=\"/js/main.js\"></script>\n" + "".join(f"<link rel=\"preload\" as=\"script\" href=\"/{p[11:]}\">\n" for p in sorted(self.src)) + "</head>\n<body></body>\n</html>\n"
        res["src/public/js/apart.js"] = "export const z = 1;\n"
        return res

    def edit(self):
        r = self.r
        c = r.choice(["none", "none", "value", "value", "value", "drop", "env", "move", "source", "absent", "reorder", "within", "alike", "alike"])
        if c == "value":
            self.assign()
        elif c == "drop":
            d = self.c[r.choice(sorted(self.c))]
            if d:
                d.pop(r.choice(sorted(d)))
        elif c == "env":
            for k in self.env:
                self.env[k] = "e%d" % r.randrange(1000)
        elif c == "move":
            self.place = r.choice(self.PLACES)
            if r.random() < .7:
                self.src.setdefault(self.place, self.source())
        elif c == "source":
            self.src[self.place] = self.source() + "// %d\n" % r.randrange(1000)
        elif c == "absent":
            p = r.choice(self.PLACES)
            if p in self.src:
                del self.src[p]
            else:
                self.src[p] = self.source()
        elif c == "reorder":
            for d in self.c:
                ks = list(self.c[d].items())
                r.shuffle(ks)
                self.c[d] = dict(ks)
        elif c == "within":
            for d in self.c.values():
                for k in d:
                    d[k] = shuffled(r, d[k])
        elif c == "alike":
            some = [(d, k) for d in self.c.values() for k in d if not (isinstance(d[k], str) and d[k].startswith("env://"))]
            if some:
                d, k = r.choice(some)
                new = alike(r, d[k])
                if not (isinstance(new, str) and new.startswith("env://")):
                    d[k] = new
        return c


def run_case(case, tmp):
    R = CaseResult()
    r = random.Random(case["seed"])
    pr = Proj(r)
    site = S.Site(tmp, pr.files(), js_constants=pr.config())
    served, expect, where = [], [], []
    label, dev = "first build", r.random() < .5
    for step in range(case["steps"]):
        os.environ.update(pr.env)
        dump = {"config": json.dumps(pr.config())[:3000], "env": pr.env, "src": sorted(pr.src)}
        try:
            site.build(dev=dev, symlinks=pr.links)
        except P.BuildFailed as e:
            R.fail("build-fails", f"after {label} (dev={dev}): {e}", **dump)
            break
        R.count("builds")
        out = site.out()
        p = pr.place[11:]
        if R.expect((p in out) == (pr.place in pr.src), "presence", f"after {label} (dev={dev}): {p} served: {p in out}, its source exists: {pr.place in pr.src}", **dump) and p in out:
            served.append(base64.b64encode(site.served(p)).decode())
            expect.append(pr.expected(dev))
            where.append((label, dev, dump))
        # what depends on it
        for f in ("js/main.js", "index.html"):
            tags = [t for t in refs.tagged(site.served(f)) if t[0].endswith(".js") and t[0] != "/js/main.js"]
            R.expect(len(tags) == len(pr.src), "reference-lost", f"{f} after {label}: {tags}", **dump)
            for t in tags:
                want = refs.b64(site.served(t[0][1:]))
                R.count("tags")
                R.expect(t[1] == want, "stale-dependent", f"{f} after {label} (dev={dev}): {t[0]} has version {t[1]}, its content {want}", **dump)
        R.expect(any(t[0] == "/js/main.js" and t[1] == refs.b64(site.served("js/main.js")) for t in refs.tagged(site.served("index.html"))), "stale-dependent", f"index.html after {label}: version of main.js", **dump)
        if step % 3 == 2 or R.violations or label.startswith(("reorder", "within")):
            d = P.clean_build_tree(site.folder, tmp, dev=dev)
            clean = P.tree(os.path.join(d, "out/www"))
            R.count("clean_builds")
            R.expect(P.tree(site.path("out/www")) == clean, "not-as-clean", f"after {label} (dev={dev}): {P.diff_trees(P.tree(site.path('out/www')), clean)}", **dump)
        R.key("step", label, dev, case["seed"] % 3)
        # next
        before = pr.files()
        label = pr.edit()
        if r.random() < .5:
            dev = not dev
            label += "+switch"
            R.count("switches")
        after = pr.files()
        site.put({q: t for q, t in after.items() if before.get(q) != t}, gone=[q for q in before if q not in after])
        site.config(js_constants=pr.config())
    got = S.node("consts.js", {"items": served}) if served else []
    for g, e, (label, dev, dump), b in zip(got, expect, where, served):
        text = base64.b64decode(b).decode("utf-8", "replace")[:1500]
        if not R.expect(g["ok"], "not-a-module", f"after {label} (dev={dev}): {g.get('error')}: {text}", **dump):
            continue
        vals = dict(g["values"])
        R.expect(set(vals) == set(e), "exports", f"after {label} (dev={dev}): exports {sorted(vals)}, configured {sorted(e)}", **dump)
        for k in e:
            if k not in vals:
                continue
            R.count("values")
            R.key("value", shape(e[k]))
            R.expect(norm(vals[k]) == norm(enc(e[k])), "value", f"after {label} (dev={dev}): {k} is {e[k]!r:.300}, evaluates to {json.dumps(vals[k])[:300]}; {text}", **dump)
    R.sample({"config": pr.config()})
    return R


def finalize(results, tier, counters):
    need = {"builds": 200, "switches": 80, "values": 450, "tags": 400, "clean_builds": 60}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
