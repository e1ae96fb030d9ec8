"""Pages with image commands are built under random image settings; what each picture refers to is decoded and judged."""
import os, random
from common import CaseResult
import imggen as I, minisite as S, project as P

PROPERTY = "C24"
TECHNIQUE = "runtime monitoring: real builds of pages with image commands under random image settings, sizes and crops; oracle: the served files decoded with Pillow, sizes from exact fractions, the best export from an independent crop, scaling and encoding of every applicable export"
RULE = ("random images (JPEG, PNG, WebP, GIF, BMP; colors, gray, palettes, transparency, CMYK, bilevel; 1x1 to 300 pixels), random settings (1 to 3 formats, 1 to 3 exports each with areas and preferences, steps such as 0.1, 0.7 and \"0.5\", several maxima and unit sizes), commands of every form in pages and partials at several depths; "
        "edits of commands with incremental builds; development builds with links. Distinct by (format, applicable exports, below the unit size, smallest or not, image mode) and (number of steps, step, touching the source's size, crop)")
ASSUMPTIONS = ["names of images have an extension and no spaces, percent, number or question marks", "crops leave at least the requested size", "the default format has an export for the requested size"]
TIMEOUT = 200


def cases(tier, rng):
    q = tier == "quick"
    return [{"seed": rng.randrange(1 << 60), "edits": 1 if q else 2} for _ in range(72 if q else 800)]


def names(r, n):
    res = []
    for i in range(n):
        e = r.choice(sorted(I.EXT))
        res.append(r.choice(["", "img/", "img/a/", "é/"]) + r.choice(["photo", "a.b", "é", "x-1", "Hero", "1", "a,b"]) + f"{i}.{e}")
    return res


class Site:
    def __init__(self, r):
        self.r, self.n = r, 0
        self.images = {}
        for p in names(r, r.choice([1, 2, 3])):
            self.new_image(p)
        self.pages = {}
        self.partials = {f"p{i}": self.items(False) for i in range(r.choice([0, 1]))}
        for i in range(r.choice([1, 2])):
            self.pages[r.choice(["", "a/", "img/"]) + f"page{i}.html"] = self.items()

    def new_image(self, p):
        r = self.r
        f = I.EXT[p.rsplit(".", 1)[1]]
        size = lambda: r.choice([1, 2, 3, 7, 16, 20, 33, 50, 64, 99, 100, 128, 200, 300])
        w, h = size(), size()
        if r.random() < .3:
            h = w
        mode = r.choice(I.MODES[f])
        self.images[p] = (I.make_image(r.randrange(1 << 60), w, h, mode, f), w, h, mode)

    def items(self, partials=True):
        r, res = self.r, []
        for _ in range(r.choice([1, 1, 2, 3])):
            if partials and self.partials and r.random() < .3:
                res.append(("partial", r.choice(sorted(self.partials))))
                continue
            self.n += 1
            p = r.choice(sorted(self.images))
            same = [x for x in res if x[0] == "img" and x[2].path == p]
            c = r.choice(same)[2] if same and r.random() < .2 else I.make_command(r, p, *self.images[p][1:3])
            res.append(("img", f"i{self.n}", c, r.random() < .3 and partials, r.randrange(1 << 30)))
        return res

    def body(self, items, path):
        out = []
        for k, it in enumerate(items):
            if it[0] == "partial":
                out.append(f'<!--[TEMPLATE: ["/{it[1]}.html"]]-->')
                continue
            _, ident, c, rel, look = it
            q = random.Random(look)
            base = path.rsplit("/", 1)[0] if "/" in path else "."
            t = c.text(q, base if rel else None)
            t = f'<i data-img="{ident}"></i>{t}<b data-end></b>'
            out.append(q.choice(["%s", "<div>%s</div>", "<p>text %s text</p>", "\n%s\n", "<ul><li>%s</li></ul>"]) % t)
        return "".join(out)

    def files(self):
        res = {"src/public/" + p: v[0] for p, v in self.images.items()}
        for p, it in self.partials.items():
            res[f"src/partials/{p}.html"] = self.body(it, "")
        for p, it in self.pages.items():
            res["src/public/" + p] = f"<!DOCTYPE html><html><head><title>t</title></head><body>{self.body(it, p)}</body></html>"
        return res

    def expected(self, page):
        res = []
        for it in self.pages[page]:
            res += [x for x in self.partials[it[1]]] if it[0] == "partial" else [it]
        return [(x[1], x[2]) for x in res]


def judge(R, s, site, settings, label):
    J = I.Judge(R, I.reader(s.folder), settings)
    done = set()
    for page in sorted(site.pages):
        found = I.slots_in(s.served(page).decode())
        for ident, c in site.expected(page):
            if ident not in found:
                R.fail("lost", f"{page}: the place of {ident} is gone", label=label)
                continue
            listed = I.judge_picture(J, None, c, found[ident], f"{label}: {page}")
            if listed is None or (page, ident) in done:
                continue
            J.all(site.images[c.path][0], c, listed, f"{label}: {page}")
            R.count("pictures")
            R.key("command", c.crop is not None and tuple(sorted(c.crop)), c.lazy, site.images[c.path][3], c.path.rsplit(".")[-1], page.count("/"))


def run_case(case, tmp):
    R = CaseResult()
    r = random.Random(case["seed"])
    settings = I.make_settings(r, r.choice([100, 400, 2500, 10000]))
    site = Site(r)
    s = S.Site(tmp, site.files(), images=settings)
    dev = r.random() < .3
    links = r.random() < .3
    if r.random() < .4:
        # as on the command line
        os.chdir(tmp)
        s.folder = "site"
    R.sample({"settings": settings, "images": {p: v[1:] for p, v in site.images.items()}, "pages": {p: [repr(x[2]) if x[0] == "img" else x for x in v] for p, v in site.pages.items()}})
    try:
        s.build(dev=dev, symlinks=links)
        judge(R, s, site, settings, "first build")
        for k in range(case["edits"]):
            page = r.choice(sorted(site.pages))
            if r.random() < .4:
                p = r.choice(sorted(site.images))
                _, w, h, _ = site.images[p]
                f = I.EXT[p.rsplit(".", 1)[1]]
                mode = r.choice(I.MODES[f])
                w, h = w + r.choice([0, 0, 1, 30]), h + r.choice([0, 0, 2, 30])
                site.images[p] = (I.make_image(r.randrange(1 << 60), w, h, mode, f), w, h, mode)
            else:
                site.pages[page] = site.items()
            s.put({p: t for p, t in site.files().items() if _bytes(t) != _now(s, p)})
            s.build(dev=dev, symlinks=links)
            R.count("edits")
            judge(R, s, site, settings, f"edit {k + 1}")
    except P.BuildFailed as e:
        R.fail("build-fails", f"a build of a valid project fails: {e}", files={p: t if isinstance(t, str) else repr(t[:20]) for p, t in site.files().items()}, settings=settings, images={p: v[1:] for p, v in site.images.items()})
    return R


def _bytes(t):
    return t.encode() if isinstance(t, str) else t


def _now(s, p):
    try:
        with open(s.path(p), "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def finalize(results, tier, counters):
    need = {"pictures": 150, "outputs": 500, "exact": 300, "chosen": 100, "edits": 40}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
