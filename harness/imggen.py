"""Random images, image settings and image commands, and the judge of what was made of them.

The judge crops and scales the source itself (exact fractions, Pillow's resampling), saves it with each configured export, and so knows
how large each export is and which one a served file is.
"""
import html as H, io, json, os, random, re
from fractions import Fraction
from html.parser import HTMLParser
from PIL import Image, ImageChops, ImageStat

EXT = {"jpg": "JPEG", "jpeg": "JPEG", "png": "PNG", "webp": "WEBP", "gif": "GIF", "bmp": "BMP", "JPG": "JPEG", "PNG": "PNG"}
MODES = {"JPEG": ["RGB", "RGB", "RGB", "L", "CMYK"], "PNG": ["RGB", "RGB", "RGBA", "L", "LA", "P", "1"], "WEBP": ["RGB", "RGB", "RGBA"], "GIF": ["P"], "BMP": ["RGB", "L"]}


def make_image(seed, w, h, mode, fmt):
    """Bytes of an image whose every part looks different."""
    r = random.Random(seed)
    small = Image.new("RGB", (4, 4))
    small.putdata([tuple(r.randrange(256) for _ in range(3)) for _ in range(16)])
    im = small.resize((w, h), Image.Resampling.BICUBIC)
    if r.random() < .3 and min(w, h) > 8:
        # something hard to compress
        k = min(w, h) // 2
        noise = Image.frombytes("RGB", (k, k), bytes(r.randrange(256) for _ in range(k * k * 3)))
        im.paste(Image.blend(im.crop((0, 0, k, k)), noise, .25), (0, 0))
    if mode == "RGBA" or mode == "LA":
        a = Image.new("L", (3, 3))
        a.putdata([r.choice([255, 255, 255, 0, 128]) for _ in range(9)])
        im = im.convert("L" if mode == "LA" else "RGB")
        im.putalpha(a.resize((w, h), Image.Resampling.NEAREST))
    elif mode == "P":
        im = im.quantize(r.choice([8, 64, 256]))
    elif mode != "RGB":
        im = im.convert(mode)
    b = io.BytesIO()
    kw = {"quality": 95} if fmt == "JPEG" else {"lossless": True} if fmt == "WEBP" else {"transparency": 0} if mode == "P" and r.random() < .3 else {}
    im.save(b, format=fmt, **kw)
    return b.getvalue()


EXPORTS = {
    "jpeg": lambda r: {"quality": r.choice([5, 20, 50, 75, 85, 95, 100]), **r.choice([{}, {}, {"optimize": True}, {"progressive": True}, {"subsampling": 0}])},
    "webp": lambda r: r.choice([{"lossless": True}, {"quality": r.choice([10, 50, 80, 100])}, {"quality": r.choice([10, 50, 90]), "method": r.choice([0, 6])}, {"lossless": True, "quality": 100, "method": 6}, {"lossless": False, "quality": 30}]),
    "png": lambda r: r.choice([{}, {"optimize": True}, {"compress_level": r.choice([0, 1, 9])}]),
}


def make_settings(r, area=400, formats=None, most=3):
    """Settings where the default format always has an export."""
    names = formats or r.sample(sorted(EXPORTS), r.choice([1, 2, 2, 3]))
    default = r.choice(names)
    res = {}
    for f in names:
        exports = {}
        labels = r.sample(["50", "75", "85", "100", "lossless", "low", "best", "a-b", "x.y", "10"], r.randrange(1, most + 1))
        for i, n in enumerate(labels):
            lo = hi = None
            if r.random() < .4 and not (f == default and i == 0):
                k = r.choice(["lo", "hi", "both"])
                lo = r.choice([area, area // 2, area * 2, area + 1, 0]) if k != "hi" else None
                hi = r.choice([area, area - 1, area * 2, area * 4]) if k != "lo" else None
            exports[n] = {"min_area_px2": lo, "max_area_px2": hi, "preference": r.choice([1, 1, 2, 3, 5, 9]), "formatter_kwargs": EXPORTS[f](r)}
            for k in ("min_area_px2", "max_area_px2"):
                if exports[n][k] is None and r.random() < .3:
                    del exports[n][k]
        items = list(exports.items())
        r.shuffle(items)
        res[f] = {"exports": dict(items), "minimum_unit_size_bytes": r.choice([0, 1, 300, 700, 1500, 85000])}
    return {"formats": res, "default_format": default, "maximum_resolution": r.choice([1, 2, 2, 3, 4]), "resolution_step": r.choice([0.5, 0.5, 1, 2, 1.5, 0.25, 0.7, 0.3, 0.1, "0.5", "0.6", 0.6]),
            **r.choice([{}, {"auto_generate_images_js_placeholders": True}])}


def applies(e, w, h):
    lo, hi = e.get("min_area_px2"), e.get("max_area_px2")
    return (lo is None or w * h >= lo) and (hi is None or w * h <= hi)


def resolutions(settings, sw, sh, dw, dh):
    step = Fraction(str(settings["resolution_step"]))
    k, res = Fraction(1), []
    while k <= settings["maximum_resolution"] and dw * k <= sw and dh * k <= sh:
        res.append(k)
        k += step
    return res


CROPS = ("pre_top_crop", "pre_left_crop", "pre_right_crop", "pre_bottom_crop", "crop_left_percentage", "crop_top_percentage")


class Command:
    def __init__(self, path, w, h, crop=None, lazy=None, style=False):
        self.path, self.w, self.h, self.crop, self.lazy, self.style = path, w, h, crop, lazy, style

    def full_crop(self):
        return {**dict.fromkeys(CROPS[:4], 0), **dict.fromkeys(CROPS[4:], 0.5), **(self.crop or {})}

    def text(self, r, base=None):
        p = "/" + self.path if base is None else os.path.relpath(self.path, base)
        args = [p, str(self.w), str(self.h)]
        if self.crop is not None or self.lazy is not None or self.style:
            args.append("cover")
        if self.crop is not None or self.lazy is not None:
            args.append(json.dumps(self.crop or {}, separators=r.choice([(", ", ": "), (",", ":"), (" , ", " : ")])))
        if self.lazy is not None:
            args.append("lazy" if self.lazy else "eager")
        sp = r.choice([" ", " ", "  "])
        return r.choice(["<!--[IMAGE: %s]-->", "<!-- [IMAGE: %s] -->", "<!--[ IMAGE : %s]-->", "<!--[IMAGE:  %s ]-->"]) % sp.join(args)

    def listed(self, r):
        res = {"path": "/" + self.path, "width": self.w, "height": self.h}
        if self.crop is not None or r.random() < .5:
            res["crop_arguments"] = self.crop or {}
        if r.random() < .5:
            res["crop_style"] = "cover"
        if self.lazy is not None or r.random() < .5:
            res["lazy"] = bool(self.lazy)
        return res

    def __repr__(self):
        return f"{self.path} {self.w}x{self.h} {self.crop} lazy={self.lazy}"


def make_command(r, path, sw, sh, simple=False):
    dw = r.choice([sw, max(1, sw // 2), max(1, sw // 3), r.randrange(1, sw + 1), max(1, sw // 4), 1 if r.random() < .2 else sw])
    dh = r.choice([sh, max(1, sh // 2), max(1, sh // 3), r.randrange(1, sh + 1), max(1, dw * sh // sw), max(1, dw * sh // sw)])
    crop = None
    if not simple and r.random() < .5:
        crop = {}
        if r.random() < .6:
            for k, size in (("pre_top_crop", sh - dh), ("pre_left_crop", sw - dw)):
                if r.random() < .5 and size > 0:
                    crop[k] = r.randrange(0, size + 1)
            for k, o, size in (("pre_bottom_crop", "pre_top_crop", sh - dh), ("pre_right_crop", "pre_left_crop", sw - dw)):
                if r.random() < .4 and size - crop.get(o, 0) > 0:
                    crop[k] = r.randrange(0, size - crop.get(o, 0) + 1)
        for k in CROPS[4:]:
            if r.random() < .4:
                crop[k] = r.choice([0, 1, 0.25, 0.9, 0.5, 0.0, 1.0, 0.1])
    return Command(path, dw, dh, crop, r.choice([None, None, True, False]), r.random() < .3)


def crop_box(sw, sh, w, h, c):
    """The largest region of the target's aspect ratio which the minimum crops leave, placed by the percentages."""
    l, t = c["pre_left_crop"], c["pre_top_crop"]
    W, Hh = sw - l - c["pre_right_crop"], sh - t - c["pre_bottom_crop"]
    d = W * h - Hh * w
    if d > 0:
        cw = max(1, round(Fraction(Hh * w, h)))
        return l + int((W - cw) * Fraction(c["crop_left_percentage"])), t, cw, Hh
    if d < 0:
        ch = max(1, round(Fraction(W * h, w)))
        return l, t + int((Hh - ch) * Fraction(c["crop_top_percentage"])), W, ch
    return l, t, W, Hh


def scaled(im, box, w, h):
    x, y, cw, ch = box
    if (x, y, cw, ch) != (0, 0, im.width, im.height):
        im = im.crop((x, y, x + cw, y + ch))
    return im.resize((w, h), Image.Resampling.LANCZOS) if im.size != (w, h) else im


def encode(im, fmt, kw):
    b = io.BytesIO()
    im.save(b, format=fmt, **kw)
    return b.getvalue()


def flat(im, color):
    im = im.convert("RGBA")
    bg = Image.new("RGBA", im.size, color + (255,))
    return Image.alpha_composite(bg, im).convert("RGB")


def distance(a, b):
    """Mean difference of two images of the same size, over the background which suits best."""
    res = 999.0
    fa = a.convert("RGB")
    for v in ([(255,) * 3, (0,) * 3] if "A" in a.getbands() or "A" in b.getbands() or "transparency" in a.info or "transparency" in b.info else [(255,) * 3]):
        d = ImageStat.Stat(ImageChops.difference(flat(a, v), flat(b, v))).mean
        res = min(res, sum(d) / 3)
    d = ImageStat.Stat(ImageChops.difference(fa, b.convert("RGB"))).mean
    return min(res, sum(d) / 3)


class Judge:
    """Decides whether the outputs listed for a command are what the settings ask for."""

    def __init__(self, R, served, settings):
        self.R, self.served, self.settings = R, served, settings    # served: url -> bytes or None

    def output(self, src, cmd, fmt, url, w, h, choice, where):
        R, st = self.R, self.settings
        data = self.served(url)
        if not R.expect(data is not None, "file-missing", f"{where} refers to {url}, which is not served", url=url, command=repr(cmd)):
            return
        im = Image.open(io.BytesIO(src))
        try:
            got = Image.open(io.BytesIO(data))
            got.load()
        except Exception as e:
            R.fail("unreadable", f"{url} is not an image: {e}", command=repr(cmd))
            return
        R.expect(got.size == (w, h), "dimensions", f"{where} says {w}x{h} for {url}, which is {got.size[0]}x{got.size[1]}", command=repr(cmd))
        R.expect(got.format == fmt.upper(), "format", f"{where} says {fmt} for {url}, which is {got.format}", command=repr(cmd))
        if got.size != (w, h):
            return
        R.count("outputs")
        exports = {n: e for n, e in st["formats"][fmt]["exports"].items() if applies(e, w, h)}
        if choice is not None:
            R.expect(choice in exports, "choice-not-applicable", f"{where} says {url} is export {choice}, the applicable ones are {sorted(exports)}", command=repr(cmd))
        mu = st["formats"][fmt]["minimum_unit_size_bytes"]
        box = crop_box(im.width, im.height, w, h, cmd.full_crop())
        mine = scaled(im, box, w, h)
        if fmt == "jpeg" and mine.mode not in ("RGB", "L", "CMYK", "1"):
            mine = flat(mine, (255, 255, 255))
        elif fmt == "png" and mine.mode == "CMYK":
            mine = mine.convert("RGB")
        cands = {n: encode(mine, fmt, e.get("formatter_kwargs", {})) for n, e in exports.items()}
        best_of = lambda cs: min(Fraction(max(len(b), mu), exports[n]["preference"]) for n, b in cs.items())
        score = lambda cs, n: Fraction(max(len(cs[n]), mu), exports[n]["preference"])
        which = [n for n, b in cands.items() if b == data]
        exact = im.mode in ("RGB", "L")
        if not which and exact:
            # another rounding of the crop is as good
            for dx in (0, -1, 1):
                for dy in (0, -1, 1):
                    for dw in (0, -1, 1):
                        for dh in (0, -1, 1):
                            b = (box[0] + dx, box[1] + dy, box[2] + dw, box[3] + dh)
                            if which or b[0] < 0 or b[1] < 0 or min(b[2:]) < 1 or b[0] + b[2] > im.width or b[1] + b[3] > im.height:
                                continue
                            m2 = scaled(im, b, w, h)
                            c2 = {n: encode(m2, fmt, e.get("formatter_kwargs", {})) for n, e in exports.items()}
                            which = [n for n, x in c2.items() if x == data]
                            if which:
                                cands = c2
        worst = max((distance(Image.open(io.BytesIO(b)), mine) for b in cands.values()), default=0)
        d = distance(got, mine)
        if not which:
            R.expect(d <= worst + 6, "not-that-image", f"{url} does not show that part of the image: it differs by {d:.1f} of 255 from it, the exports by at most {worst:.1f}", command=repr(cmd), settings=st["formats"][fmt])
            R.expect(not exact or d > worst + 6, "not-an-export", f"{url} is not what any of the applicable exports {sorted(exports)} makes of the image", command=repr(cmd), settings=st["formats"][fmt])
            R.count("inexact")
            return
        R.count("exact")
        ok = [n for n in which if score(cands, n) == best_of(cands)]
        R.expect(ok, "not-the-best", f"{url} is export {which}, but of {({n: (len(b), exports[n]['preference']) for n, b in cands.items()})} (bytes, preference) with unit {mu} another one is the best", command=repr(cmd), settings=st["formats"][fmt])
        if choice is not None:
            R.expect(choice in which, "choice", f"{where} says {url} is export {choice}, it is {which}", command=repr(cmd))
        if len(exports) > 1:
            R.count("chosen")
            R.key("chosen", fmt, len(exports), len(cands[which[0]]) < mu, len(cands[which[0]]) == min(map(len, cands.values())), len(exports) < len(st["formats"][fmt]["exports"]), im.mode)

    def sizes(self, src, cmd, listed, where):
        """listed: format -> [(url, w, h, choice)]"""
        R, st = self.R, self.settings
        im = Image.open(io.BytesIO(src))
        res = resolutions(st, im.width, im.height, cmd.w, cmd.h)
        for fmt in st["formats"]:
            want = [k for k in res if any(applies(e, int(cmd.w * k), int(cmd.h * k)) for e in st["formats"][fmt]["exports"].values())]
            have = listed.get(fmt, [])
            fits = lambda w, h, k: abs(w - cmd.w * k) < 1 and abs(h - cmd.h * k) < 1
            for k in want:
                R.expect(any(fits(w, h, k) for _, w, h, _ in have), "size-missing", f"{where} lists {[x[1:3] for x in have]} as {fmt}, not {float(k)} times {cmd.w}x{cmd.h}", command=repr(cmd), source=im.size, step=st["resolution_step"], maximum=st["maximum_resolution"])
            for u, w, h, _ in have:
                R.expect(any(fits(w, h, k) for k in want), "size-extra", f"{where} lists {w}x{h} as {fmt}, which is not one of {[float(k) for k in want]} times {cmd.w}x{cmd.h}", command=repr(cmd), source=im.size, step=st["resolution_step"], maximum=st["maximum_resolution"])
            R.count("sizes", len(want))
        extra = set(listed) - set(st["formats"])
        R.expect(not extra, "format-extra", f"{where} lists formats {sorted(extra)}", command=repr(cmd))
        R.key("sizes", len(res), str(st["resolution_step"]), im.width == cmd.w, im.height == cmd.h, bool(cmd.crop))

    def all(self, src, cmd, listed, where):
        self.sizes(src, cmd, listed, where)
        for fmt, l in listed.items():
            if fmt in self.settings["formats"]:
                for u, w, h, c in l:
                    self.output(src, cmd, fmt, u, w, h, c, where)


class _Page(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.cur, self.res, self.text = None, {}, ""

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if "data-img" in a:
            self.cur = a["data-img"]
            self.res[self.cur] = []
        elif "data-end" in a:
            self.cur = None
        elif self.cur is not None:
            self.res[self.cur].append((tag, a))

    def handle_endtag(self, tag):
        if self.cur is not None and tag not in ("i", "source", "img"):
            self.res[self.cur].append(("/" + tag, {}))

    def handle_comment(self, data):
        if self.cur is not None:
            self.res[self.cur].append(("#comment", {"": data}))

    def handle_data(self, data):
        if self.cur is not None and data.strip():
            self.res[self.cur].append(("#text", {"": data}))


def slots_in(page):
    """ident -> what stands between the markers written around that command."""
    p = _Page()
    p.feed(page)
    p.close()
    return p.res


def read_srcset(s):
    """[(url, width)] of a srcset which uses width descriptors."""
    res = []
    for part in re.findall(r"\s*,*\s*(\S+)\s*([^,]*)(?:,|$)", s or ""):
        m = re.fullmatch(r"(\d+)w\s*", part[1])
        res.append((part[0], int(m.group(1)) if m else None))
    return res


def judge_picture(J, src, cmd, parts, where):
    """Judges the markup made for a command; returns format -> [(url, w, h, None)] or None."""
    R, st = J.R, J.settings
    tags = [t for t, _ in parts]
    if not R.expect(tags[:1] == ["picture"] and tags[-1:] == ["/picture"] and tags.count("img") == 1 and set(tags[1:-1]) <= {"source", "img"} and tags[-2:-1] == ["img"],
                    "markup", f"{where}: instead of a picture with sources and an image stands {parts}", command=repr(cmd)):
        return None
    img = parts[-2][1]
    R.expect(img.get("width") == str(cmd.w) and img.get("height") == str(cmd.h), "img-size", f"{where}: the img says {img.get('width')}x{img.get('height')}", command=repr(cmd))
    want = "eager" if cmd.lazy is False else "lazy"
    R.expect((img.get("loading") or "eager") == want, "loading", f"{where}: loading is {img.get('loading')}, asked for {want}", command=repr(cmd))
    listed = {}
    for t, a in parts[1:-1]:
        srcset = a.get("srcset")
        if not R.expect(srcset, "no-srcset", f"{where}: {t} has no srcset", command=repr(cmd)):
            return None
        items = []
        fmts = set()
        for url, w in read_srcset(srcset):
            m = re.fullmatch(r"/(.*)/(\d+)/(\d+)x(\d+)\.([A-Za-z]+)", url)
            if not R.expect(m and w, "srcset", f"{where}: {url} {w} is not understood in {srcset}", command=repr(cmd)):
                return None
            R.expect(int(m.group(3)) == w, "width-descriptor", f"{where}: {url} is announced as {w}w", command=repr(cmd))
            fmts.add(m.group(5))
            items.append((url, w, int(m.group(4)), None))
        if not R.expect(len(fmts) == 1, "mixed-formats", f"{where}: a source mixes the formats {sorted(fmts)}", command=repr(cmd)):
            return None
        f = fmts.pop()
        if a.get("type"):
            R.expect(a["type"] == "image/" + f, "type", f"{where}: {f} files are announced as {a['type']}", command=repr(cmd))
        R.expect(f not in listed, "twice", f"{where}: two sources of {f}", command=repr(cmd))
        listed[f] = items
        if t == "img":
            R.expect(f == st["default_format"], "default-format", f"{where}: the fallback is {f}, configured is {st['default_format']}", command=repr(cmd))
            R.expect(img.get("src") in [u for u, w, h, _ in items if (w, h) == (cmd.w, cmd.h)], "src", f"{where}: src is {img.get('src')}, not the requested size of {srcset}", command=repr(cmd))
    return listed


def reader(folder):
    """url path -> bytes served, None if there is none"""
    def get(url):
        p = os.path.join(folder, "out/www", url.lstrip("/"))
        try:
            with open(p, "rb") as f:
                return f.read()
        except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
            return None
    return get
