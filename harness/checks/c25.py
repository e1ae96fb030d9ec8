"""Concurrent reservations of image slots, and histories of builds over shared images, watched for slots that are shared, doubled or stale."""
import hashlib, json, os, random, re, sys, time
from common import CaseResult
import imggen as I, minisite as S, project as P, vpmon

PROPERTY = "C25"
TECHNIQUE = "runtime monitoring: (1) many processes reserve slots for the same images through the real scanner with injected delays, an offline checker compares all answers; (2) real builds over histories of edits to images, commands and settings, an oracle decodes every served file and the recorded metadata"
RULE = ("histories over several pages and image lists sharing images (also of equal names with different extensions), with edits of contents (also back to earlier ones and swaps), commands, settings, deletions of pages, images, the output folder and artifacts, delayed steps; histories of changes of one setting at a time; reservations by up to 16 processes at once of mixed requests, with random "
        "delays at file accesses. Distinct by (operation, requests per slot, equal base names, result) and interleavings by the order of the accesses of all processes")
TIMEOUT = 240
ASSUMPTIONS = ["one build at a time for one project", "a user does not put files of other origin into the artifacts folder"]
SETTINGS = [
    {"formats": {"jpeg": {"exports": {"a": {"preference": 1, "formatter_kwargs": {"quality": 80}}}, "minimum_unit_size_bytes": 0}}, "default_format": "jpeg", "maximum_resolution": 2, "resolution_step": 1},
    {"formats": {"jpeg": {"exports": {"a": {"preference": 1, "formatter_kwargs": {"quality": 40}}}, "minimum_unit_size_bytes": 0}}, "default_format": "jpeg", "maximum_resolution": 2, "resolution_step": 1},
    {"formats": {"png": {"exports": {"a": {"preference": 1, "formatter_kwargs": {}}}, "minimum_unit_size_bytes": 0}}, "default_format": "png", "maximum_resolution": 2, "resolution_step": 1},
    {"formats": {"png": {"exports": {"a": {"preference": 1, "formatter_kwargs": {}}}, "minimum_unit_size_bytes": 0}}, "default_format": "png", "maximum_resolution": 3, "resolution_step": 1},
    {"formats": {"png": {"exports": {"a": {"preference": 1, "formatter_kwargs": {}}}, "minimum_unit_size_bytes": 0}}, "default_format": "png", "maximum_resolution": 2, "resolution_step": 0.5},
    {"formats": {"webp": {"exports": {"a": {"preference": 1, "formatter_kwargs": {"quality": 80}}, "b": {"preference": 2, "formatter_kwargs": {"lossless": True}}}, "minimum_unit_size_bytes": 0},
                 "png": {"exports": {"a": {"preference": 1, "formatter_kwargs": {}}}, "minimum_unit_size_bytes": 0}}, "default_format": "png", "maximum_resolution": 1, "resolution_step": 1},
    {"formats": {"webp": {"exports": {"a": {"preference": 9, "formatter_kwargs": {"quality": 80}}, "b": {"preference": 1, "formatter_kwargs": {"lossless": True}}}, "minimum_unit_size_bytes": 0},
                 "png": {"exports": {"a": {"preference": 1, "formatter_kwargs": {}}}, "minimum_unit_size_bytes": 0}}, "default_format": "png", "maximum_resolution": 1, "resolution_step": 1},
    {"formats": {"webp": {"exports": {"a": {"preference": 2, "formatter_kwargs": {"quality": 80}}, "b": {"preference": 3, "formatter_kwargs": {"lossless": True}}}, "minimum_unit_size_bytes": 100000},
                 "png": {"exports": {"a": {"preference": 1, "formatter_kwargs": {}}}, "minimum_unit_size_bytes": 0}}, "default_format": "png", "maximum_resolution": 1, "resolution_step": 1},
    {"formats": {"webp": {"exports": {"a": {"preference": 9, "formatter_kwargs": {"quality": 80}, "max_area_px2": 500}, "b": {"preference": 1, "formatter_kwargs": {"lossless": True}}}, "minimum_unit_size_bytes": 0},
                 "png": {"exports": {"a": {"preference": 1, "formatter_kwargs": {}}}, "minimum_unit_size_bytes": 0}}, "default_format": "png", "maximum_resolution": 1, "resolution_step": 1},
    {"formats": {"webp": {"exports": {"a": {"preference": 9, "formatter_kwargs": {"quality": 80}, "min_area_px2": 500}, "b": {"preference": 1, "formatter_kwargs": {"lossless": True}}}, "minimum_unit_size_bytes": 0},
                 "png": {"exports": {"a": {"preference": 1, "formatter_kwargs": {}}}, "minimum_unit_size_bytes": 0}}, "default_format": "webp", "maximum_resolution": 1, "resolution_step": 1},
]


def cases(tier, rng):
    q = tier == "quick"
    res = [{"kind": "history", "seed": rng.randrange(1 << 60), "steps": 6 if q else 10} for _ in range(40 if q else 500)]
    res += [{"kind": "fields", "seed": rng.randrange(1 << 60), "steps": 6 if q else 12} for _ in range(16 if q else 200)]
    res += [{"kind": "collision"}]
    return res + [{"kind": "reserve", "seed": rng.randrange(1 << 60), "rounds": 6 if q else 12} for _ in range(16 if q else 120)]


# ---------------------------------------------------------------- histories

class Site:
    def __init__(self, r):
        self.r, self.n = r, 0
        self.images, self.past = {}, {}
        base = r.choice(["img/a", "photo", "x/y.z"])
        for e in r.sample(["png", "jpg", "webp", "bmp"], r.choice([1, 2, 2, 3])):
            self.images[f"{base}.{e}"] = None
            self.change(f"{base}.{e}", r.choice([(24, 24), (24, 24), (40, 30)]))
        self.users = {}
        for _ in range(r.choice([2, 3, 5])):
            self.add_user()

    def change(self, p, size=None):
        r = self.r
        old = self.images[p]
        size = size or r.choice([old[1:3], old[1:3], (24, 24), (40, 30), (30, 40)])
        f = I.EXT[p.rsplit(".", 1)[1]]
        # the same content under several names, too
        self.images[p] = (I.make_image(r.choice([r.randrange(1 << 60), 7]), *size, "RGB", f), *size)
        self.past.setdefault(p, []).append(self.images[p])

    def command(self):
        r = self.r
        p = r.choice(sorted(self.images))
        w, h = r.choice([(12, 12), (12, 12), (20, 10), (6, 6)])
        crop = r.choice([None, None, {"crop_top_percentage": 0}, {"crop_top_percentage": 1}, {"crop_left_percentage": 0}, {"crop_left_percentage": 1}, {"pre_top_crop": 4}, {"pre_bottom_crop": 4}, {"pre_left_crop": 4}, {"pre_right_crop": 4}])
        return I.Command(p, w, h, crop)

    def add_user(self):
        self.n += 1
        r = self.r
        kind = r.choice(["html", "html", "json"])
        self.users[f"u{self.n}.{'html' if kind == 'html' else 'images.json'}"] = [self.command() for _ in range(r.choice([1, 2, 3]))]

    def files(self):
        res = {"src/public/" + p: v[0] for p, v in self.images.items()}
        for u, cs in self.users.items():
            if u.endswith("html"):
                t = "".join(f'<i data-img="{i}"></i>{c.text(random.Random(i))}<b data-end></b>' for i, c in enumerate(cs))
                res["src/public/" + u] = f"<!DOCTYPE html><html><head><title>t</title></head><body>{t}</body></html>"
            else:
                res["src/public/" + u] = json.dumps({f"n{i}": c.listed(random.Random(i)) for i, c in enumerate(cs)})
        return res


def listed_by(s, J, u, cs):
    """(command, format -> outputs) of each command of a page or list."""
    if u.endswith(".html"):
        found = I.slots_in(s.served(u).decode())
        for i, c in enumerate(cs):
            l = I.judge_picture(J, None, c, found.get(str(i), []), u)
            if l is not None:
                yield c, l
    else:
        t = s.served(u[:-4] + "js").decode()
        m = re.fullmatch(r"export default (.*);\s*", t, re.S)
        d = json.loads(m.group(1))
        for i, c in enumerate(cs):
            yield c, {f: [(o["url"], o["width"], o["height"], o["choice"]) for o in l] for f, l in d[f"n{i}"]["target"]["outputs"].items()}


def request(site, c):
    return c.path, hashlib.sha1(site.images[c.path][0]).hexdigest(), c.w, c.h, tuple(sorted(c.full_crop().items()))


def judge(R, s, site, settings, label):
    J = I.Judge(R, I.reader(s.folder), settings)
    of_request, of_slot = {}, {}
    for u, cs in sorted(site.users.items()):
        for c, listed in listed_by(s, J, u, cs):
            q = request(site, c)
            slots = {o[0].rsplit("/", 1)[0] for l in listed.values() for o in l}
            if not R.expect(len(slots) == 1, "split", f"{label}: {u} {c} uses the folders {sorted(slots)}"):
                continue
            slot = slots.pop()
            J.all(site.images[c.path][0], c, listed, f"{label}: {u}")
            of_request.setdefault(q, {}).setdefault(slot, u)
            of_slot.setdefault(slot, {}).setdefault(q, u)
            R.count("uses")
            metadata(R, s, site, slot, c, listed, f"{label}: {u}")
    for q, slots in of_request.items():
        if s.lost:
            # what was published from the artifacts which were removed stays until it is built again
            slots = {x: u for x, u in slots.items() if os.path.exists(s.path("artifacts" + x + "/metadata.json"))} or {"": ""}
        R.expect(len(slots) == 1, "two-slots", f"{label}: {q} has the slots {slots}")
    for slot, qs in of_slot.items():
        R.expect(len(qs) == 1, "shared-slot", f"{label}: {slot} is used for {qs}")
    R.count("slots", len(of_slot))
    R.count("shared requests", sum(1 for u in site.users.values() for c in u) - len(of_request))
    stems = [p.rsplit(".", 1)[0] for p in {q[0] for q in of_request}]
    R.key("slots", label.split(":")[0].split(" ")[-1], min(len(of_slot), 6), len(stems) - len(set(stems)))


def metadata(R, s, site, slot, c, listed, where):
    p = s.path("artifacts" + slot + "/metadata.json")
    if s.lost and not os.path.exists(p):
        return  # removed by hand, and what is served has not been made again since
    if not R.expect(os.path.exists(p), "no-metadata", f"{where}: {slot} is in use, and has no metadata"):
        return
    d = json.load(open(p))
    img = site.images[c.path]
    R.expect(d["source"]["path"] == "src/public/" + c.path, "metadata-source", f"{where}: {slot} is recorded for {d['source']['path']}, used for {c.path}")
    R.expect((d["source"]["width"], d["source"]["height"]) == img[1:3], "metadata-source-size", f"{where}: {slot} is recorded for {d['source']}, the image is {img[1:3]}")
    try:
        h = s.served(c.path + ".hash").decode()
        R.expect(d["source"]["contents_hash"] == h, "metadata-hash", f"{where}: {slot} is recorded for content {d['source']['contents_hash']}, the image is {h}")
    except FileNotFoundError:
        R.fail("no-image-hash", f"{where}: {c.path} was not published")
    t = d["target"]["settings"]
    R.expect((t["width"], t["height"]) == (c.w, c.h) and t["crop_settings"] == c.full_crop(), "metadata-target", f"{where}: {slot} is recorded for {t}, used for {c}")
    outs = {f: [("/" + o["relpath"], o["width"], o["height"]) for o in l] for f, l in d["target"]["outputs"].items()}
    R.expect(outs == {f: [o[:3] for o in l] for f, l in listed.items()}, "metadata-outputs", f"{where}: recorded outputs {outs} are not those in use {listed}")
    for l in outs.values():
        for o in l:
            a = s.path("artifacts" + o[0])
            R.expect(s.lost or os.path.exists(a), "artifact-missing", f"{where}: there is no artifact for {o[0]}")
            R.expect(not os.path.exists(a) or open(a, "rb").read() == I.reader(s.folder)(o[0]), "artifact", f"{where}: the artifact {o[0]} is not what is served")


def history(R, case, tmp):
    r = random.Random(case["seed"])
    site = Site(r)
    settings = r.choice(SETTINGS)
    s = S.Site(tmp, site.files(), images=settings)
    log = []
    R.sample({"settings": SETTINGS.index(settings), "images": {p: v[1:] for p, v in site.images.items()}, "users": {u: [repr(c) for c in cs] for u, cs in site.users.items()}})


    def delay(kind, relpath):
        return random.Random(f"{case['seed']}{relpath}{os.getpid()}{time.monotonic_ns()}").choice([0, 0, .005, .02, .05])
    if r.random() < .6:
        vpmon.start(root=s.folder, io=False, delay=delay)
    op = "first"
    for k in range(case["steps"] + 1):
        if k:
            before = site.files()
            op = r.choice(["content", "content", "content", "back", "swap", "command", "command", "command", "settings", "settings", "out", "artifacts", "add", "remove", "image", "placeholder-left", "nothing"])
            if op == "content":
                site.change(r.choice(sorted(site.images)))
            elif op == "back":
                p = r.choice(sorted(site.images))
                site.images[p] = r.choice(site.past[p])
            elif op == "swap" and len(site.users) > 1:
                a, b = r.sample(sorted(site.users), 2)
                site.users[a], site.users[b] = site.users[b], site.users[a]
            elif op == "command":
                u = r.choice(sorted(site.users))
                site.users[u][r.randrange(len(site.users[u]))] = site.command()
            elif op == "settings":
                settings = r.choice(SETTINGS)
                s.config(images=settings)
                s.rm("out")
                s.lost = False
            elif op == "out":
                s.rm("out")
                s.lost = False
            elif op == "artifacts":
                s.rm("artifacts")
                s.lost = True
            elif op == "add":
                site.add_user()
            elif op == "remove" and len(site.users) > 1:
                del site.users[r.choice(sorted(site.users))]
            elif op == "image":
                unused = [p for p in site.images if not any(c.path == p for cs in site.users.values() for c in cs)]
                p = f"img/n{k}.png"
                site.images[p] = None
                site.images[p] = (I.make_image(r.randrange(1 << 60), 24, 24, "RGB", "PNG"), 24, 24)
                site.past[p] = [site.images[p]]
                for q in unused:
                    del site.images[q]
                site.add_user()
            elif op == "placeholder-left":
                # as after a build which was interrupted between the scan and the export
                left = s.interrupt(r.random())
                log.append(("interrupted", left))
            if r.random() < .3 and op in ("content", "artifacts", "command"):
                u = r.choice(sorted(site.users))
                site.users[u].append(site.command())
            now = site.files()
            s.put({p: b for p, b in now.items() if before.get(p) != b}, gone=[p for p in before if p not in now])
            log.append(op)
        try:
            s.build()
        except P.BuildFailed as e:
            R.fail("build-fails", f"after {log}: a build of a valid project fails: {e}", users={u: [repr(c) for c in cs] for u, cs in site.users.items()})
            return
        R.count("builds")
        R.count("op " + op)
        judge(R, s, site, settings, f"build {k} {op}: {log}")
        if R.violations:
            return


# ---------------------------------------------------------------- one setting at a time

def changed(r, st):
    """The same settings with one of them changed: (which, settings)."""
    st = json.loads(json.dumps(st))
    f = r.choice(sorted(st["formats"]))
    fm = st["formats"][f]
    n = r.choice(sorted(fm["exports"]))
    e = fm["exports"][n]
    default = st["default_format"]
    bounded = [m for m in fm["exports"] if f != default or any(x.get("min_area_px2") is None and x.get("max_area_px2") is None for k, x in fm["exports"].items() if k != m)]
    what = r.choice(["bound", "bound", "bound", "preference", "preference", "kwarg", "kwarg", "kwarg", "unit", "unit", "default", "resolution", "step", "name", "names", "export", "less", "format"])
    if what == "bound":
        if not bounded:
            return None
        e = fm["exports"][r.choice(bounded)]
        k = r.choice(["min_area_px2", "max_area_px2"])
        areas = [143, 144, 145, 199, 200, 201, 36, 576, 0, 10 ** 6, None]
        e[k] = r.choice([x for x in areas if x != e.get(k)])
    elif what == "preference":
        e["preference"] = r.choice([x for x in (1, 2, 3, 5, 9, 20) if x != e["preference"]])
    elif what == "kwarg":
        old = e["formatter_kwargs"]
        for _ in range(9):
            new = I.EXPORTS[f](r)
            if new != old:
                break
        else:
            return None
        e["formatter_kwargs"] = new
    elif what == "unit":
        fm["minimum_unit_size_bytes"] = r.choice([x for x in (0, 1, 200, 400, 600, 1000, 85000) if x != fm["minimum_unit_size_bytes"]])
    elif what == "default":
        ok = [g for g in st["formats"] if g != default and any(x.get("min_area_px2") is None and x.get("max_area_px2") is None for x in st["formats"][g]["exports"].values())]
        if not ok:
            return None
        st["default_format"] = r.choice(ok)
    elif what == "resolution":
        st["maximum_resolution"] = r.choice([x for x in (1, 2, 3, 4) if x != st["maximum_resolution"]])
    elif what == "step":
        st["resolution_step"] = r.choice([x for x in (0.5, 1, 2, 0.75, "0.6") if x != st["resolution_step"]])
    elif what == "name":
        fm["exports"] = {("renamed" if k == n else k): v for k, v in fm["exports"].items()}
        if "renamed" == n or len(fm["exports"]) < 1:
            return None
    elif what == "names":
        if len(fm["exports"]) < 2:
            return None
        a, b = r.sample(sorted(fm["exports"]), 2)
        fm["exports"][a], fm["exports"][b] = fm["exports"][b], fm["exports"][a]
    elif what == "export":
        fm["exports"][f"x{r.randrange(3)}"] = {"preference": r.choice([1, 4, 12]), "formatter_kwargs": I.EXPORTS[f](r)}
    elif what == "less":
        if len(fm["exports"]) < 2 or n not in bounded:
            return None
        del fm["exports"][n]
    elif what == "format":
        others = [g for g in I.EXPORTS if g not in st["formats"]]
        if others and r.random() < .6:
            st["formats"][r.choice(others)] = {"exports": {"a": {"preference": 1, "formatter_kwargs": {}}}, "minimum_unit_size_bytes": 0}
        elif f != default:
            del st["formats"][f]
        else:
            return None
    return what, st


def fields(R, case, tmp):
    r = random.Random(case["seed"])
    site = Site(r)
    settings = I.make_settings(r, r.choice([144, 200]))
    s = S.Site(tmp, site.files(), images=settings)
    past, log = [settings], []
    for k in range(case["steps"] + 1):
        if k:
            if r.random() < .2 and len(past) > 1:
                what, settings = "back", r.choice(past[:-1])
            else:
                got = None
                while got is None:
                    got = changed(r, settings)
                what, settings = got
                if settings in past:
                    R.count("field again")
            past.append(settings)
            log.append(what)
            R.count("field " + what)
            R.key("field", what, len(settings["formats"]))
            s.config(images=settings)
            s.rm("out")
        try:
            s.build()
        except P.BuildFailed as e:
            R.fail("build-fails", f"after changes of {log}: a build of a valid project fails: {e}", settings=settings)
            return
        R.count("builds")
        judge(R, s, site, settings, f"changes of the settings {log}")
        if R.violations:
            for v in R.violations:
                v.setdefault("witness", {})["settings"] = past[-2:]
            return


def collision(R, case, tmp):
    """Two settings with the same hash in the recorded metadata."""
    def settings(lo, hi):
        return {"formats": {"png": {"exports": {"a": {"preference": 1, "formatter_kwargs": {"compress_level": 0}}, "b": {"min_area_px2": lo, "max_area_px2": hi, "preference": 9, "formatter_kwargs": {"compress_level": 9}}}, "minimum_unit_size_bytes": 0}},
                "default_format": "png", "maximum_resolution": 1, "resolution_step": 1}
    image = I.make_image(5, 32, 32, "RGB", "PNG")
    s = S.Site(tmp, {"src/public/a.png": image, "src/public/l.images.json": json.dumps({"x": {"path": "/a.png", "width": 32, "height": 32}})}, images=settings(100, 1031))
    try:
        s.build()
        before = s.served("l.images.js")
        s.config(images=settings(101, 1000))
        s.rm("out")
        s.build()
    except P.BuildFailed as e:
        R.fail("build-fails", f"a build of a valid project fails: {e}")
        return
    R.count("collisions")
    now = json.loads(re.fullmatch(r"export default (.*);\s*", s.served("l.images.js").decode(), re.S).group(1))["x"]["target"]["outputs"]["png"][0]["choice"]
    R.expect(b'"choice": "b"' in before or b'"choice":"b"' in before, "collision-first", "the first settings use the export b")
    R.expect(now == "a", "settings-hash-collision", "export b is limited to 100 up to 1031 px2, then to 101 up to 1000 px2, and the project is built again without the output folder: it is still used for an image of 1024 px2")


class Work(S.Site):
    lost = False     # someone removed the artifacts since the last full build

    def rm(self, p):
        import shutil
        shutil.rmtree(self.path(p), ignore_errors=True)

    def interrupt(self, x):
        """Leaves a slot as a build leaves it which was stopped before the export."""
        n = 0
        for d, dirs, fs in os.walk(self.path("artifacts")):
            if "metadata.json" in fs and "placeholder.json" in fs and x < .7:
                os.remove(os.path.join(d, "metadata.json"))
                n += 1
        self.rm("out")
        self.lost = False
        return n




# ---------------------------------------------------------------- reservations

def reserve(R, case, tmp):
    from vanillaplusjs.build.build_context import BuildContext
    from vanillaplusjs.build.handlers.image_glue import scan_file
    from vanillaplusjs.build.html.manips.images.settings import load_image_settings
    r = random.Random(case["seed"])
    base = ["img/a.png", "img/a.jpg", "b.png"]
    files = {"src/public/" + p: I.make_image(i, 24, 24, "RGB", I.EXT[p.rsplit(".", 1)[1]]) for i, p in enumerate(base)}
    s = Work(tmp, files, images=SETTINGS[2])
    given = {}   # request -> slot
    for rd in range(case["rounds"]):
        if rd and r.random() < .4:
            p = r.choice(base)
            s.put({"src/public/" + p: I.make_image(r.randrange(1 << 60), 24, 24, "RGB", I.EXT[p.rsplit(".", 1)[1]])})
            given = {q: v for q, v in given.items() if q[0] != p}
        procs = r.choice([4, 8, 16])
        pool = [(r.choice(base), r.choice([12, 12, 6, 20]), r.choice([{}, {}, {"pre_top_crop": 4}, {"crop_left_percentage": 0}])) for _ in range(r.choice([1, 2, 6]))]
        jobs = [[r.choice(pool) for _ in range(r.choice([1, 1, 3]))] for _ in range(procs)]
        seeds = [r.randrange(1 << 60) for _ in range(procs)]
        start = os.path.join(tmp, f"start{rd}")
        outs = os.path.join(tmp, f"r{rd}")
        os.mkdir(outs)
        pids = []
        for i in range(procs):
            s.put({f"src/public/j{i}-{k}.images.json": json.dumps({"n": {"path": "/" + p, "width": w, "height": w, "crop_arguments": crop}}) for k, (p, w, crop) in enumerate(jobs[i])})
        for i in range(procs):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    rr = random.Random(seeds[i])
                    art = os.path.join(s.folder, "artifacts")
                    trace = []

                    def hook(ev, args):
                        if ev in ("open", "os.scandir", "os.mkdir") and isinstance(args[0], str) and args[0].startswith(s.folder):
                            trace.append((time.monotonic_ns(), os.path.basename(args[0])))
                            if rr.random() < .25:
                                time.sleep(rr.choice([0, .0005, .002, .006]))
                    ctx = BuildContext(s.folder, dev=False, symlinks=False)
                    ctx.image_settings = load_image_settings(SETTINGS[2])
                    while not os.path.exists(start):
                        time.sleep(.0005)
                    sys.addaudithook(hook)
                    res = []
                    for k in range(len(jobs[i])):
                        c = scan_file(ctx, f"src/public/j{i}-{k}.images.json")
                        m = [x for x in c.produces if x.endswith("metadata.json")]
                        res.append(m[0].rsplit("/", 1)[0])
                    with open(os.path.join(outs, f"{i}.json"), "w") as f:
                        json.dump([res, trace], f)
                    code = 0
                except BaseException as e:
                    with open(os.path.join(outs, f"{i}.err"), "w") as f:
                        f.write(f"{type(e).__name__}: {e}")
                finally:
                    os._exit(code)
            pids.append(pid)
        time.sleep(.01)
        open(start, "w").close()
        for pid in pids:
            os.waitpid(pid, 0)
        order = []
        by_slot = {v: q for q, v in given.items()}
        for i in range(procs):
            e = os.path.join(outs, f"{i}.err")
            if os.path.exists(e):
                R.fail("reserve-fails", f"a reservation fails beside {procs - 1} others: {open(e).read()}", jobs=jobs)
                continue
            res, trace = json.load(open(os.path.join(outs, f"{i}.json")))
            order += [(t, i, n) for t, n in trace]
            for (p, w, crop), slot in zip(jobs[i], res):
                q = (p, w, tuple(sorted(crop.items())))
                old = given.setdefault(q, slot)
                R.expect(old == slot, "two-slots", f"{q} got {old} and {slot}", jobs=jobs, round=rd)
                oq = by_slot.setdefault(slot, q)
                R.expect(oq == q, "shared-slot", f"{slot} was given to {oq} and {q}", jobs=jobs, round=rd)
                R.count("reservations")
        if R.violations:
            return
        order.sort()
        R.key("interleaving", [(i, n) for _, i, n in order])
        R.count("accesses", len(order))
        R.count("rounds")


def run_case(case, tmp):
    R = CaseResult()
    S.Site = Work
    {"history": history, "reserve": reserve, "fields": fields, "collision": collision}[case["kind"]](R, case, tmp)
    return R


def finalize(results, tier, counters):
    need = {"builds": 150, "uses": 600, "outputs": 800, "shared requests": 50, "reservations": 300, "rounds": 50, "op content": 10, "op settings": 10, "op artifacts": 3, "op out": 3, "collisions": 1, "field bound": 5, "field kwarg": 5, "field preference": 5, "field unit": 5}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
