"""Projects with image lists are built over edits; the served modules are evaluated and judged against the lists and the served files."""
import base64, hashlib, json, os, random, re, shutil
from common import CaseResult
import imggen as I, minisite as S, project as P

PROPERTY = "C27"
TECHNIQUE = "runtime monitoring: real builds of random image lists over histories of edits; oracle: the served module evaluated by node, its outputs decoded and judged as in C24, bytes and times of placeholders and user files watched, version tags of importing scripts compared with the served module"
RULE = ("random lists (0 to 6 names of any characters, crops, sizes, forms of JSON) in several folders with random settings, placeholders enabled, disabled and already written by the user, importing modules and pages, started from another folder; lists asking for something impossible, edits of lists, images, placeholders, importing scripts, additions and removals of lists, removal of the output folder. "
        "Distinct by (operation, placeholder mode, number of names, imported or not, form)")
ASSUMPTIONS = ["no name is __proto__", "every listed image exists and is large enough", "names of images have an extension and no percent, number or question marks", "a list which is imported is not removed", "with placeholders disabled the user writes those which are imported"]
TIMEOUT = 240


def cases(tier, rng):
    q = tier == "quick"
    return [{"seed": rng.randrange(1 << 60), "steps": 4 if q else 8} for _ in range(72 if q else 600)]


NAMES = ["img1", "hero", "a b", "é", "\"q\"", "it's", "</script>", "0", "10", "2", "constructor", "toString", "a\\b", "line\nbreak", "\u2028", "😀", "", "*/", "${x}", "default", "x.y", "A", "a"]
USER = ["// my own\nexport default {};\n", "", "/* types */ export default {\"old\": 1}\n", "throw new Error('never served');\n"]


class Site:
    def __init__(self, r):
        self.r, self.n = r, 0
        self.images, self.lists, self.scripts, self.user = {}, {}, {}, {}
        self.broken = {}
        self.pending = []     # lists whose script exists, but which do not
        for i in range(r.choice([1, 2, 3])):
            e = r.choice(sorted(I.EXT))
            p = r.choice(["", "img/", "img/a/", "é/"]) + r.choice(["photo", "a.b", "with space", "x-1"]) + f"{i}.{e}"
            self.images[p] = None
            self.change(p)
        for _ in range(r.choice([1, 2, 3])):
            self.add_list()
        for _ in range(r.choice([0, 1, 2])):
            self.add_script()

    def change(self, p):
        r = self.r
        f = I.EXT[p.rsplit(".", 1)[1]]
        w, h = self.images[p][1:3] if self.images[p] else (r.choice([16, 33, 64, 100]), r.choice([16, 33, 64, 100]))
        mode = r.choice(I.MODES[f])
        w, h = w + r.choice([0, 0, 9]), h + r.choice([0, 0, 9])
        self.images[p] = (I.make_image(r.randrange(1 << 60), w, h, mode, f), w, h, mode)

    def fill(self):
        r = self.r
        res = {}
        for n in r.sample(NAMES, r.choice([0, 1, 1, 2, 3, 6])):
            p = r.choice(sorted(self.images))
            c = I.make_command(r, p, *self.images[p][1:3])
            res[n] = c
        return res

    def add_list(self):
        r = self.r
        self.n += 1
        p = r.choice(["", "js/", "js/deep/", "é/", "img/"]) + r.choice(["admin", "a.b", "x-y", "images"]) + f"{self.n}.images.json"
        self.lists[p] = [self.fill(), r.randrange(1 << 30)]
        if r.random() < .3:
            self.user[p[:-4] + "js"] = r.choice(USER)
        return p

    def add_script(self, importable=None):
        r = self.r
        self.n += 1
        p = r.choice(["", "js/", "lib/"]) + f"s{self.n}" + r.choice([".js", ".html"])
        self.scripts[p] = [r.sample(sorted(self.lists), r.randrange(1, len(self.lists) + 1)), r.randrange(999)]

    def imported(self):
        return {l for s in self.scripts.values() for l in s[0]}

    def break_list(self, p):
        """One name asks for something that is not possible."""
        r = self.r
        i = r.choice(sorted(self.images))
        _, w, h, _ = self.images[i]
        ok = {"path": "/" + i, "width": 4, "height": 4}
        bad = r.choice([
            1, "x", None, [], {}, {"path": "/" + i}, {"width": 4, "height": 4}, {**ok, "path": 5}, {**ok, "path": i}, {**ok, "path": "/nowhere.png"},
            {**ok, "width": w + 1}, {**ok, "height": h + 1}, {**ok, "width": 0}, {**ok, "height": -3}, {**ok, "width": "4"}, {**ok, "height": 4.5}, {**ok, "height": None},
            {**ok, "crop_style": "contain"}, {**ok, "crop_arguments": []}, {**ok, "crop_arguments": {"left": 1}}, {**ok, "crop_arguments": {"pre_top_crop": -1}},
            {**ok, "crop_arguments": {"pre_left_crop": w - 3}}, {**ok, "crop_arguments": {"pre_top_crop": h // 2, "pre_bottom_crop": h - h // 2 - 1}},
            {**ok, "crop_arguments": {"crop_left_percentage": 1.5}}, {**ok, "crop_arguments": {"crop_top_percentage": -.1}}])
        d = {n: c.listed(r) for n, c in self.lists[p][0].items()}
        d[r.choice(["zz", "0", "img1"])] = bad
        self.broken[p] = json.dumps(r.choice([d, d, d, [], 5, [d], "x"]) if r.random() < .2 else d)

    def text(self, p):
        if p in self.broken:
            return self.broken[p]
        cs, look = self.lists[p]
        r = random.Random(look)
        d = {n: c.listed(r) for n, c in cs.items()}
        return json.dumps(d, indent=r.choice([None, 2, "\t"]), ensure_ascii=r.random() < .5, separators=r.choice([None, (",", ":")])) + r.choice(["", "\n"])

    def files(self):
        res = {"src/public/" + p: v[0] for p, v in self.images.items()}
        res.update({"src/public/" + p: self.text(p) for p in self.lists})
        res.update({"src/public/" + p: t for p, t in self.user.items()})
        for p, (ls, k) in self.scripts.items():
            def spec(l):
                t = "/" + l[:-4] + "js"
                if k % 2 and p.endswith(".js"):
                    q = os.path.relpath(t[1:], os.path.dirname(p) or ".")
                    return q if q.startswith("../") else "./" + q
                return t
            body = "".join(f'import i{n} from "{spec(l)}";\n' for n, l in enumerate(ls)) + f"console.log({k});\n"
            res["src/public/" + p] = body if p.endswith(".js") else f'<!DOCTYPE html><html><head><title>t</title></head><body><script type="module">{body}</script></body></html>'
        return res


def judge(R, s, site, settings, label, auto):
    J = I.Judge(R, I.reader(s.folder), settings)
    got, texts = [], []
    for p in sorted(site.lists):
        q = p[:-4] + "js"
        if p in site.broken:
            R.expect(not os.path.lexists(s.path("out/www/" + q)) and not os.path.lexists(s.path("out/www/" + q + ".hash")), "invalid-served", f"{label}: there is a {q} for an invalid list", list=site.text(p))
            R.count("invalid")
            continue
        try:
            texts.append(s.served(q).decode("utf-8"))
            got.append(p)
        except FileNotFoundError:
            R.fail("not-served", f"{label}: there is no {q}", list=site.text(p))
    for p, t, m in zip(got, texts, S.node("module.js", {"items": texts})):
        where = f"{label}: {p}"
        cs = site.lists[p][0]
        if not R.expect(m["ok"], "not-a-module", f"{where}: {m.get('error')}", text=t[:500]):
            continue
        R.expect(m["names"] == ["default"], "exports", f"{where}: exports {m['names']}")
        v = m["value"]
        if not R.expect(isinstance(v, dict) and m["proto"] and set(v) == set(cs), "names", f"{where}: the names are {sorted(v) if isinstance(v, dict) else v}, listed are {sorted(cs)}"):
            continue
        R.count("lists")
        for n, c in cs.items():
            try:
                st = v[n]["target"]["settings"]
                outs = v[n]["target"]["outputs"]
                R.expect(st == {"width": c.w, "height": c.h, "crop": "cover", "crop_settings": c.full_crop()}, "settings", f"{where}: {n!r} has the settings {st}, listed is {c}")
                listed = {f: [(o["url"], o["width"], o["height"], o["choice"]) for o in l] for f, l in outs.items()}
            except (KeyError, TypeError) as e:
                R.fail("form", f"{where}: {n!r} is {v[n]}")
                continue
            R.expect(any((o[1], o[2]) == (c.w, c.h) for o in listed.get(settings["default_format"], [])), "requested-size", f"{where}: {n!r} has no {c.w}x{c.h} as {settings['default_format']}")
            J.all(site.images[c.path][0], c, listed, f"{where} {n!r}")
            R.count("names")
    # the version tags of what imports them
    for p, (ls, _) in site.scripts.items():
        t = s.served(p).decode("utf-8")
        if p.endswith(".html"):
            m = re.search(r'src="([^"?]*)', t)
            t = s.served(m.group(1).lstrip("/")).decode("utf-8") if m else t
        for l in ls:
            q = "/" + l[:-4] + "js"
            h = base64.urlsafe_b64encode(hashlib.sha256(s.served(q[1:])).digest()).decode()
            tags = [re.sub(r"%([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), x) for x in re.findall(r"images\.js\?v=([A-Za-z0-9_\-=%]+)", t)]
            R.expect(h in tags, "stale-import", f"{label}: {p} imports {q} with tags {tags}, its hash is {h}", text=t[:600])
            R.count("imports")


def run_case(case, tmp):
    R = CaseResult()
    r = random.Random(case["seed"])
    settings = I.make_settings(r, r.choice([100, 400, 2500]), most=2)
    auto = r.random() < .7
    site = Site(r)
    s = S.Site(tmp, {}, images=settings, auto_generate_images_js_placeholders=auto)
    if not auto:
        # the name of what is imported has to exist
        for p in site.imported():
            site.user.setdefault(p[:-4] + "js", r.choice(USER))
    for p in sorted(set(site.lists) - site.imported()):
        if r.random() < .3:
            site.break_list(p)
    s.put(site.files())
    where = r.choice(["abs", "abs", "rel", "other"])
    if where == "rel":
        os.chdir(tmp)
        s.folder = "site"
    elif where == "other":
        # another project is the working directory
        other = os.path.join(tmp, "other")
        os.makedirs(os.path.join(other, "src/public"))
        for p in site.lists:
            q = os.path.join(other, "src/public", p[:-4] + "js")
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, "w").close()
        os.chdir(other)
    R.sample({"auto": auto, "settings": settings, "lists": {p: site.text(p) for p in site.lists}, "scripts": site.scripts, "user": site.user})
    log, op = [], "first"
    plan = r.choice([[], [], [], ["delete-user"], ["delete-user", "image"], ["delete-placeholder"], ["early", "late", "use", "relist"], ["early", "late", "use", "relist"], ["remove", "late", "use", "relist"]])
    if case["steps"] > 4:
        plan = [o for x in plan for o in ([x] if r.random() < .6 else [r.choice(["list", "image", "nothing"]), x])]
    latest = None
    made = {}     # placeholders the build has made: path -> stat
    try:
        for k in range(case["steps"] + 1):
            before = site.files()
            if k:
                site.broken.clear()
                op = plan.pop(0) if plan else r.choice(["list", "list", "list", "image", "image", "add", "remove", "script", "user", "delete-placeholder", "delete-user", "edit-placeholder", "break", "break", "out", "nothing", "auto"])
                if op == "early" or op == "late" and not site.pending:
                    op = "early"
                    site.n += 1
                    p = r.choice(["", "js/", "é/"]) + f"early{site.n}.images.json"
                    site.user[p[:-4] + "js"] = r.choice(USER)
                    site.pending.append(p)
                elif op == "late":
                    p = site.pending.pop(r.randrange(len(site.pending)))
                    site.lists[p] = [site.fill(), r.randrange(1 << 30)]
                    latest = p
                elif op == "use" and latest in site.lists:
                    site.n += 1
                    site.scripts[f"use{site.n}.js"] = [[latest], r.randrange(999)]
                elif op == "relist" and latest in site.lists:
                    site.lists[latest] = [site.fill(), r.randrange(1 << 30)]
                log.append(op)
                if op == "list":
                    p = r.choice(sorted(site.lists))
                    site.lists[p] = [site.fill(), r.randrange(1 << 30)]
                elif op == "image":
                    site.change(r.choice(sorted(site.images)))
                elif op == "add":
                    p = site.add_list()
                    site.add_script()
                    if not auto:
                        for p in site.imported():
                            if p[:-4] + "js" not in made:
                                site.user.setdefault(p[:-4] + "js", r.choice(USER))
                elif op == "remove":
                    free = sorted(set(site.lists) - site.imported())
                    if free and len(site.lists) > 1:
                        p = r.choice(free)
                        del site.lists[p]
                        gone = p[:-4] + "js"
                        if (gone in made or gone in site.user) and r.random() < .5:
                            site.user.setdefault(gone, open(s.path("src/public/" + gone)).read())
                            made.pop(gone, None)
                            site.pending.append(p)
                        elif gone in made or gone in site.user:
                            # what stands in its place is the user's now
                            site.user.pop(gone, None)
                            made.pop(gone, None)
                            os.remove(s.path("src/public/" + gone))
                            before.pop("src/public/" + gone, None)
                elif op == "script" and site.scripts:
                    p = r.choice(sorted(site.scripts))
                    site.scripts[p] = [r.sample(sorted(site.lists), r.randrange(1, len(site.lists) + 1)) if auto else site.scripts[p][0], r.randrange(999)]
                elif op == "break":
                    free = sorted(set(site.lists) - site.imported())
                    if free:
                        p = r.choice(free)
                        site.break_list(p)
                        R.key("break", site.broken[p][:60])
                elif op == "user" and site.user:
                    p = r.choice(sorted(site.user))
                    site.user[p] = r.choice(USER) + "//%d\n" % r.randrange(99)
                elif op == "delete-placeholder" and made and auto:
                    p = r.choice(sorted(made))
                    os.remove(s.path("src/public/" + p))
                    del made[p]
                    if p[:-2] + "json" in site.lists and r.random() < .5:
                        # it is made again with the list
                        site.lists[p[:-2] + "json"][1] = r.randrange(1 << 30)
                        site.lists[p[:-2] + "json"][0] = site.fill()
                elif op == "delete-user" and auto:
                    # a placeholder takes the place of the user's own script
                    own = [p for p in sorted(site.user) if p[:-2] + "json" in site.lists]
                    if own:
                        del site.user[r.choice(own)]
                        R.count("own_deleted")
                elif op == "edit-placeholder" and made:
                    p = r.choice(sorted(made))
                    site.user[p] = r.choice(USER) + "//mine %d\n" % r.randrange(99)
                    del made[p]
                elif op == "out":
                    shutil.rmtree(s.path("out"))
                elif op == "auto" and auto:
                    auto = False
                    s.config(images=settings, auto_generate_images_js_placeholders=False)
                now = site.files()
                s.put({p: t for p, t in now.items() if before.get(p) != t}, gone=[p for p in before if p not in now and os.path.exists(s.path(p))])
            mine = {p: (os.stat(s.path("src/public/" + p)).st_mtime_ns, open(s.path("src/public/" + p), "rb").read()) for p in list(site.user) + list(made)}
            s.build()
            R.count("builds")
            R.count("op " + op)
            label = f"build {k} ({op}, placeholders {'on' if auto else 'off'}, {where}) {log}"
            judge(R, s, site, settings, label, auto)
            for p, v in mine.items():
                fp = s.path("src/public/" + p)
                R.expect(os.path.exists(fp) and (os.stat(fp).st_mtime_ns, open(fp, "rb").read()) == v, "overwritten", f"{label}: {p} existed, and was changed")
                R.count("kept")
            for p in site.lists:
                q = p[:-4] + "js"
                there = os.path.exists(s.path("src/public/" + q))
                if q not in site.user and q not in made and p not in site.broken:
                    if auto:
                        if R.expect(there, "no-placeholder", f"{label}: no placeholder {q} next to the list"):
                            made[q] = True
                            R.count("placeholders")
                            t = open(s.path("src/public/" + q), "rb").read()
                            R.expect(t != s.served(q), "placeholder-served", f"{label}: {q} is served as it is")
                    else:
                        R.expect(not there or k and "auto" in log, "unwanted-placeholder", f"{label}: {q} was made although placeholders are disabled")
                R.key(op, auto, min(3, len(site.lists[p][0])), p in site.imported(), q in site.user, where)
            if R.violations:
                return R
    except P.BuildFailed as e:
        R.fail("build-fails", f"{log} placeholders {auto}, {where}: a build of a valid project fails: {e}", lists={p: site.text(p) for p in site.lists}, scripts=site.scripts, user=sorted(site.user))
    return R


def finalize(results, tier, counters):
    need = {"builds": 150, "lists": 200, "names": 300, "imports": 100, "placeholders": 30, "kept": 100, "exact": 500, "op list": 15, "op image": 10, "invalid": 8}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
