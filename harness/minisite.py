"""Small projects made of given files, built by the real builder."""
import json, os, subprocess
import project as P

NODE_MODULES = "/opt/veriftools/node/node_modules"


class Site:
    def __init__(self, tmp, files=None, name="site", **cfg):
        self.folder = os.path.join(tmp, name)
        os.makedirs(os.path.join(self.folder, "src/public"))
        self.disk = P.Disk(self.folder)
        self.cfg = P.write_config(self.folder, None, **cfg)
        self.put(files or {})

    def path(self, p):
        return os.path.join(self.folder, p)

    def put(self, files, gone=()):
        for p in gone:
            os.remove(self.path(p))
        for p, t in files.items():
            b = t.encode("utf-8") if isinstance(t, str) else t
            fp = self.path(p)
            os.makedirs(os.path.dirname(fp), exist_ok=True)
            with open(fp, "wb") as f:
                f.write(b)
            self.disk._stamp(fp)

    def config(self, **cfg):
        self.cfg = P.write_config(self.folder, None, **cfg)

    def build(self, dev=False, symlinks=False, workers=None):
        P.build(self.folder, dev=dev, symlinks=symlinks, workers=workers)

    def served(self, p):
        with open(self.path("out/www/" + p), "rb") as f:
            return f.read()

    def out(self):
        return P.tree(self.path("out/www"))

    def clean(self, tmp, **k):
        d = P.clean_build_tree(self.folder, tmp, **k)
        return P.tree(os.path.join(d, "out/www"))

    def graph(self, which="dependency_graph"):
        for p in ("out/%s.json" % which, "out/%ss.json" % which):
            if os.path.exists(self.path(p)):
                return json.load(open(self.path(p)))
        raise FileNotFoundError(which)


def node(script, data, timeout=100):
    """Runs one of our node scripts on JSON input."""
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "node", script)
    p = subprocess.run(["node", here], input=json.dumps(data).encode("utf-8", "surrogatepass"), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=timeout, env={**os.environ, "VPJS_NODE_MODULES": NODE_MODULES})
    if p.returncode:
        raise RuntimeError(f"node {script}: {p.stderr.decode()[-2000:]}")
    return json.loads(p.stdout)


def corpus(suffixes, exclude=(), min_size=1, max_size=60000):
    """Real files of other packages installed here, as realistic inputs."""
    res = []
    for root in (NODE_MODULES,):
        for d, dirs, fs in os.walk(root):
            dirs.sort()
            for f in sorted(fs):
                if f.endswith(suffixes):
                    p = os.path.join(d, f)
                    try:
                        if min_size <= os.path.getsize(p) <= max_size and not any(x in p for x in exclude):
                            res.append(p)
                    except OSError:
                        pass
    return res
