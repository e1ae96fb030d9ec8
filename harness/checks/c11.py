"""Random graphs are stored, loaded, compared and perturbed."""
import io, os, random
from common import CaseResult

PROPERTY = "C11"
TIMEOUT = 100
TECHNIQUE = "runtime monitoring: round-trip and equality oracle over stored and loaded graphs, against the edge set the graph was made from"
RULE = ("random graphs (0-60 files plus chains and stars of thousands, hostile file names, extreme signatures, cyclic or not) are stored, loaded, stored again; the same graph is made in other "
        "orders (must be equal) and with one signature, edge or file changed (must differ); distinct by (shape, size bucket, perturbation, name kind)")

NAMES = ["plain", "unicode", "quotes", "control", "surrogate", "proto", "spaces", "long"]


def cases(tier, rng):
    n = 900 if tier == "quick" else 15000
    res = [{"seed": rng.randrange(1 << 60), "n": rng.choice([0, 1, 2, 3, 5, 8, 15, 30, 60]), "cyc": rng.random() < .3, "names": rng.choice(NAMES)} for _ in range(n)]
    res += [{"seed": rng.randrange(1 << 60), "n": k, "shape": s, "cyc": False, "names": "plain"} for k, s in [(3000, "chain"), (3000, "star"), (1500, "deep"), (4000, "cycle")]]
    return res


def name(kind, i, rng):
    base = {"plain": "src/public/a{}.js", "unicode": "src/public/é\u4e2d\U0001f600{}.js", "quotes": 'src/public/"\'\\{}.js', "control": "src/public/\n\t\x00\x7f\u2028{}.js",
            "surrogate": "src/public/\udc80\udcff{}.js", "proto": "{}__proto__", "spaces": "src/public/ a  {} .js ", "long": "src/" + "x" * 300 + "{}"}[kind]
    return base.format(i)


def sig(rng):
    return (rng.choice([0, 1, 2 ** 31, 2 ** 53 + 1, rng.randrange(1 << 62)]),
            rng.choice([0.0, 1700000000.1234567, 0.1 + 0.2, 1e-7, 2.0 ** 31 + 2 ** -20, rng.random() * 2e9, 1700000000, 9007199254740993.0, -1.5]),
            rng.choice([0, 1, 2 ** 64 - 1, rng.randrange(1 << 63)]))


def spec(case, rng):
    n = case["n"]
    names = [name(case["names"], i, rng) for i in range(n)]
    sigs = {x: sig(rng) for x in names}
    edges = set()
    shape = case.get("shape", "random")
    if shape == "chain":
        edges = {(names[i], names[i - 1]) for i in range(1, n)}
    elif shape == "cycle":
        edges = {(names[i], names[i - 1]) for i in range(n)}
    elif shape == "star":
        edges = {(names[0], x) for x in names[1:]}
    elif shape == "deep":
        edges = {(names[i], names[i - d]) for i in range(n) for d in (1, 2, 5) if i >= d}
    elif n > 1:
        for _ in range(rng.choice([0, n // 2, n, 3 * n])):
            i, j = rng.sample(range(n), 2)
            if not case["cyc"] and i < j:
                i, j = j, i
            edges.add((names[i], names[j]))
    return names, sigs, edges


def make(names, sigs, edges, rng):
    from vanillaplusjs.build.graph import FileDependencyGraph
    G = FileDependencyGraph()
    for x in names:
        G.add_file(x, *sigs[x])
    ch = {}
    for a, b in edges:
        ch.setdefault(a, []).append(b)
    order = list(ch)
    rng.shuffle(order)
    for a in order:
        c = sorted(ch[a])
        rng.shuffle(c)
        G.set_children(a, c, prevent_cycles=False)
    return G


def dump(G, names):
    return {x: (G.nodes[x].filesize, G.nodes[x].mtime, G.nodes[x].inode, frozenset(G.get_parents(x)), frozenset(G.get_children(x))) for x in names if x in G}


def roundtrip(G, tmp, via_file):
    from vanillaplusjs.build.graph import FileDependencyGraph
    if via_file:
        p = os.path.join(tmp, "g.json")
        with open(p, "w") as f:
            G.store(f)
        with open(p) as f:
            H = FileDependencyGraph.load(f)
        return H, open(p).read()
    f = io.StringIO()
    G.store(f)
    f.seek(0)
    return FileDependencyGraph.load(f), f.getvalue()


def run_case(case, tmp):
    R = CaseResult()
    rng = random.Random(case["seed"])
    names, sigs, edges = spec(case, rng)
    shape = case.get("shape", "random")
    lab = (shape, min(len(names), 20), min(len(edges), 20), case["names"], case["cyc"])
    G = make(names, sigs, edges, rng)
    want = dump(G, names)
    H, text = roundtrip(G, tmp, rng.random() < .5)
    R.count("round_trips")
    R.count("edges", len(edges))
    R.expect(sorted(H.nodes) == sorted(names), "files-lost", f"files differ after load: {len(H.nodes)} of {len(names)}", case=repr(names[:5]))
    got = dump(H, names)
    R.expect(got == want, "content-lost", f"stored graph loads differently: {[(repr(x), want[x], got.get(x)) for x in names if want[x] != got.get(x)][:2]}")
    types = all(type(H.nodes[x].mtime) in (float, int) and H.nodes[x].path == x for x in names if x in H)
    R.expect(types, "content-lost", "loaded node has another path or type")
    R.expect(G == H and H == G and not (G != H), "loaded-differs", f"a loaded graph does not equal the stored one ({lab})")
    R.expect(G == G, "self-differs", "a graph does not equal itself")
    # the loaded graph is a working graph
    H2, _ = roundtrip(H, tmp, False)
    R.expect(H2 == G, "loaded-differs", "stored, loaded, stored, loaded graph differs")
    if edges:
        a, b = rng.choice(sorted(edges))
        R.expect(any(p is H.nodes[a] for p in H.nodes[b].parents), "loaded-identity", "the loaded graph's edges do not lead to its own nodes")
    R.key(lab, "round")
    # the same in another order
    on = list(names)
    rng.shuffle(on)
    O = make(on, sigs, edges, rng)
    R.expect(O == G and G == O, "order-differs", f"graphs with the same files, signatures and edges made in another order are unequal ({lab})",
             names=repr(names[:8]), edges=repr(sorted(edges)[:12]))
    R.key(lab, "order")
    # perturbations
    kinds = ["size", "mtime", "inode", "edge-add", "edge-drop", "file-add", "file-drop", "edge-flip", "edge-swap", "rename"]
    for kind in kinds if shape == "random" else ["mtime", "edge-drop"]:
        n2, s2, e2 = list(names), dict(sigs), set(edges)
        if kind in ("size", "mtime", "inode"):
            if not n2:
                continue
            x = rng.choice(n2)
            i = ["size", "mtime", "inode"].index(kind)
            s = list(s2[x])
            import math
            s[i] = math.nextafter(s[i], 1e300) if i == 1 else s[i] + 1
            s2[x] = tuple(s)
        elif kind == "edge-add":
            if len(n2) < 2:
                continue
            a, b = rng.sample(n2, 2)
            if (a, b) in e2:
                continue
            e2.add((a, b))
        elif kind in ("edge-drop", "edge-flip", "edge-swap"):
            if not e2:
                continue
            a, b = rng.choice(sorted(e2))
            e2.discard((a, b))
            if kind == "edge-flip":
                if (b, a) in e2:
                    continue
                e2.add((b, a))
            if kind == "edge-swap":
                free = [c for c in n2 if c != a and (a, c) not in edges and c != b]
                if not free:
                    continue
                e2.add((a, rng.choice(free)))
        elif kind == "file-add":
            x = name(case["names"], 99999, rng)
            n2.append(x)
            s2[x] = sig(rng)
        elif kind == "file-drop":
            lone = [x for x in n2 if not any(x in e for e in e2)]
            if not lone:
                continue
            x = rng.choice(lone)
            n2.remove(x)
        else:
            if not n2:
                continue
            x = rng.choice(n2)
            y = name(case["names"], 88888, rng)
            n2[n2.index(x)] = y
            s2[y] = s2[x]
            e2 = {(y if a == x else a, y if b == x else b) for a, b in e2}
        D = make(n2, s2, e2, rng)
        R.count("perturbed")
        R.expect(not (D == G) and not (G == D) and not (D == H), f"different-equal-{kind}", f"graphs differing in {kind} compare equal ({lab})", names=repr(names[:8]), edges=repr(sorted(edges)[:8]))
        R.key(lab, kind)
    R.expect(not (G == None) and not (G == 3), "foreign-equal", "a graph equals something which is not a graph")  # noqa
    try:
        G.store(io.StringIO(), format="xml")
        R.fail("format", "unknown format accepted")
    except ValueError:
        pass
    R.sample({"case": case, "text": text[:300]})
    return R


def finalize(results, tier, counters):
    need = {"round_trips": 800, "edges": 5000, "perturbed": 4000}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
