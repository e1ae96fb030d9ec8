"""Random operation histories on FileDependencyGraph, each answer and each state compared with a plain set of edges."""
import random, collections
from common import CaseResult

PROPERTY = "C10"
TIMEOUT = 100
TECHNIQUE = "runtime monitoring: model-based trace checking of graph operations against a set-of-edges oracle, including rejected operations"
RULE = ("random histories of add/remove/set_children (valid, unknown, duplicate, self, cyclic arguments) over 2-40 files; after each operation the parents and children "
        "views, membership, signatures and sampled direct/nested relationships are compared with the model; distinct by (operation, outcome, number of nodes, edges bucket, cyclic?)")


def cases(tier, rng):
    n, ops = (320, 120) if tier == "quick" else (6000, 250)
    res = [{"seed": rng.randrange(1 << 60), "ops": ops, "names": rng.choice([2, 3, 4, 6, 10, 20, 40]), "cyc": rng.choice([0, 0, .3, .8])} for _ in range(n)]
    res.append({"seed": 1, "ops": 0, "names": 0, "cyc": 0, "big": 2500})
    return res


class Model:
    def __init__(self):
        self.sig, self.ch = {}, {}

    def parents(self, a):
        return {p for p in self.ch if a in self.ch[p]}

    def reach(self, a):
        """everything a depends on through at least one edge"""
        seen, todo = set(), [a]
        while todo:
            for c in self.ch[todo.pop()]:
                if c not in seen:
                    seen.add(c)
                    todo.append(c)
        return seen

    def cyclic(self):
        return any(a in self.reach(a) for a in self.ch)


def views(G, names):
    """The observable state of a graph."""
    st = {}
    for a in names:
        if a in G:
            st[a] = (tuple(G.get_parents(a)), tuple(G.get_children(a)))
    return st


def rel(child, parent):
    return "cyclic" if child and parent else "parent" if child else "child" if parent else "unrelated"


def call(f, *a, **k):
    try:
        return True, f(*a, **k)
    except ValueError as e:
        return False, e


def run_case(case, tmp):
    from vanillaplusjs.build.graph import FileDependencyGraph, FileRelationship as FR
    R = CaseResult()
    if case.get("big"):
        return big(R, case["big"])
    rng = random.Random(case["seed"])
    names = [f"src/public/{'d/' * (i % 3)}f{i}.{'js css html'.split()[i % 3]}" for i in range(case["names"])]
    ghost = "src/public/never.js"
    G, M = FileDependencyGraph(), Model()
    log = []

    def pick(n, dup=True):
        pool = list(M.ch)
        k = min(n, len(pool))
        c = rng.sample(pool, k)
        if dup and c and rng.random() < .12:
            c.append(rng.choice(c))
        return c

    def sig():
        return rng.randrange(1 << 40), rng.choice([rng.random() * 2e9, float(rng.randrange(1 << 31))]), rng.randrange(1 << 60)

    for step in range(case["ops"]):
        op = rng.choice(["add", "add", "set", "set", "set", "remove", "bad"])
        before = views(G, names)
        should, why = True, ""
        if op == "bad":
            kind = rng.choice(["add-existing", "add-unknown", "set-unknown", "set-ghost", "remove-unknown", "add-self"])
            free = [x for x in names if x not in M.ch]
            if kind == "add-existing" and M.ch:
                args = ("add_file", (rng.choice(list(M.ch)), *sig(), pick(2)), {})
            elif kind == "add-unknown" and free:
                args = ("add_file", (rng.choice(free), *sig(), pick(2) + [ghost]), {})
            elif kind == "add-self" and free:
                x = rng.choice(free)
                args = ("add_file", (x, *sig(), pick(2) + [x]), {})
            elif kind == "set-unknown" and M.ch:
                args = ("set_children", (rng.choice(list(M.ch)), pick(3) + [ghost]), {"prevent_cycles": rng.random() < .5})
            elif kind == "set-ghost":
                args = ("set_children", (ghost, pick(2)), {})
            else:
                args = ("remove_file", (ghost,), {"clear_parents": True, "clear_children": True})
            should, why = False, kind
        elif op == "add":
            free = [x for x in names if x not in M.ch]
            if not free:
                continue
            x, s, c = rng.choice(free), sig(), pick(rng.choice([0, 1, 2, 5]))
            args = ("add_file", (x, *s) + ((c,) if c or rng.random() < .5 else ()), {})

            def apply(x=x, s=s, c=c):
                M.sig[x], M.ch[x] = s, set(c)
        elif op == "remove":
            if not M.ch or rng.random() < .5:
                continue
            x = rng.choice(list(M.ch))
            cp, cc = rng.random() < .6, rng.random() < .6
            args = ("remove_file", (x,), {"clear_parents": cp, "clear_children": cc})
            if (M.parents(x) and not cp) or (M.ch[x] and not cc):
                should, why = False, "has edges"

            def apply(x=x):
                del M.ch[x], M.sig[x]
                for p in M.ch:
                    M.ch[p].discard(x)
        else:
            if not M.ch:
                continue
            x, c = rng.choice(list(M.ch)), pick(rng.choice([0, 1, 1, 2, 3, 6]))
            prevent = rng.random() >= case["cyc"]
            args = ("set_children", (x, c), {} if prevent and rng.random() < .5 else {"prevent_cycles": prevent})
            if prevent and any(k == x or x in M.reach(k) for k in c):
                should, why = False, "cycle"

            def apply(x=x, c=c):
                M.ch[x] = set(c)
        fn, a, k = args
        log.append([fn, [repr(v) for v in a], k])
        done, res = call(getattr(G, fn), *a, **k)
        R.count("operations")
        R.count("accepted" if done else "rejected")
        R.expect(done == should, f"{fn}-accepted" if done else f"{fn}-rejected",
                 f"{fn}{a}{k}: {'accepted' if done else 'rejected'} but should be {'accepted' if should else 'rejected'} {why}: {res}", log=log[-12:])
        if done != should:
            return R
        if not done:
            R.expect(views(G, names) == before, "rejected-changed", f"rejected {fn}{a}{k} ({why}) changed the graph", log=log[-12:], before=repr(before), after=repr(views(G, names)))
        else:
            apply()
        nedges = sum(map(len, M.ch.values()))
        R.key(fn, done, why, len(M.ch), min(nedges, 12), case["cyc"] > 0)
        # views
        for x in names + [ghost]:
            R.expect((x in G) == (x in M.ch), "membership", f"{x} in graph is {x in G}, after {log[-1]}", log=log[-12:])
            if x in M.ch:
                R.expect(set(G.get_children(x)) == M.ch[x], "children", f"children of {x}: {G.get_children(x)} != {M.ch[x]} after {log[-1]}", log=log[-12:])
                R.expect(set(G.get_parents(x)) == M.parents(x), "parents", f"parents of {x}: {G.get_parents(x)} != {M.parents(x)} after {log[-1]}", log=log[-12:])
                R.expect(G.check_file(x, *M.sig[x]), "signature", f"signature of {x} lost after {log[-1]}")
                o = list(M.sig[x])
                i = rng.randrange(3)
                o[i] += 1
                R.expect(not G.check_file(x, *o), "signature-loose", f"check_file accepts a wrong signature of {x} (part {i})")
            else:
                R.expect(not G.check_file(x, 1, 1.0, 1) and not call(G.get_children, x)[0] and not call(G.get_parents, x)[0], "unknown-file", f"{x} is unknown but answered")
        pool = list(M.ch)
        pairs = [(a, b) for a in pool for b in pool]
        for a, b in (pairs if len(pairs) <= 16 else rng.sample(pairs, 16)):
            d, n = call(G.check_direct_relationship, a, b), call(G.check_nested_relationship, a, b)
            if a == b:
                R.expect(not d[0] and not n[0], "self-relation", f"relation of {a} with itself answered")
                continue
            wd = getattr(FR, rel(b in M.ch[a], a in M.ch[b]))
            wn = getattr(FR, rel(b in M.reach(a), a in M.reach(b)))
            R.count(f"nested_{wn}")
            R.expect(d == (True, wd), "direct-relation", f"direct relation of {a}, {b}: {d[1]} should be {wd}", log=log[-12:], edges=repr(M.ch))
            R.expect(n == (True, wn), "nested-relation", f"nested relation of {a}, {b}: {n[1]} should be {wn}", log=log[-12:], edges=repr(M.ch))
        if pool:
            x = rng.choice(pool)
            for f in (G.check_direct_relationship, G.check_nested_relationship):
                R.expect(not call(f, x, ghost)[0] and not call(f, ghost, x)[0], "unknown-relation", f"{f.__name__} answers for an unknown file")
    R.sample({"log": log[-6:], "edges": {k: sorted(v) for k, v in list(M.ch.items())[:6]}})
    if M.cyclic():
        R.count("ended_cyclic")
    return R


def big(R, n):
    """Long chains: bounded stack, right answers."""
    from vanillaplusjs.build.graph import FileDependencyGraph, FileRelationship as FR
    G = FileDependencyGraph()
    for i in range(n):
        G.add_file(f"f{i}", i, float(i), i, [f"f{i-1}"] if i else [])
    R.expect(G.check_nested_relationship(f"f{n-1}", "f0") == FR.parent, "nested-relation", "chain end to start")
    R.expect(G.check_nested_relationship("f0", f"f{n-1}") == FR.child, "nested-relation", "chain start to end")
    ok, e = call(G.set_children, "f0", [f"f{n-1}"])
    R.expect(not ok, "set_children-accepted", "closing a long cycle accepted")
    G.set_children("f0", [f"f{n-1}"], prevent_cycles=False)
    R.expect(G.check_nested_relationship("f0", "f7") == FR.cyclic, "nested-relation", "long cycle")
    G.remove_file("f9", clear_parents=True, clear_children=True)
    R.expect(G.check_nested_relationship("f8", "f10") == FR.parent and G.get_parents("f8") == [] and G.get_children("f10") == [], "parents", "after removal from a long cycle")
    R.key("big", n)
    return R


def finalize(results, tier, counters):
    need = {"operations": 10000, "rejected": 1500, "nested_cyclic": 300, "nested_parent": 1000, "nested_child": 1000, "nested_unrelated": 1000}
    return [f"too little observed: {k}={counters.get(k, 0)} (need {v})" for k, v in need.items() if counters.get(k, 0) < v]
