"""Histories for nested collections."""
from maps import Graph, points, rng_for
from core import tier

# kind: (levels of maps, leaf, codec, rbtree levels)
NKINDS = {
    "map-map": (2, "val", True, ()), "map-seq": (1, "seq", True, ()), "map-map-seq": (2, "seq", True, ()),
    "map-map-map": (3, "val", True, ()), "rb-rb": (2, "val", False, (0, 1)), "rb-map": (2, "val", False, (0,)),
    "rb-seq": (1, "seq", False, (0,)), "rb-map-seq": (2, "seq", False, (0,)), "rb-rb-rb": (3, "val", False, (0, 1, 2)),
}


def new_n(kt):
    lv, leaf, _c, _r = NKINDS[kt]
    return {"op": "new", "mach": "nested", "kt": kt, "levels": lv, "leaf": leaf}


class NMirror:
    """The shape of the contents, to pick applicable operations."""

    def __init__(self, kt):
        self.levels, self.leaf, _c, self.rb = NKINDS[kt]
        self.c = {}

    def at(self, path):
        c = self.c
        for k in path:
            if not isinstance(c, dict) or k not in c:
                return None
            c = c[k]
        return c

    def apply(self, o):
        c = self.c
        for d, k in enumerate(o["path"]):
            if k not in c:
                if not o["make"]:
                    return o
                c[k] = {} if d + 1 < self.levels else []
            c = c[k]
        op = o["op"]

        def val():
            return self.build(o["items"], len(o["path"]) + 2) if "items" in o else o["v"]
        if op == "ins" or op in ("gmw", "mod") and o["k"] in c:
            c[o["k"]] = val()
        elif op == "rem":
            c.pop(o["k"], None)
        elif op in ("clear", "sclear"):
            c.clear()
        elif op == "adeep":
            c.setdefault(o["k"], []).append(o["v"])
        elif op == "app":
            c.append(o["v"])
        elif op == "ext":
            c.extend(o["items"])
        return o

    def build(self, items, d):
        if d < self.levels:
            return {k: self.build(x, d + 1) for k, x in items}
        if d == self.levels and self.leaf == "val":
            return dict(map(tuple, items))
        if d == self.levels:
            return {k: list(x) for k, x in items}
        return list(items)


def rand_items(mir, d, n, rng, nv=9):
    """Contents of a collection at level d (0: outermost)."""
    if d >= mir.levels:
        return [rng.randint(1, nv) for _ in range(rng.randint(0, 4))]
    out = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        k = 2 * rng.randint(1, n)
        if d + 1 < mir.levels or mir.leaf == "seq":
            out.append([k, rand_items(mir, d + 1, n, rng, nv)])
        else:
            out.append([k, rng.randint(1, nv)])
    return out


def pick(c, n, rng, bias=.75):
    if isinstance(c, dict) and c and rng.random() < bias:
        return rng.choice(sorted(c))
    return 2 * rng.randint(1, n)


def rand_change(kt, mir, n, rng, nv=9):
    depth = rng.choice(range(mir.levels + (1 if mir.leaf == "seq" else 0)))
    if rng.random() < .5:
        depth = mir.levels - (0 if mir.leaf == "seq" and rng.random() < .5 else 1)
    path, via, c = [], [], mir.c
    make = rng.random() < .35
    for d in range(depth):
        k = pick(c, n, rng)
        path.append(k)
        c = c.get(k) if isinstance(c, dict) else None
        rb = d in mir.rb
        via.append(rng.choice(["ent", "egm", "eoi", "eam"] + (["ins"] if rb else [])) if make else
                   rng.choice(["gm", "gm", "ent", "egm", "eam"] + (["mod", "mod"] if rb else [])))
    o = {"path": path, "via": via, "make": make}
    if depth == mir.levels:                 # inside a sequence
        o["op"] = rng.choice(["app", "app", "app", "ext", "sclear"])
        if o["op"] == "app":
            o["v"] = rng.randint(1, nv)
        elif o["op"] == "ext":
            o["items"] = [rng.randint(1, nv) for _ in range(rng.randint(0, 3))]
        return o
    o["op"] = rng.choice(["ins"] * 4 + ["rem"] * 2 + ["gmw", "mod"] + (["clear"] if rng.random() < .2 else []))
    if mir.leaf == "seq" and depth == mir.levels - 1 and depth not in mir.rb and rng.random() < .6:
        o["op"] = rng.choice(["adeep"] * 3 + ["ldeep"])
    if o["op"] != "clear":
        o["k"] = pick(c, n, rng, .5)
    if o["op"] in ("ins", "gmw", "mod"):
        if depth == mir.levels - 1 and mir.leaf == "val":
            o["v"] = rng.randint(1, nv)
        else:
            o["items"] = rand_items(mir, depth + 1, n, rng, nv)
    if o["op"] == "adeep":
        o["v"] = rng.randint(1, nv)
    return o


def rand_sel(mir, c, d, n, rng, allow_pruned=True):
    """A selection for the collection c at level d."""
    if d >= mir.levels:
        return {"t": rng.choice(["full", "pruned"])}
    t = rng.choice(["w"] * 6 + ["full", "keys", "kr", "vr"] + (["pruned"] if allow_pruned else []))
    if t in ("kr", "vr"):
        a = rng.randint(1, 2 * n + 1)
        return {"t": t, "a": a, "b": rng.randint(a, 2 * n + 1)}
    if t == "w":
        k = pick(c, n, rng) if rng.random() < .85 else rng.randint(1, 2 * n + 1)
        s = {"t": "w", "k": k}
        if rng.random() < .85:
            s["in"] = rand_sel(mir, c.get(k) if isinstance(c, dict) else None, d + 1, n, rng)
        return s
    return {"t": t}


def all_sels(mir, n1, n2):
    """Every nested witness for two levels."""
    out = []
    for k in points(n1):
        if mir.levels > 1:
            out += [{"t": "w", "k": k, "in": {"t": "w", "k": j}} for j in points(n2)]
            out += [{"t": "w", "k": k, "in": {"t": t, "a": a, "b": b}} for t in ("kr", "vr")
                    for a in points(n2) for b in range(a, 2 * n2 + 2)]
            out += [{"t": "w", "k": k, "in": {"t": "keys"}}]
        out += [{"t": "w", "k": k}, {"t": "w", "k": k, "in": {"t": "full"}}, {"t": "w", "k": k, "in": {"t": "pruned"}}]
    return out


def nested_walks(rows, no, ni, rng, observe, kinds=("map-map", "rb-rb", "rb-map")):
    hs = []
    for i, walk in enumerate(Graph(rows, ".0").cover(rng, 120)):
        kt = kinds[i % len(kinds)]
        mir = NMirror(kt)
        h = [new_n(kt)]
        for (op, k, j, x), _t, first in walk:
            k, j, x = int(k), int(j), int(x)
            if op == "read":
                h += observe("read", mir, rng, first)
                continue
            o = {"path": [], "via": [], "make": False}
            if op == "oins":
                o.update(op="ins", k=k, items=[[j, 1]] if j else [])
            elif op == "orem":
                o.update(op="rem", k=k)
            else:
                rb = 0 in mir.rb
                o["path"] = [k]
                if op[0] == "m" and rb:
                    o["via"] = ["mod"]
                else:
                    o["via"] = [rng.choice(["gm", "ent", "egm", "eam"])]
                o["op"] = op[1:]
                if op[1:] != "clear":
                    o["k"] = j
                if op[1:] in ("ins", "gmw"):
                    o["v"] = x
            h.append(mir.apply(o))
            h += observe(o, mir, rng, first)
        hs.append(h)
    return hs


def nested_randoms(count, steps, rng, observe, kinds=None, sizes=(2, 3, 5, 8), codec=False):
    kinds = kinds or sorted(NKINDS)
    hs = []
    for i in range(count):
        kt = kinds[i % len(kinds)]
        mir = NMirror(kt)
        n = rng.choice(sizes)
        h = [new_n(kt)]
        for _ in range(steps):
            if codec and NKINDS[kt][2] and rng.random() < .08:
                h.append({"op": "reload", "codec": rng.choice(["cbor", "candid"])})
                h.append({"op": "dump"})
                h.append({"op": "root", "first": rng.random() < .5})
                continue
            o = rand_change(kt, mir, n, rng)
            h.append(mir.apply(o))
            h += observe(o, mir, rng, n)
        hs.append(h)
    return hs
