"""Histories for Map, RbTree and Entry."""
import random

from core import SEED, tier
from walks import Graph

# kinds with Serialize + CandidType
CODEC_KINDS = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "i32-neg", "i8-neg",
               "i64-neg", "u32-seq", "u64-seq", "String", "String-empty", "Vec<u8>", "Principal"]
PLAIN_KINDS = ["Box<[u8]>", "[u8;1]", "[u8;2]", "[u8;8]", "[u8;20]", "[u8;32]", "Box<String>", "Rc<String>",
               "Arc<u64>", "Box<[u8;8]>", "Rc<Vec<u8>>", "NonNull<u32>", "usize", "isize"]
KINDS = CODEC_KINDS + PLAIN_KINDS
# label order differs from key order: the known findings of C09, by the rule that names them
KNOWN_KINDS = {"i8-mixed": "sign", "i16-mixed": "sign", "i32-mixed": "sign", "i64-mixed": "sign",
               "i128-mixed": "sign", "isize-mixed": "sign", "Principal-mixed": "length",
               "NonNull<u32>-reversed": "address"}
VALUES = ["u32", "u64", "i16", "String", "Vec<u8>"]


def new(kt, max_rank, nv=4, vt="u32", flavor="map", **kw):
    return dict({"op": "new", "mach": "map", "kt": kt, "vt": vt, "flavor": flavor, "max": max_rank, "nv": nv}, **kw)


class Mirror:
    """Which keys are present: only used to pick applicable operations."""

    def __init__(self):
        self.c = {}

    def apply(self, o):
        op, k = o["op"], o.get("k")
        has = k in self.c
        if op in ("ins", "insw"):
            self.c[k] = 1
        elif op in ("rem", "reme", "erem", "ereme"):
            self.c.pop(k, None)
        elif op in ("eoi", "eoiw", "eoik", "eod", "evi"):
            self.c[k] = 1
        elif op == "eam" and o["w"]:
            self.c[k] = 1
        elif op == "clear":
            self.c = {}
        elif op in ("fromiter", "decode"):
            self.c = {p[0]: 1 for p in o["items"]}
        return o


def variant(op, k, v, w, has, rng):
    """One of the calls that performs a transition of the design."""
    if op == "ins":
        c = ["ins"] if has else ["ins", "ins", "eoi", "eoiw", "eoik", "evi", "eamv"]
    elif op == "insw":
        c = ["insw"] if has else ["insw", "eoi", "eoiw", "eoik", "evi"]
    elif op == "rem":
        c = ["rem", "reme", "erem", "ereme"]
    elif op == "mod":
        c = ["mod", "eam"]
    elif op == "gmw":
        c = ["gmw", "egmw", "eimw"] + (["eoi", "eod", "eoiw", "eoik"] if has else ["gmw"])
    else:
        c = [op]
    o = rng.choice(c)
    if o == "clear":
        return {"op": "clear"}
    if o in ("ins", "mod", "gmw", "egmw", "eimw"):
        return {"op": o, "k": k, "v": v}
    if o == "insw":
        return {"op": o, "k": k, "v": v, "w": w}
    if o in ("rem", "reme", "erem", "ereme"):
        return {"op": o, "k": k}
    if o == "eamv":
        return {"op": "eam", "k": k, "v": v, "w": v}
    if o == "eam":
        return {"op": "eam", "k": k, "v": v, "w": v if has and rng.random() < .5 else 0}
    if o in ("eoi", "eoiw", "eoik", "eod", "evi"):
        return {"op": o, "k": k, "v": v, "w": v if op == "gmw" else w}
    raise AssertionError(o)


def points(n):
    return list(range(1, 2 * n + 2))


def pairs(n):
    return [[a, b] for a in points(n) for b in range(a, 2 * n + 2)]


def near(k, n):
    return [q for q in (k - 1, k, k + 1) if 1 <= q <= 2 * n + 1]


def graph_walks(rows, n, rng, observe, kinds, nv=2, maxlen=200, flavors=("map", "rb"), newkw=None, init=".0",
                min_rank=0):
    """Replays of the design's transitions. observe(o, first, mirror, rng) gives the reads that
    follow an operation; first: the state of the design is visited for the first time."""
    hs = []
    for i, walk in enumerate(Graph(rows, init).cover(rng, maxlen)):
        kt = kinds[i % len(kinds)]
        vt = VALUES[i % len(VALUES)] if kt == "String" else "u32"
        h = [new(kt, 2 * n + 1, nv, vt, flavors[i // len(kinds) % len(flavors)], **(newkw or {}))]
        mir = Mirror()
        for (op, k, v, w), _t, first in walk:
            k, v, w = int(k), int(v), int(w)
            if op == "read":
                h += observe({"op": "read", "k": rng.choice(points(n))}, first, mir, rng)
                continue
            o = variant(op, k, v, w, k in mir.c, rng)
            h.append(mir.apply(o))
            h += observe(o, first, mir, rng)
        hs.append(fix_queries(h))
    return hs


def fix_queries(h):
    """Some kinds have no value for the lowest rank."""
    kt = h[0]["kt"]
    lo = 2 if kt == "String-empty" else 1
    if lo == 1:
        return h
    out = []
    for o in h:
        if "q" in o:
            q = [x for x in o["q"] if (min(x) if isinstance(x, list) else x) >= lo]
            o = dict(o, q=q)
        out.append(o)
    return out


RANDOM_OPS = (["ins"] * 5 + ["insw", "insw"] + ["rem", "reme", "erem", "ereme"] + ["mod", "gmw", "egmw", "eimw"]
              + ["eoi", "eoiw", "eoik", "eod", "eam", "eam", "evi", "eget"])


def random_op(n, nv, rng, mir, ops=RANDOM_OPS, bias=0.5, p_rare=0.01, codec=False):
    if rng.random() < p_rare:
        r = rng.randrange(4 if codec else 2)
        if r == 0:
            return {"op": "clear"}
        if r == 1 or r == 2:
            items = [[2 * rng.randint(1, n), rng.randint(1, nv)] for _ in range(rng.randint(0, 2 * n))]
            return {"op": "fromiter", "items": items} if r == 1 else \
                   {"op": "decode", "items": items, "codec": rng.choice(["cbor", "candid"])}
        return {"op": "reload", "codec": rng.choice(["cbor", "candid"])}
    op = rng.choice(ops)
    present = sorted(mir.c)
    if present and rng.random() < bias:
        k = rng.choice(present)
    else:
        k = 2 * rng.randint(1, n)
    o = {"op": op, "k": k, "v": rng.randint(1, nv)}
    if op in ("rem", "reme", "erem", "ereme", "eget"):
        del o["v"]
    if op in ("insw",):
        o["w"] = rng.randint(1, nv)
    if op in ("eoi", "eoiw", "eoik", "eod", "eam", "evi"):
        o["w"] = rng.choice([0, rng.randint(1, nv)])
    return o


def random_history(kt, n, steps, rng, observe, nv=4, vt="u32", flavor="map", phases=True, codec=False, newkw=None,
                   p_rare=0.01):
    """Random operations with growing and shrinking phases."""
    h = [new(kt, 2 * n + 1, nv, vt, flavor, **(newkw or {}))]
    mir = Mirror()
    mode = "grow"
    for s in range(steps):
        if phases and rng.random() < 0.04:
            mode = rng.choice(["grow", "grow", "shrink", "mixed", "seq", "rev"])
        ops = RANDOM_OPS
        if mode == "grow":
            ops = RANDOM_OPS + ["ins", "eoi", "evi"] * 5
        elif mode == "shrink":
            ops = RANDOM_OPS + ["rem", "reme", "erem"] * 8
        o = random_op(n, nv, rng, mir, ops, 0.8 if mode == "shrink" else 0.4, p_rare, codec)
        if mode in ("seq", "rev") and "k" in o and rng.random() < .7:
            ks = sorted(mir.c)
            k = ((ks[-1] + 2) if mode == "seq" else (ks[0] - 2)) if ks else 2 * ((n + 1) // 2)
            if 2 <= k <= 2 * n:
                o = {"op": "ins", "k": k, "v": rng.randint(1, nv)}
        h.append(mir.apply(o))
        h += observe(o, False, mir, rng)
    return fix_queries(h)


def big_history(kt, n, rng, observe_at, nv=3, flavor="map", order=None):
    """A large map: filled, thinned out, filled again; observed now and then."""
    h = [new(kt, 2 * n + 1, nv, "u32", flavor)]
    mir = Mirror()
    ks = [2 * i for i in range(1, n + 1)]

    def do(o):
        h.append(mir.apply(o))
        h.extend(observe_at(o, len(h), mir, rng))
    order = order or rng.choice(["up", "down", "mixed"])
    seq = list(ks)
    if order == "down":
        seq.reverse()
    elif order == "mixed":
        rng.shuffle(seq)
    for k in seq:
        do({"op": "ins", "k": k, "v": rng.randint(1, nv)})
    dels = list(ks)
    which = rng.choice(["up", "down", "mixed"])
    if which == "down":
        dels.reverse()
    elif which == "mixed":
        rng.shuffle(dels)
    for k in dels[:n * 3 // 4]:
        do({"op": rng.choice(["rem", "reme", "erem"]), "k": k})
    for _ in range(n // 2):
        do(random_op(n, nv, rng, mir, p_rare=0))
    return h


BULK_EDGES = [0, 1, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025]


def bulk_history(kt, rng, reads, sizes=BULK_EDGES, rounds=4):
    """Large maps made at once: collected, decoded, loaded again."""
    n = max(sizes)
    h = [new(kt, 2 * n + 1, 3)]
    mir = Mirror()
    for _ in range(rounds):
        m = rng.choice(sizes)
        ks = rng.sample(range(1, n + 1), m)
        order = rng.random()
        ks = sorted(ks) if order < .4 else sorted(ks, reverse=True) if order < .6 else ks
        items = [[2 * k, rng.randint(1, 3)] for k in ks]
        if items and rng.random() < .5:
            items += [[rng.choice(items)[0], rng.randint(1, 3)] for _ in range(1 + m // 10)]
        h.append(mir.apply(rng.choice([{"op": "fromiter", "items": items, "w8": 2 + m // 20},
                                       {"op": "decode", "items": items, "codec": rng.choice(["cbor", "candid"]), "w8": 2 + m // 20}])))
        o = {"op": "fromiter", "k": 2 * rng.randint(1, n)}
        h += reads(o, n, mir, rng)
        for _ in range(6):
            o = random_op(n, 3, rng, mir, p_rare=0)
            h.append(mir.apply(o))
            if rng.random() < .3:
                h += reads(o, n, mir, rng)
        if rng.random() < .5:
            h.append({"op": "reload", "codec": rng.choice(["cbor", "candid"]), "w8": 2 + m // 20})
            h += reads(o, n, mir, rng)
    return h


def huge_history(n, rng, reads, steps=24, kt="u32-seq", flavor="map"):
    """A map of thousands of entries, made at once and then changed here and there."""
    h = [new(kt, 2 * n + 3, 3, flavor=flavor)]
    mir = Mirror()
    h.append(mir.apply({"op": "fromiter", "items": [[2 * k, rng.randint(1, 3)] for k in range(1, n + 1)], "w8": 400}))
    h += reads({"op": "fromiter", "k": 2 * rng.randint(1, n)}, n, mir, rng)
    for s in range(steps):
        o = random_op(n, 3, rng, mir, ["rem", "reme", "erem", "rem", "ereme", "ins", "mod", "eoi", "evi", "eam"], 0.5, 0)
        if s % 12 == 5:                       # many neighbours go
            k = o["k"]
            for _ in range(6):
                h.append(dict(mir.apply({"op": "rem", "k": k}), w8=40))
                k = k + 2 if k < 2 * n else 2
        h.append(dict(mir.apply(o), w8=40))
        if s % 6 == 5:
            h += reads(o, n, mir, rng)
    return h


def huges(c, judge, rng, reads, sizes=None, steps=24):
    """Powers of two and their neighbours, and sizes between."""
    for i, n in enumerate(sizes or tier([513, 2049, 5003, 16001, 66001], [513, 1025, 2049, 3000, 4099, 8195, 12000, 33000, 66001, 131100])):
        c.add("TraceMap", judge, [huge_history(n, rng, reads, steps, ["u32-seq", "u64-seq"][i % 2], ["map", "rb"][i % 2])])


def rng_for(tag):
    return random.Random("%s-%d" % (tag, SEED))


# ------------------------------------------------------------------ common explorations
BASE = {"ValueHash": "<- Leaf", "ValueTree": "<- Leaf", "NV": 1, "TrackHash": False, "Lending": False, "CheckWit": False, "RefreshOn": True}


def shapes(c, n, rng, observe, judge, invariants=("Refines", "Structure"), kinds=KINDS, **kw):
    """Every operation in every tree that any history over n keys can produce."""
    rows = c.design("MC_LLRB", dict(BASE, N=n), list(invariants), emit=True)
    c.add("TraceMap", judge, graph_walks(rows, n, rng, observe(n), kinds, **kw))


def lending(c, n, rng, observe, judge, kinds=KINDS, passes=1, **kw):
    """The same with two values and references lent to the caller."""
    rows = c.design("MC_LLRB", dict(BASE, N=n, NV=2, TrackHash=True, Lending=True),
                    ["Refines", "Structure", "HashCurrent"], emit=True)
    for _ in range(passes):
        c.add("TraceMap", judge, graph_walks(rows, n, rng, observe(n), kinds, **kw))


def randoms(c, count, steps, rng, observe, judge, kinds=KINDS, sizes=(6, 12, 20, 40), newkw=None, **kw):
    hs = []
    for i in range(count):
        kt = kinds[i % len(kinds)]
        n = rng.choice(sizes)
        hs.append(random_history(kt, n, steps, rng, observe(n), flavor=["map", "rb"][i // 7 % 2],
                                 vt=rng.choice(VALUES) if kt == "String" else "u32", newkw=newkw, **kw))
    c.add("TraceMap", judge, hs)


def large(c, count, n, rng, reads, judge, every=97, kinds=("u32-seq", "String-big", "counted")):
    hs = []
    for i in range(count):
        def seldom(o, j, mir, rng):
            return reads(o, n, mir, rng) if j % every == 0 else []
        hs.append(big_history(kinds[i % len(kinds)], n, rng, seldom))
        hs.append(bulk_history(["u32-seq", "u64-seq"][i % 2], rng, reads, [x for x in BULK_EDGES if x <= n]))
    c.add("TraceMap", judge, hs)
