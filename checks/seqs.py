"""Histories for sequences."""
from maps import Graph, rng_for
from core import tier

SEQ_KINDS = ["u8", "u32", "u64", "String", "Vec<u8>", "Seq", "Map", "i64", "u16", "i8", "u128"]


def new_s(kt, slots=4, nv=6):
    return {"op": "new", "mach": "seq", "kt": kt, "slots": slots, "nv": 2 if kt == "bool" else nv}


def obs_s(s, n, rng, k=3):
    q = []
    for _ in range(k):
        a = rng.choice([0, rng.randint(0, n)])
        q.append([a, rng.choice([n, rng.randint(a, n)])])
    return {"op": "obs", "s": s, "q": q}


MAKES = ["vec", "slice", "mutslice", "iter", "lazy", "cap", "new"]


def seq_walks(rows, rng, codec=False, kinds=SEQ_KINDS):
    """Slot 1 follows the design; now and then its list is built again in another slot, in
    another way, and compared."""
    hs = []
    for i, walk in enumerate(Graph(rows, ".").cover(rng, 150)):
        h = [new_s(kinds[i % len(kinds)])]
        cur = []
        for (op, xs, _v, _w), t, first in walk:
            xs = [int(c) for c in xs.rstrip(".")]
            if op == "app":
                h.append({"op": "app", "s": 1, "x": xs[0]})
            elif op == "ext":
                h.append({"op": "ext", "s": 1, "items": xs, "how": rng.choice(["val", "ref", "lazy"])})
            elif op == "clear":
                h.append({"op": "clear", "s": 1})
            elif op == "make":
                if codec and rng.random() < .5:
                    h.append({"op": "decode", "s": 1, "items": xs, "codec": rng.choice(["cbor", "candid"])})
                else:
                    h.append({"op": "make", "s": 1, "items": xs, "how": rng.choice(MAKES)})
            elif op == "reload":
                h.append({"op": "reload", "s": 1, "codec": rng.choice(["cbor", "candid"])})
            cur = [int(c) for c in t.rstrip(".")]
            h.append(obs_s(1, len(cur), rng))
            if first:
                s = rng.randint(2, 4)
                h.append({"op": "make", "s": s, "items": cur, "how": rng.choice(MAKES)})
                h.append(obs_s(s, len(cur), rng))
                h.append({"op": "eq", "s": 1, "from": s})
        hs.append(h)
    return hs


def seq_randoms(count, steps, rng, codec=True, maxlen=12, kinds=SEQ_KINDS + ["bool"]):
    hs = []
    for i in range(count):
        kt = kinds[i % len(kinds)]
        nv = 2 if kt == "bool" else rng.choice([2, 3, 6, 9])
        h = [new_s(kt, 4, nv)]
        q = [[] for _ in range(5)]
        for _ in range(steps):
            s = rng.randint(1, 4)
            f = rng.randint(1, 4)
            r = rng.random()
            items = [rng.randint(1, nv) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
            if r < .3 and len(q[s]) < maxlen:
                x = rng.randint(1, nv)
                q[s] = q[s] + [x]
                h.append({"op": "app", "s": s, "x": x})
            elif r < .55 and len(q[s]) + len(items) <= maxlen:
                q[s] = q[s] + items
                h.append({"op": "ext", "s": s, "items": items, "how": rng.choice(["val", "ref", "lazy"])})
            elif r < .6:
                q[s] = []
                h.append({"op": "clear", "s": s})
            elif r < .68:
                base = rng.choice(q[1:])
                q[s] = rng.choice([items, base, base[:-1], base[::-1], (base + base)[:maxlen]])
                h.append({"op": "make", "s": s, "items": q[s], "how": rng.choice(MAKES)})
            elif r < .73:
                h.append({"op": "room", "s": s, "how": rng.choice(["shrink", "reserve", "exact"])})
            elif r < .8:
                q[s] = q[f]
                h.append({"op": "clone", "s": s, "from": f})
            elif r < .83:
                h.append({"op": "take", "s": s})
                q[s] = []
            elif r < .9 and codec:
                if rng.random() < .6:
                    h.append({"op": "reload", "s": s, "codec": rng.choice(["cbor", "candid"])})
                else:
                    q[s] = items
                    h.append({"op": "decode", "s": s, "items": items, "codec": rng.choice(["cbor", "candid"])})
            if rng.random() < .6:
                h.append(obs_s(s, len(q[s]), rng, 2))
            if rng.random() < .3:
                h.append({"op": "eq", "s": s, "from": f})
        hs.append(h)
    return hs


def seq_bytewise(count, rng, kinds=SEQ_KINDS + ["bool"]):
    """The specification computes the hash chain itself."""
    hs = []
    for h in seq_randoms(count, 25, rng, kinds=kinds):
        out = []
        for o in h:
            out.append(o)
            if o["op"] == "obs" and rng.random() < .4:
                out.append({"op": "sha", "s": o["s"], "w8": 60})
        hs.append(out)
    return hs


def seq_large(count, n, rng):
    hs = []
    for i in range(count):
        kt = ["u32", "u8", "String", "Seq"][i % 4]
        h = [new_s(kt, 2, 7)]
        size = 0
        for j in range(6):
            k = rng.choice([n // 6, n // 3, 255 - size if size < 255 else 1])
            h.append({"op": "many", "s": 1, "n": k, "x": rng.randint(0, 6), "nv": 7, "w8": k,
                      "how": rng.choice(["", "val", "ref", "lazy"])})
            size += k
            if j == 3:
                h.append({"op": "reload", "s": 1, "codec": rng.choice(["cbor", "candid"])})
            items = [rng.randint(1, 7) for _ in range(rng.randint(1, 40))]
            h.append({"op": "ext", "s": 1, "items": items, "how": rng.choice(["val", "ref", "lazy"])})
            size += len(items)
            h.append(dict(obs_s(1, size, rng), w8=size // 4))
        h.append({"op": "clone", "s": 2, "from": 1})
        h.append({"op": "app", "s": 2, "x": 3})
        h.append({"op": "eq", "s": 2, "from": 1})
        h.append(dict(obs_s(2, size + 1, rng), w8=size // 4))
        h.append(dict(obs_s(1, size, rng), w8=size // 4))
        hs.append(h)
    return hs


def seq_peeks(count, rng, sizes):
    """Long sequences, however they came about."""
    hs = []
    for i in range(count):
        h = [new_s(["u32", "u8", "String", "u64", "Map", "Vec<u8>"][i % 6], 1, 7)]
        for n in rng.sample(sizes, 4):
            how = rng.choice(MAKES + ["cbor", "cbor-lazy", "candid"])
            h.append({"op": "fresh", "s": 1, "n": n, "x": rng.randint(0, 6), "nv": 7, "how": how, "w8": n // 100})
            for _ in range(3):
                h.append({"op": "peek", "s": 1, "m": rng.randint(0, 5), "w8": 2 + n // 100})
                r = rng.random()
                if r < .4:
                    h.append({"op": "app", "s": 1, "x": rng.randint(1, 7)})
                elif r < .8:
                    h.append({"op": "many", "s": 1, "n": rng.choice([1, 2, 63, 64, 255, 256]), "x": rng.randint(0, 6), "nv": 7,
                              "how": rng.choice(["val", "ref", "lazy"])})
                else:
                    h.append({"op": "clear", "s": 1} if r < .9 else
                             {"op": "reload", "s": 1, "codec": rng.choice(["cbor", "candid"])})
            h.append({"op": "peek", "s": 1, "m": 3, "w8": 2 + n // 100})
        hs.append(h)
    return hs


EDGES = sorted({x + d for p in range(3, 13) for x in [2 ** p] for d in (-1, 0, 1)} | {0, 1, 2, 3, 100, 1000, 3000})
