"""C16: saved collections load back with the same contents and a valid root."""
from core import tier
from maps import *
import nested
import paged
import seqs

JUDGE = {"ret", "obs", "root", "wit", "awit", "reload", "vrs"}
CODECS = ["cbor", "cbor-lazy", "cbor-reader", "candid"]
INV = ["Refines", "Structure", "HashCurrent", "Encoding", "Canonical"]
KINDS_C = CODEC_KINDS + ["String"]


def codec(rng, lazy=True):
    return rng.choice(CODECS if lazy else ["cbor", "cbor-reader", "candid"])


def look(n, mir, rng, k=None):
    p = points(n) if k is None else near(k, n)
    r = [{"op": "obs", "q": p}, {"op": "root", "first": rng.random() < .5}]
    a = rng.randint(1, 2 * n + 1)
    if rng.random() < .5:
        r.append({"op": "wits", "q": p})
    if rng.random() < .3:
        r.append({"op": "vrs", "q": [[a, rng.randint(a, 2 * n + 1)]]})
    rng.shuffle(r)
    return r


def map_walks(c, n, nv, maxin, rng):
    rows = c.design("MC_Codec", {"N": n, "NV": nv, "MaxIn": maxin, "ValueHash": "<- Leaf", "ValueTree": "<- Leaf", "TrackHash": True}, INV,
                    emit=True)
    hs = []
    for i, walk in enumerate(Graph(rows, "").cover(rng, 120)):
        kt = KINDS_C[i % len(KINDS_C)]
        vt = VALUES[i % len(VALUES)] if kt == "String" else "u32"
        h = [new(kt, 2 * n + 1, max(nv, 3), vt, "map")]
        mir = Mirror()
        for (op, k, v, w), _t, first in walk:
            if op == "decode":
                items = [[int(x) for x in p.split(".")] for p in k.split(";") if p]
                o = {"op": "decode", "items": items, "codec": codec(rng)}
            elif op == "reload":
                o = {"op": "reload", "codec": codec(rng, False)}
                if rng.random() < .3:
                    h.append({"op": "badcodec", "codec": codec(rng)})
            else:
                o = variant(op, int(k), int(v), 0, int(k) in mir.c, rng)
            h.append(mir.apply(o))
            if op in ("decode", "reload"):
                h += look(n, mir, rng)
            elif rng.random() < .3:
                h += look(n, mir, rng, int(k))
        hs.append(fix_queries(h))
    c.add("TraceMap", JUDGE, hs)


def recode(hs, rng):
    """Choose among all ways of encoding and decoding."""
    for h in hs:
        for o in h:
            if o["op"] == "decode":
                o["codec"] = codec(rng)
            elif o["op"] == "reload":
                o["codec"] = codec(rng, False)
    return hs


def map_randoms(c, count, steps, rng):
    hs = []
    for i in range(count):
        kt = KINDS_C[i % len(KINDS_C)]
        n = rng.choice((3, 6, 12, 30, 60) if kt != "Vec<u8>" else (3, 6, 12, 30))

        def reads(o, first, mir, rng):
            if o["op"] in ("reload", "decode") or rng.random() < .15:
                return look(n, mir, rng, o.get("k"))
            return [{"op": "badcodec", "codec": codec(rng)}] if rng.random() < .02 else []
        hs.append(random_history(kt, n, steps, rng, reads, codec=True, p_rare=.12,
                                 vt=rng.choice(VALUES) if kt == "String" else "u32"))
    c.add("TraceMap", JUDGE, recode(hs, rng))


def large_part(c, rng):
    """Long inputs, of lengths around those at which buffers are commonly limited."""
    hs = []
    for i, n in enumerate([255, 256, 257, 1025, 4097, tier(5000, 20000)]):
        kt = ["u32-seq", "u64-seq", "u32"][i % 3] if n < 1000 else ["u32-seq", "u64-seq"][i % 2]
        if kt == "u32" and n > 120:
            kt = "u32-seq"
        h = [new(kt, 2 * n + 1, 3, "u32", "map")]
        few = [1, 2, n, 2 * n, 2 * n + 1]
        h.append({"op": "decode", "items": [[2 * j, rng.randint(1, 3)] for j in range(1, n + 1)], "codec": codec(rng), "w8": n // 40})
        for _ in range(2):
            h += [{"op": "obs", "q": few, "w8": n // 40}, {"op": "root", "w8": n // 40}, *([{"op": "wits", "q": few, "w8": 20}] if n < 300 else []),
                  {"op": "rem", "k": 2 * rng.randint(1, n)}, {"op": "reload", "codec": codec(rng, False)}]
        h += [{"op": "obs", "q": few, "w8": n // 40}]
        hs.append(h)
    c.add("TraceMap", JUDGE, hs)
    c.add("TraceSeq", {"seq", "reload"}, recode(seqs.seq_large(1, tier(9000, 60000), rng), rng))


def nested_part(c, count, steps, rng):
    kinds = [k for k, v in sorted(nested.NKINDS.items()) if v[2]]
    hs = []
    for i in range(count):
        kt = kinds[i % len(kinds)]
        mir = nested.NMirror(kt)
        n = rng.choice((2, 3, 5, 8))
        h = [nested.new_n(kt)]
        for _ in range(steps):
            r = rng.random()
            if r < .12:
                h.append({"op": "reload", "codec": codec(rng, False)})
            elif r < .2:
                items = nested.rand_items(mir, 0, n, rng) + nested.rand_items(mir, 0, n, rng)
                mir.c = mir.build(items, 1)
                h.append({"op": "decode", "items": items, "codec": codec(rng)})
            elif r < .22:
                h.append({"op": "badcodec", "codec": codec(rng)})
            else:
                h.append(mir.apply(nested.rand_change(kt, mir, n, rng)))
                if rng.random() < .7:
                    continue
            h += [{"op": "dump"}, {"op": "root", "first": rng.random() < .5}]
            if rng.random() < .5:
                h.append({"op": "nw", "q": [nested.rand_sel(mir, mir.c, 0, n, rng) for _ in range(2)]})
        hs.append(h)
    c.add("TraceNested", {"ret", "dump", "root", "wit", "reload"}, hs)


def seq_part(c, rng):
    n, v = tier((3, 3), (4, 3))
    rows = c.design("MC_Seq", {"MaxLen": n, "NV": v}, ["Refines", "HashOfItems"], emit=True)
    hs = seqs.seq_walks(rows, rng, codec=True) + seqs.seq_randoms(tier(60, 500), tier(150, 300), rng) \
        + seqs.seq_large(tier(2, 8), tier(400, 3000), rng)
    for h in hs:
        for j in range(len(h) - 1, 0, -1):
            if h[j]["op"] == "reload" and rng.random() < .3:
                h.insert(j, {"op": "badcodec", "s": h[j]["s"], "codec": codec(rng)})
    c.add("TraceSeq", {"seq", "reload"}, recode(hs, rng))


def paged_part(c, rng):
    judge = {"page", "last", "pwit", "lwit", "root", "reload"}
    what = ["get", "all", "last", "pwit", "lwit", "root"]
    hs = []
    for nk, s, items in tier([(2, 2, 5), (3, 1, 3)], [(2, 2, 9), (3, 2, 5), (4, 1, 4)]):
        rows = c.design("MC_Paged", {"NK": nk, "S": s, "MaxItems": items}, paged.INV, emit=True)
        kinds = list(paged.P_CODEC)
        rng.shuffle(kinds)
        for i, walk in enumerate(Graph(rows, "").cover(rng, 60)):
            h = [paged.new_p(kinds[i % len(kinds)], s, 2 * nk + 1)]
            mir = paged.Pages(s, list(range(1, 2 * nk + 2)))
            for (_op, k, _v, _w), _t, first in walk:
                k = int(k)
                h.append({"op": "ins", "k": k, "x": rng.randint(1, 9)})
                mir.n[k] = mir.n.get(k, 0) + 1
                if first or rng.random() < .2:
                    h.append({"op": "reload", "codec": codec(rng, False)})
                    h += paged.reads_p(mir, what, rng, k, full=first)
                    if rng.random() < .2:
                        h.append({"op": "badcodec", "codec": rng.choice(["cbor", "candid"])})
            hs.append(h)
    c.add("TracePaged", judge, recode(hs, rng))
    paged.paged_randoms(c, what, tier(44, 300), tier(60, 200), rng, judge, kinds=paged.P_CODEC, codec=True)
    big = [("u32", 1, 300), ("String", 2, 700), ("user", 3, 900)]
    hs = []
    for kt, s, n in big:
        h = [paged.new_p(kt, s, 7)]
        mir = paged.Pages(s, list(range(1, 8)))
        for k in (4, 2, 6, 4):
            h += [{"op": "bulk", "k": k, "n": n // 3, "x": rng.randint(0, 8), "w8": 20},
                  {"op": "reload", "codec": codec(rng, False)}]
            mir.n[k] = mir.n.get(k, 0) + n // 3
            h += paged.reads_p(mir, ["get", "last", "pwit", "lwit", "root"], rng, k)
        hs.append(h)
    c.add("TracePaged", judge, recode(hs, rng))


def main(c):
    rng = rng_for("C16")
    map_walks(c, *tier((3, 2, 4), (4, 2, 4)), rng)
    map_walks(c, tier(6, 8), 1, 1, rng)
    map_randoms(c, tier(80, 800), tier(60, 150), rng)
    large_part(c, rng)
    nested_part(c, tier(48, 400), tier(50, 120), rng)
    seq_part(c, rng)
    paged_part(c, rng)
    for hs in c.pending.values():
        for h in hs:
            if h[0]["kt"] in ("u128", "i128"):          # CBOR has no numbers of more than 64 bits
                for o in h:
                    if "codec" in o:
                        o["codec"] = "candid"
    c.run()
    return c.finish(assumptions=["keys of 128 bits are encoded as Candid only: CBOR has no such numbers"])
