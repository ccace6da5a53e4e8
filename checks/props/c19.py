"""C19: every key and value handed over is released exactly once."""
from core import tier
from maps import *
import groups
import nested
import paged
import seqs
from props import c08

JUDGE = {"own", "reload"}
DROP = {"op": "drop"}
# these keys are addresses of numbers that the harness leaves alone
LEAKING = ("NonNull<u32>", "NonNull<u32>-reversed")


class Collect:
    """Takes histories instead of judging them."""

    def __init__(self, c):
        self.c, self.hs = c, []

    def add(self, _module, _judge, histories):
        self.hs += histories

    def design(self, *a, **kw):
        return self.c.design(*a, **kw)


def dropped(hs):
    return [h + [DROP] for h in hs]


def heaps(c, hs, rng, size=6):
    """Whole histories, each on a fresh collection that is dropped at the end."""
    hs = [h for h in hs if h[0].get("kt") not in LEAKING]
    rng.shuffle(hs)
    for i in range(0, len(hs), size):
        c.add("TraceHeap", set(), [[{"op": "new", "mach": "heap"}] + [{"op": "heap", "prog": h, "w8": 40} for h in hs[i:i + size]]])


def main(c):
    rng = rng_for("C19")
    for keys, ids in tier([({2}, 8), ({2, 4}, 7)], [({2}, 11), ({2, 4}, 9), ({2, 4, 6}, 8)]):
        c.design("MC_Own", {"Keys": keys, "MaxId": ids, "MaxLen": 2}, ["Placed", "Judged"], properties=["Forward"], emit_const=None)

    def observe(n):
        def f(o, first, mir, rng):
            r = rng.random()
            if r < .1:
                return [{"op": "root", "first": True}, {"op": "wits", "q": near(o.get("k", 2), n)}]
            return [{"op": "obs", "q": near(o.get("k", 2), n)}] if r < .2 else []
        return f

    # instances, call by call
    m = Collect(c)
    shapes(m, tier(9, 11), rng, observe, JUDGE, kinds=["tracked"])
    lending(m, tier(4, 5), rng, observe, JUDGE, kinds=["tracked"])
    randoms(m, tier(40, 400), tier(150, 400), rng, observe, JUDGE, kinds=["tracked"])
    for i in range(tier(20, 150)):
        m.hs.append(random_history("tracked", rng.choice([5, 9, 16]), 80, rng, observe(9), codec=True, p_rare=.08))
    some = []
    for i in range(tier(12, 60)):
        n = rng.randint(3, 9)
        h = [new("tracked", 2 * n + 1)]
        for _ in range(20):
            items = [[2 * rng.randint(1, n), rng.randint(1, 4)] for _ in range(rng.randint(0, n + 2))]
            h.append({"op": rng.choice(["fromiter", "decode"]), "items": items, "codec": rng.choice(["cbor", "cbor-lazy", "candid"])})
            h.append({"op": "badcodec", "codec": rng.choice(["cbor", "candid"])})
            h.append({"op": "ins", "k": 2 * rng.randint(1, n), "v": 1})
        some.append(h)
    c.add("TraceMap", JUDGE, dropped(m.hs + some))
    c.add("TraceMap", JUDGE, dropped([big_history("tracked", tier(120, 300), rng, lambda *a: []) for _ in range(tier(3, 12))]))

    rows = c.design("MC_Seq", {"MaxLen": tier(4, 5), "NV": 2}, ["Refines", "HashOfItems", "Injective", "ZeroOnlyEmpty"], emit=True)
    c.add("TraceSeq", JUDGE, dropped(seqs.seq_walks(rows, rng, codec=True, kinds=["tracked"])))
    c.add("TraceSeq", JUDGE, dropped(seqs.seq_randoms(tier(60, 500), 80, rng, kinds=["tracked"])))
    p = Collect(c)
    paged.paged_randoms(p, ["get", "pwit", "lwit"], tier(60, 400), 80, rng, JUDGE, kinds=["tracked"], codec=True)
    c.add("TracePaged", JUDGE, dropped(p.hs))

    # memory, history by history
    h = Collect(c)
    every = lambda n: (lambda o, f, mir, rng: [{"op": "obs", "q": near(o.get("k", 2), n)}, {"op": "root", "first": True},
                                               {"op": "wits", "q": near(o.get("k", 2), n)}, {"op": "keys"}] if rng.random() < .2 else [])
    randoms(h, tier(80, 500), 120, rng, every, JUDGE)
    for i in range(tier(40, 200)):
        kt = CODEC_KINDS[i % len(CODEC_KINDS)]
        h.hs.append(random_history(kt, 9, 60, rng, every(9), codec=True, p_rare=.1))
    h.hs += seqs.seq_randoms(tier(60, 300), 60, rng)
    paged.paged_randoms(h, ["get", "all", "last", "pwit", "lwit", "root"], tier(60, 300), 60, rng, JUDGE, codec=True)
    groups.group_randoms(h, tier(60, 400), rng, ["get", "root", "wit"], JUDGE)
    h.hs += nested.nested_randoms(tier(50, 300), 60, rng, lambda *a: [], codec=True)
    h.hs += c08.randoms_p(["String", "Vec<u8>", "Box<[u8]>", "pair", "text-pair", "[u8;3]"], tier(40, 200), 60, rng)
    # a history may stop anywhere; a builder need not build
    h.hs += [x[:rng.randint(1, len(x))] for x in h.hs if rng.random() < .3]
    heaps(c, h.hs, rng)
    # thousands of entries
    big = [huge_history(n, rng, lambda o, n, mir, r: [{"op": "wits", "q": near(o["k"], n)}], 12, kt, flavor)
           for n, kt, flavor in ((600, "u32-seq", "map"), (2500, "u64-seq", "rb"), (9000, "u32-seq", "rb"), (70_000, "u32-seq", "map"))]
    big += seqs.seq_peeks(tier(4, 12), rng, [5000, 20_000, 65_537, 70_000])
    heaps(c, big, rng, 1)
    c.run()
    return c.finish()
