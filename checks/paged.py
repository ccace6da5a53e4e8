"""Histories for paged maps."""
from core import tier
from maps import Graph, rng_for

# kinds with a codec, and those without; page sizes that exist for every kind
P_CODEC = ["u32", "u8", "u64", "i32", "u128", "i64-neg", "u32-seq", "String", "Vec<u8>", "Principal", "user"]
P_PLAIN = ["[u8;2]", "[u8;32]", "Box<[u8;8]>", "Arc<u64>"]
P_KINDS = P_CODEC + P_PLAIN
P_KNOWN = ["paged-String", "paged-Vec<u8>"]
INV = ["Refines", "Structure", "HashCurrent", "Paging", "WitnessInv"]
HUGE = [2**16 - 1, 2**16, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + 2, 2**33, 2**48, 2**63, 2**64 - 1]


def sizes_of(kt):
    return [1, 3] if kt in P_PLAIN else [1, 2, 3, 7] + ([4, 5, 10] if kt == "u32" else [])


def new_p(kt, S, max_rank, **kw):
    return dict({"op": "new", "mach": "paged", "kt": kt, "S": S, "max": max_rank, "default": S == 3}, **kw)


def digits(n):
    d = []
    while n:
        d.insert(0, n % 65536)
        n //= 65536
    return d or [0]


class Pages:
    def __init__(self, S, ranks):
        self.S, self.ranks, self.n = S, ranks, {}

    def pages(self, k):
        return (self.n.get(k, 0) + self.S - 1) // self.S

    def some_page(self, k, rng):
        n = self.pages(k)
        if rng.random() < .12:
            return rng.choice(HUGE) + rng.choice([0, 0, rng.randint(0, max(n, 1))]) if rng.random() < .8 else \
                2**32 * rng.randint(1, 2**31) + rng.randint(0, n + 1)
        return max(0, rng.choice([0, n - 2, n - 1, n, n + 1, rng.randint(0, n + 1)]))

    def q(self, k, rng):
        p = self.some_page(k, rng)
        return [k, digits(min(p, 2**64 - 1))]


def reads_p(mir, what, rng, k, count=2, full=False):
    """`what`: the reads that are judged."""
    r = []
    ks = [k] + [rng.choice(mir.ranks) for _ in range(count)]
    every = [[j, digits(p)] for j in mir.ranks for p in range(mir.pages(j) + 2)]
    for w in what:
        if w == "get":
            r.append({"op": "get", "q": every if full else [mir.q(j, rng) for j in ks]})
        elif w in ("all", "last", "lwit"):
            r.append({"op": w, "q": list(mir.ranks) if full else ks, "w8": 2 if w == "all" else 1})
        elif w == "pwit":
            r.append({"op": "pwit", "q": every + [[j, digits(rng.choice(HUGE))] for j in mir.ranks] if full
                      else [mir.q(j, rng) for j in ks]})
        elif w == "root":
            r.append({"op": "root", "first": rng.random() < .5})
    return r


def paged_walks(c, what, rng, newkw=None, judge=(), reps=0):
    for nk, s, items in tier([(2, 2, 5), (3, 1, 3), (2, 3, 7), (3, 2, 4)],
                             [(2, 2, 9), (3, 1, 4), (2, 3, 13), (4, 2, 4), (4, 1, 3), (3, 3, 7)]):
        rows = c.design("MC_Paged", {"NK": nk, "S": s, "MaxItems": items}, INV, emit=True)
        kinds = P_CODEC if s == 2 else P_KINDS
        rng.shuffle(kinds := list(kinds))
        hs = []
        # every state is visited, with every read taken, by several kinds
        for rep in range(reps or tier(3, 8)):
            for i, walk in enumerate(Graph(rows, "").cover(rng, 60)):
                h = [new_p(kinds[(i + rep) % len(kinds)], s, 2 * nk + 1, **(newkw or {}))]
                mir = Pages(s, list(range(1, 2 * nk + 2)))
                for (_op, k, _v, _w), _t, first in walk:
                    k = int(k)
                    h.append({"op": "ins", "k": k, "x": rng.randint(1, 9)})
                    mir.n[k] = mir.n.get(k, 0) + 1
                    h += reads_p(mir, what, rng, k, full=first)
                hs.append(h)
        c.add("TracePaged", judge, hs)


def paged_randoms(c, what, count, steps, rng, judge, kinds=P_KINDS, codec=False, newkw=None, start=0):
    hs = []
    for i in range(start, start + count):
        kt = kinds[i % len(kinds)]
        s = rng.choice(sizes_of(kt))
        nk = rng.choice([1, 2, 4, 8, 20])
        h = [new_p(kt, s, 2 * nk + 1, **(newkw or {}))]
        mir = Pages(s, list(range(1, 2 * nk + 2)))
        hot = 2 * rng.randint(1, nk)
        for _ in range(steps):
            if rng.random() < .08:
                hot = 2 * rng.randint(1, nk)
            k = hot if rng.random() < .5 else 2 * rng.randint(1, nk)
            r = rng.random()
            if r < .8:
                h.append({"op": "ins", "k": k, "x": rng.randint(1, 9)})
                mir.n[k] = mir.n.get(k, 0) + 1
            elif r < .88:
                n = rng.choice([s, s, 2 * s, 2 * s + 1, s - 1, 3])
                h.append({"op": "bulk", "k": k, "n": n, "x": rng.randint(0, 8)})
                mir.n[k] = mir.n.get(k, 0) + n
            elif r < .93 and codec and kt not in P_PLAIN:
                h.append({"op": "reload", "codec": rng.choice(["cbor", "candid"])})
            if rng.random() < .5:
                rs = reads_p(mir, what, rng, k, full=rng.random() < .03)
                h += rng.sample(rs, rng.randint(1, len(rs)))
        h += reads_p(mir, what, rng, k, full=True)
        hs.append(h)
    c.add("TracePaged", judge, hs)


def paged_large(c, what, rng, judge, codec=False, newkw=None):
    """More pages than one byte, and than two bytes, can number."""
    hs = []
    for kt, s, n in [("u32", 1, 700), ("String", 2, 1300), ("u32", 1, 66_300), ("u32", 64, 40_000), ("Vec<u8>", 1, 300),
                     ("user", 3, 2000), ("[u8;32]", 1, 600), ("u32", 1000, 5000)] + \
            tier([], [("u8", 1, 140_000), ("Principal", 1, 70_000), ("u64", 2, 200_000)]):
        h = [new_p(kt, s, 7, **(newkw or {}))]
        mir = Pages(s, list(range(1, 8)))
        left = n
        for b in [n // 3, 255 * s, 1, s, n // 3, 65535 * s, 1, 1, n]:
            b = min(b, left)
            if b <= 0:
                continue
            left -= b
            for k in (4, 2):
                m = b if k == 4 else min(b, 300 * s)
                h.append({"op": "bulk", "k": k, "n": m, "x": rng.randint(0, 8), "w8": 20 + m // 200})
                mir.n[k] = mir.n.get(k, 0) + m
            some = [[k, digits(p)] for k in range(1, 8) for p in sorted({0, 1, 254, 255, 256, 257, 65534, 65535, 65536, 65537,
                    mir.pages(k) - 1, mir.pages(k), rng.randint(0, mir.pages(k))}) if p >= 0]
            for w in what:
                if w in ("get", "pwit"):
                    h.append({"op": w, "q": rng.sample(some, 12) + [[k, digits(rng.choice(HUGE))] for k in (2, 4)]})
                elif w in ("last", "lwit"):
                    h.append({"op": w, "q": mir.ranks})
                elif w == "root" and mir.pages(4) < 2000:
                    h.append({"op": "root", "first": True, "w8": 60})
            if codec and mir.pages(4) < 2000 and kt not in P_PLAIN:
                h.append({"op": "reload", "codec": rng.choice(["cbor", "candid"])})
        hs.append(h)
    c.add("TracePaged", judge, hs)
