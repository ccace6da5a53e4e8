"""C04: the certified tree stays balanced after every history."""
from core import tier
from maps import *
import paged
from scale import scales


def full_size(c, count, n, rng, judge):
    """Large trees built at once, then every operation on them, and what it costs."""
    hs = []
    for i in range(count):
        h = [new("counted", 2 * n + 1, flavor=["map", "rb"][i % 2])]
        mir = Mirror()
        items = [[2 * k, rng.randint(1, 4)] for k in range(1, n + 1)]
        h.append(dict(mir.apply({"op": "fromiter", "items": items}), w8=n // 50))
        for j in range(40):
            if j % 4 == 0:
                ks = sorted(mir.c)
                h.append({"op": "cost", "w8": 20, "q": [1, 2 * n + 1, ks[0], ks[-1], rng.randint(1, 2 * n + 1)]})
            h.append(dict(mir.apply(random_op(n, 4, rng, mir, p_rare=0)), w8=20))
        hs.append(h)
    c.add("TraceMap", judge, hs)


def pages(c, count, n, rng, judge):
    hs = []
    for i in range(count):
        s = [1, 3][i % 2]
        nk = [1, 20, n][i % 3]
        h = [paged.new_p("counted", s, 2 * nk + 1)]
        mir = paged.Pages(s, list(range(1, 2 * nk + 2)))
        ks = [2 * k for k in range(1, nk + 1)]
        rng.shuffle(ks)
        for k in ks:
            m = s * (n // nk)
            h.append({"op": "bulk", "k": k, "n": m, "x": 1, "w8": 4})
            mir.n[k] = m
        for _ in range(20):
            k = rng.choice(ks)
            h.append({"op": "ins", "k": k, "x": rng.randint(1, 9), "w8": 8})
            mir.n[k] = mir.n.get(k, 0) + 1
            h.append({"op": "cost", "w8": 8, "q": [[1, [0]], [2 * nk + 1, [0]], mir.q(2 * nk, rng), mir.q(2, rng), mir.q(k, rng)]})
        hs.append(h)
    c.add("TracePaged", judge, hs)


def main(c):
    rng = rng_for("C04")
    judge = {"shape", "steps"}

    def observe(n):
        def f(o, first, mir, rng):
            ks = sorted(mir.c)
            q = ks if first else ([rng.choice(ks)] if ks else [2])
            if rng.random() < .05:
                return [{"op": "cost", "q": [rng.randint(2, 2 * n) for _ in range(2)]}]
            return [{"op": "shape", "q": q or [2], "tree": True}]
        return f

    inv = ["Refines", "Structure", "BalanceInv"]
    c.design("MC_LLRB", dict(BASE, N=tier(12, 15)), inv)
    shapes(c, tier(10, 12), rng, observe, judge, inv)
    randoms(c, tier(60, 400), tier(200, 500), rng, observe, judge, sizes=(12, 20, 40, 60))

    def reads(o, n, mir, rng):
        return [{"op": "shape", "q": [rng.choice(sorted(mir.c) or [2]) for _ in range(4)], "tree": True, "w8": 20},
                {"op": "cost", "q": [1, 2 * n + 1, rng.choice(sorted(mir.c) or [2])]}]
    large(c, tier(8, 30), tier(500, 3000), rng, reads, judge, every=61, kinds=("counted", "u32-seq"))
    full_size(c, tier(4, 20), tier(2500, 8000), rng, judge)
    pages(c, tier(6, 24), tier(2000, 4000), rng, judge)
    scales(c, ["map", "rb", "paged2"])
    c.run()
    return c.finish()
