"""C07: range witnesses are complete, exact and verifiable."""
from core import tier
from maps import *


def main(c):
    rng = rng_for("C07")
    judge = {"krs", "vrs", "keys"}

    def some(n, k, count, rng):
        r = []
        for _ in range(count):
            a = rng.randint(1, 2 * n + 1)
            r.append([a, rng.randint(a, 2 * n + 1)])
        r.append([k, k])
        return r

    def observe(n):
        def f(o, first, mir, rng):
            if first:
                p = pairs(n)
                return [{"op": "krs", "q": p}, {"op": "vrs", "q": p}, {"op": "keys"}]
            if rng.random() < .5:
                return []
            p = some(n, o.get("k", 2), 3, rng)
            return [rng.choice([{"op": "krs", "q": p}, {"op": "vrs", "q": p}, {"op": "keys"}])]
        return f

    c.design("MC_LLRB", dict(BASE, N=tier(6, 7), TrackHash=True, CheckWit=True),
             ["Refines", "Structure", "HashCurrent", "WitnessInv", "SoundInv"])
    shapes(c, tier(8, 10), rng, observe, judge)
    lending(c, tier(3, 4), rng, observe, judge)
    randoms(c, tier(60, 400), tier(150, 400), rng, observe, judge)

    def reads(o, n, mir, rng):
        p = some(n, o["k"], 6, rng)
        return [{"op": "krs", "q": p, "w8": 30}, {"op": "vrs", "q": p, "w8": 30}, {"op": "keys", "w8": 30}]
    large(c, tier(4, 16), tier(300, 1000), rng, reads, judge)
    huges(c, judge, rng, reads, tier([513, 5003, 9001], [513, 1025, 2049, 4099, 8195, 12000, 20000]), 12)
    c.run()
    return c.finish()
