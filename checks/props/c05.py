"""C05: a witness for a present key proves its value and discloses nothing else."""
from core import tier
from maps import *


def main(c, judge=frozenset(["wit"]), tag="C05"):
    rng = rng_for(tag)
    present = "wit" in judge

    def observe(n):
        def f(o, first, mir, rng):
            if first:
                q = [k for k in points(n) if (k in mir.c) == present]
            else:
                q = [k for k in near(o.get("k", 2), n) + [rng.choice(points(n))] if (k in mir.c) == present]
            return [{"op": "wits", "q": q}] if q else []
        return f

    def all_q(n):
        def f(o, first, mir, rng):
            q = [k for k in points(n) if (k in mir.c) == present]
            return [{"op": "wits", "q": q}] if q and (first or rng.random() < .2) else []
        return f

    c.design("MC_LLRB", dict(BASE, N=tier(6, 7), TrackHash=True, CheckWit=True),
             ["Refines", "Structure", "HashCurrent", "WitnessInv", "SoundInv"])
    shapes(c, tier(9, 11), rng, observe, judge)
    lending(c, tier(3, 4), rng, all_q, judge)
    randoms(c, tier(60, 400), tier(200, 400), rng, observe, judge)

    def reads(o, n, mir, rng):
        q = [rng.choice(points(n)) for _ in range(20)] + [1, 2, 2 * n, 2 * n + 1]
        q = [k for k in q if (k in mir.c) == present]
        return [{"op": "wits", "q": q, "w8": 10}] if q else []
    large(c, tier(4, 24), tier(400, 1500), rng, reads, judge)
    huges(c, judge, rng, reads)
    c.run()
    return c.finish()
