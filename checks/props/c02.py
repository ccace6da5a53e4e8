"""C02: the root hash always commits to exactly the current contents."""
from core import tier
from maps import *
from nested import nested_randoms
from paged import paged_randoms
from prefixes import relabel, randoms_p, strings, walks


def main(c):
    rng = rng_for("C02")
    judge = {"root"}

    def observe(n):
        def f(o, first, mir, rng):
            if o["op"] == "read" or rng.random() < .85:
                return [{"op": "root", "first": rng.random() < .5}]
            return []
        return f

    def bytewise(n):
        """The specification computes the hash itself."""
        def f(o, first, mir, rng):
            return [{"op": "sha", "w8": 10 * len(mir.c) + 1}] if rng.random() < .2 else []
        return f

    c.design("MC_LLRB", dict(BASE, N=tier(7, 8), TrackHash=True), ["Refines", "Structure", "HashCurrent"])
    shapes(c, tier(9, 11), rng, observe, judge)
    lending(c, tier(4, 5), rng, observe, judge)
    randoms(c, tier(80, 600), tier(200, 500), rng, observe, judge)
    randoms(c, tier(40, 320), tier(30, 60), rng, bytewise, judge, sizes=(3, 6, 12))
    large(c, tier(4, 24), tier(400, 1500), rng,
          lambda o, n, mir, rng: [{"op": "root", "first": True, "w8": 60}], judge)
    huges(c, judge, rng, lambda o, n, mir, rng: [{"op": "root", "first": True, "w8": 60}])
    # the last key under a prefix is modified, pages are filled, inner collections change
    rows = c.design("MC_LLRB", dict(BASE, N=7), ["Refines", "Structure"], emit=True)
    c.add("TracePrefix", judge, walks(rows, relabel(strings(2), [7, 200]), relabel(strings(2), [7, 200]),
                                      ["Vec<u8>", "Box<[u8]>"], rng, wit=False)[::tier(2, 1)])
    c.add("TracePrefix", judge, randoms_p(["String", "Vec<u8>", "pair", "text-pair", "[u8;4]"], tier(30, 300),
                                          tier(100, 300), rng, wit=False))
    c.add("TraceNested", judge, nested_randoms(tier(36, 300), tier(80, 200), rng, lambda o, mir, rng, n:
          [{"op": "root", "first": rng.random() < .5}] if rng.random() < .6 else []))
    paged_randoms(c, ["root"], tier(30, 300), tier(60, 200), rng, judge)
    c.run()
    return c.finish()
