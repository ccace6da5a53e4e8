"""C08: prefix queries cover exactly the keys with the prefix."""
from core import tier
from maps import *
from prefixes import *

JUDGE = ["prefix", "root"]


def main(c):
    rng = rng_for("C08")
    inv = ["Refines", "Structure", "HashCurrent", "PrefixInv"]
    base = dict(BASE, TrackHash=True)
    c.design("MC_Prefix", dict(base, N=7, Form="strings", A=0, B=0), inv)
    for a, b in tier([(2, 3), (3, 2)], [(2, 3), (3, 2), (2, 4), (4, 2), (3, 3)]):
        c.design("MC_Prefix", dict(base, N=a * b, Form="pairs", A=a, B=b), inv)
    rows = c.design("MC_LLRB", dict(BASE, N=7), ["Refines", "Structure"], emit=True)
    for alpha in ([97, 98], [0, 255]):
        kinds = ["Vec<u8>", "Box<[u8]>"] + (["String"] if alpha[1] < 128 else [])
        c.add("TracePrefix", JUDGE, walks(rows, relabel(strings(2), alpha), relabel(strings(3), alpha), kinds, rng))
    two = [s for s in strings(2, (1, 2, 3)) if len(s) == 2]
    n = 9
    rows = c.design("MC_LLRB", dict(BASE, N=n), ["Refines", "Structure"], emit=True)
    c.add("TracePrefix", JUDGE, walks(rows, two, strings(2, (1, 2, 3)) + [[1, 2, 1], [0], [4], [3, 3, 3]], ["[u8;2]"], rng)[::tier(4, 1)])
    for a, b in ((3, 3), (2, 4), (4, 2)):
        t = [[x, y] for x in range(1, a + 1) for y in range(b)]
        r = rows if a * b == 9 else c.design("MC_LLRB", dict(BASE, N=a * b), ["Refines", "Structure"], emit=True)
        c.add("TracePrefix", JUDGE, walks(r, t, [[x] for x in range(a + 2)], ["pair", "text-pair"], rng)[::tier(2, 1)])
    kinds = ["String", "Vec<u8>", "Box<[u8]>", "pair", "text-pair"]
    c.add("TracePrefix", JUDGE, randoms_p(kinds, tier(60, 400), tier(100, 300), rng))
    c.add("TracePrefix", JUDGE, randoms_p(["[u8;%d]" % n for n in range(1, 33)], tier(32, 128), tier(50, 200), rng))
    c.run()
    return c.finish()
