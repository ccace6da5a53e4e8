"""C09: no witness lets a verifier conclude anything false, for any key type."""
from core import tier
from findings import findings, report
from maps import *
from paged import P_KNOWN, paged_large, paged_randoms, paged_walks


def main(c):
    rng = rng_for("C09")
    judge = {"label"}
    known = findings("C09")

    def observe(n):
        def f(o, first, mir, rng):
            if not first and rng.random() < .6:
                return []
            a = rng.randint(1, 2 * n + 1)
            some = [[a, rng.randint(a, 2 * n + 1)] for _ in range(3)]
            r = [{"op": "wits", "q": points(n) if first else near(o.get("k", 2), n)},
                 {"op": "krs", "q": some}, {"op": "vrs", "q": some}, {"op": "keys"},
                 {"op": "root", "first": True}]
            return r if first else [rng.choice(r)]
        return f

    c.design("MC_LLRB", dict(BASE, N=tier(6, 7), TrackHash=True, CheckWit=True),
             ["Refines", "Structure", "HashCurrent", "WitnessInv", "SoundInv"])
    shapes(c, tier(6, 8), rng, observe, judge, newkw={"uselabels": True}, maxlen=100)
    randoms(c, tier(len(KINDS) * 2, len(KINDS) * 12), tier(60, 200), rng, observe, judge, sizes=(6, 12, 20),
            newkw={"uselabels": True})
    # keys of both signs, principals of several lengths, pointers
    for kt, rule in sorted(KNOWN_KINDS.items()):
        kw = {"uselabels": True}
        if kt in known:
            kw["known"] = known[kt][0]
        randoms(c, tier(2, 10), tier(60, 200), rng, observe, judge, kinds=[kt], sizes=(10, 12, 20), newkw=kw)
    # paged maps
    what = ["pwit", "lwit", "root"]
    paged_walks(c, what, rng, {"uselabels": True}, judge, reps=tier(1, 4))
    paged_randoms(c, what, tier(30, 300), tier(50, 150), rng, judge, newkw={"uselabels": True})
    paged_large(c, what, rng, judge, newkw={"uselabels": True})
    for kt in P_KNOWN:
        kw = {"uselabels": True}
        if kt in known:
            kw["known"] = known[kt][0]
        paged_randoms(c, what, tier(6, 30), tier(60, 200), rng, judge, kinds=[kt], newkw=kw)
    c.run()
    return c.finish(known_findings=report("C09", c.known))
