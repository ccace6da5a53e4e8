"""C10: nested witnesses prove entries of inner collections against the outer root."""
from core import tier
from nested import *

JUDGE = ["ret", "dump", "root", "wit"]


def main(c):
    rng = rng_for("C10")
    inv = ["Refines", "Structure", "HashCurrent", "WitnessInv"]

    def observe(no, ni):
        def f(o, mir, rng, first):
            if first is True:
                return [{"op": "nw", "q": all_sels(mir, no, ni)}] if rng.random() < .5 else [{"op": "root"}]
            if o == "read" or rng.random() < .3:
                r = [{"op": "root", "first": rng.random() < .5}, {"op": "dump"},
                     {"op": "nw", "q": [rand_sel(mir, mir.c, 0, no, rng) for _ in range(3)]}]
                return rng.sample(r, 1)
            return []
        return f

    for no, ni, nv in tier([(2, 1, 2), (2, 2, 1), (3, 1, 1)], [(2, 1, 2), (2, 2, 1), (3, 1, 2), (2, 2, 2), (3, 2, 1)]):
        rows = c.design("MC_Nested", {"NO": no, "NI": ni, "NV": nv}, inv, emit=True)
        c.add("TraceNested", JUDGE, nested_walks(rows, no, ni, rng, observe(no, ni)))

    def obs2(o, mir, rng, n):
        if rng.random() < .6:
            r = []
            if rng.random() < .7:
                r.append({"op": "nw", "q": [rand_sel(mir, mir.c, 0, n, rng) for _ in range(4)]})
            if rng.random() < .6:
                r.append({"op": "root", "first": rng.random() < .5})
            if rng.random() < .4:
                r.append({"op": "dump"})
            rng.shuffle(r)
            return r
        return []
    c.add("TraceNested", JUDGE, nested_randoms(tier(90, 600), tier(120, 300), rng, obs2))
    c.run()
    return c.finish()
