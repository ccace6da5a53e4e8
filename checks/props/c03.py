"""C03: entry handles and lent references act as the map and keep the root current."""
from core import tier
from maps import *

ENTRY = ["eoi", "eoiw", "eoik", "eod", "eam", "evi", "eget", "egmw", "eimw", "erem", "ereme", "insw", "gmw", "mod"]


def reads(n, k, rng):
    """A read that uses the hashes, in a random order, the root among them."""
    p = near(k, n)
    a = rng.randint(1, 2 * n + 1)
    b = rng.randint(a, 2 * n + 1)
    r = [{"op": "wits", "q": p}, {"op": "krs", "q": [[a, b]]}, {"op": "vrs", "q": [[a, b], [k, k]]}, {"op": "keys"},
         {"op": "obs", "q": p}]
    rng.shuffle(r)
    r = r[:rng.randint(0, 2)]
    r.insert(rng.randint(0, len(r)), {"op": "root", "first": rng.random() < .5})
    return r


def main(c):
    rng = rng_for("C03")
    judge = {"ret", "obs", "root", "wit", "awit", "krs", "vrs", "keys"}

    def observe(n):
        def f(o, first, mir, rng):
            k = o.get("k", 2)
            if o["op"] == "read":
                return reads(n, k, rng)
            # what is lent stays lent unless the walk reads
            return [{"op": "obs", "q": near(k, n)}] if rng.random() < .3 else []
        return f

    def observe2(n):
        def f(o, first, mir, rng):
            return reads(n, o.get("k", 2), rng) if rng.random() < .4 else []
        return f

    lending(c, 3, rng, observe, judge, passes=tier(12, 40))
    lending(c, tier(4, 5), rng, observe, judge, passes=tier(2, 4))
    # every entry operation on every key of every tree, with and without a write
    n = tier(6, 8)
    rows = c.design("MC_LLRB", dict(BASE, N=n), ["Refines", "Structure"], emit=True)
    hs = []
    for i, h in enumerate(graph_walks(rows, n, rng, lambda *a: [{"op": "mark"}], KINDS, nv=5)):
        out, mir, pos = [], Mirror(), 0
        for o in h:
            if o["op"] != "mark":
                out.append(o if o["op"] == "new" else mir.apply(o))
                continue
            # and_modify, get_mut, into_mut ... keep the set of keys
            for _ in range(rng.randint(0, 2)):
                k = rng.choice(sorted(mir.c)) if mir.c and rng.random() < .8 else 2 * rng.randint(1, n)
                op = rng.choice(["eam", "egmw", "eimw", "eget", "gmw", "mod", "eoi", "insw"])
                if op in ("eoi", "insw") and k not in mir.c:
                    op = "eget"
                e = {"op": op, "k": k}
                if op != "eget":
                    e["v"] = rng.randint(1, 5)
                if op == "insw":
                    e["w"] = rng.randint(1, 5)
                if op in ("eam", "eoi"):
                    e["w"] = rng.choice([0, rng.randint(1, 5)]) if k in mir.c else 0
                out.append(e)
            if rng.random() < .5:
                out += reads(n, o.get("k", 2), rng)
        hs.append(fix_queries(out))
    c.add("TraceMap", judge, hs)
    randoms(c, tier(100, 800), tier(200, 400), rng, observe2, judge)
    c.run()
    return c.finish()
