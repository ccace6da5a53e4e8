"""C22: a panic in the caller's code leaves a collection truthful and safe."""
from core import tier
from maps import rng_for

CMP, LABEL, HASH, DROP, CLONE, DEFAULT = 1, 2, 3, 4, 5, 6
MAPS = ["map", "rb", "pair", "map-seq", "rb-seq", "pair-seq", "map-map", "rb-map"]
CALLED = ["and_modify", "mod_or", "or_insert_with", "or_insert_with_key", "get_mut"]
PLAIN = ["insert", "set", "or_insert", "or_default", "into_mut"]


def ev(op, **a):
    return dict({"op": op, "k": 0, "x": 0, "j": 1, "how": "", "boom": "", "at": 0, "xs": [], "trip": [], "quiet": False,
                 "q": [], "to": 0}, **a)


def new(kt):
    return {"op": "new", "mach": "panic", "kt": kt}


def hows(kt):
    h = PLAIN + CALLED
    if not kt.startswith("map"):
        h = h + ["modify"] * 2
    if kt.startswith("pair"):
        h = h + ["pmod"] * 3
    if kt == "map-seq":
        h = h + ["deep"] * 3
    return h


def tree_history(rng, kt, steps, nkeys):
    pair = kt.startswith("pair")
    keys = rng.sample(range(10, 10 + 2 * nkeys) if pair else range(1, 2 * nkeys + 1), min(nkeys, 2 * nkeys))
    pick = lambda: rng.choice(keys)
    h = [new(kt)]
    val = lambda: {"x": rng.randint(0 if "-map" in kt else 1, 9), "j": rng.randint(1, 4)}
    for k in rng.sample(keys, rng.randint(0, len(keys))):
        h.append(ev("put", k=k, how="insert", quiet=True, **val()))
    for _ in range(steps):
        r = rng.random()
        a = {"quiet": rng.random() < .35, "q": rng.sample(keys, min(3, len(keys)))}
        p = rng.random()
        if p < .4:
            a["trip"] = [rng.choice([CMP, LABEL, HASH, DROP]), rng.choice([1, 2, 3, 4, rng.randint(1, 12), rng.randint(1, 40)])]
        if r < .5:
            a["how"] = rng.choice(hows(kt))
            if a["how"] == "or_default" and a.get("trip") and rng.random() < .5:
                a["trip"] = [DEFAULT, 1]
            if a["how"] in CALLED + ["modify", "pmod"] and rng.random() < .4:
                a["boom"] = rng.choice(["before", "after"])
            h.append(ev("put", k=pick(), **val(), **a))
        elif r < .72:
            h.append(ev("rem", k=pick(), how=rng.choice(["", "entry"]), **a))
        elif r < .74:
            h.append(ev("clear", **a))
        elif r < .77:
            xs = [[pick(), rng.randint(1, 9)] for _ in range(rng.randint(0, nkeys))]
            h.append(ev("collect", xs=xs, at=rng.choice([0, rng.randint(1, len(xs) + 2)]), **a))
        else:
            op = rng.choice(["root", "tree", "get", "wit", "nwit", "each", "keys", "krange", "vrange", "with"] + (["len"] if kt == "map-seq" else []))
            lo, hi = sorted([pick(), pick()])
            if op in ("nwit", "with"):
                a["boom"] = rng.choice(["", "before", "after"])
            if op == "each":
                a["at"] = rng.randint(0, nkeys)
            h.append(ev(op, k=lo, to=hi, **a))
    return h


def seq_history(rng, steps):
    h = [new("seq")]
    for _ in range(steps):
        a = {"quiet": rng.random() < .35}
        if rng.random() < .4:
            a["trip"] = [rng.choice([HASH, HASH, DROP, CLONE]), rng.randint(1, 6)]
        xs = [rng.randint(1, 9) for _ in range(rng.choice([0, 1, 3, 7]))]
        r = rng.random()
        if r < .3:
            h.append(ev("app", x=rng.randint(1, 9), **a))
        elif r < .65:
            h.append(ev("ext", xs=xs, at=rng.choice([0, rng.randint(1, len(xs) + 2)]), **a))
        elif r < .75:
            h.append(ev("collect", xs=xs, at=rng.choice([0, rng.randint(1, len(xs) + 2)]), **a))
        elif r < .83:
            h.append(ev("make", xs=xs, **a))
        else:
            h.append(ev(rng.choice(["clear", "clone", "root", "tree"]), **a))
    return h


def paged_history(rng, steps):
    h = [new("paged")]
    for _ in range(steps):
        a = {"quiet": rng.random() < .35, "q": [rng.randint(0, 7), rng.randint(0, 7)]}
        if rng.random() < .35:
            a["trip"] = [rng.choice([CMP, LABEL, HASH, DROP, CLONE]), rng.choice([1, 2, 3, 4, rng.randint(1, 12), rng.randint(1, 30)])]
        k = rng.randint(0, 7)
        if rng.random() < .65:
            h.append(ev("ins", k=k, x=rng.randint(1, 9), **a))
        else:
            h.append(ev(rng.choice(["root", "tree", "last", "lwit", "get", "wit"] + ["clear"] * (rng.random() < .2)), k=k, **a))
    return h


def nums(s):
    return [int(x) for x in s.rstrip(".")]


def from_design(rng, rows, share):
    """Each call of the design, from each collection it can begin with: without a panic, with each
    panic of a closure, and with a panic in each comparison, label and hash it makes."""
    hs, seen = [], set()
    for m, lent, s, op, k, x, xs, boom, how in rows:
        on_seq = op in ("app", "ext", "sclear")
        key = (s, op, xs, boom) if on_seq else (m, lent, op, k, x, boom)
        if key in seen:
            continue
        seen.add(key)
        k, x, lent, m, s, xs = int(k), int(x), int(lent), nums(m), nums(s), nums(xs)
        trips = [[]] + [[t, n] for t in (HASH, DROP) for n in range(1, 5)] if on_seq else \
                [[]] + [[t, n] for t in (CMP, LABEL, HASH, DROP) for n in range(1, 9)]
        for kt in (["seq"] if on_seq else ["rb", "map"] if op != "modify" else ["rb", "pair"]):
            for trip in trips:
                if trip and rng.random() > share:
                    continue
                h = [new(kt)]
                if on_seq:
                    h += [ev("app", x=y) for y in s]
                    a = {"trip": trip}
                    h.append(ev("clear", **a) if op == "sclear" else ev("app", x=xs[0], **a) if op == "app" else ev("ext", xs=xs, at=int(boom or 0), **a))
                    h += [ev("app", x=3), ev("ext", xs=[4, 5])]
                else:
                    pair = kt == "pair"
                    up = (lambda y: 10 + y) if pair else (lambda y: y)
                    h += [ev("put", k=up(m[i]), x=m[i + 1], how="insert", quiet=True) for i in range(0, len(m), 2)]
                    if lent:
                        # hashes are right but for the lent value
                        h += [ev("root"), ev("put", k=up(lent), x=7, how="set", quiet=True)]
                    how = {"insert": "insert", "set": "set", "modify": "pmod" if pair else "modify"}.get(op, "")
                    o = {"insert": "put", "set": "put", "modify": "put", "remove": "rem", "root": "root", "clear": "clear"}[op]
                    h.append(ev(o, k=up(k), x=x, how=how, boom=boom, trip=trip, q=[up(2), up(3), up(4)], quiet=rng.random() < .5))
                    h += [ev("put", k=up(4), x=5, how="insert", quiet=True), ev("rem", k=up(2), q=[up(2), up(3), up(4)])]
                hs.append(h)
    return hs


def main(c):
    rng = rng_for("C22")
    rows = c.design("MC_Fault", {"Keys": {2, 4}, "Vals": {1, 2}, "MaxLen": 3, "TakesRoot": True, "LendsFirst": True,
                                 "ForgetsLast": True, "HashesEach": True, "ForgetsFirst": True},
                    ["Truth", "LenOK", "LentOK", "NoGhost", "Judged"], emit=True)
    hs = from_design(rng, rows, tier(.2, 1))
    for i in range(tier(200, 2000)):
        hs.append(tree_history(rng, MAPS[i % len(MAPS)], tier(60, 150), rng.choice([2, 5, 9, 9])))
    for i in range(tier(30, 300)):
        hs.append(seq_history(rng, tier(60, 150)))
        hs.append(paged_history(rng, tier(60, 150)))
    c.add("TracePanic", [], hs)
    c.run()
    return c.finish()
