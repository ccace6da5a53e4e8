"""C21: certifying a change takes work for the change, not for the collection."""
from core import tier
from maps import rng_for
from scale import scales

CHANGING = ["val", "ref", "lazy"]


def sizes(big):
    return sorted({0, 1, 2, 3, 9, 50, 300, big})


def seq_history(rng, steps, big):
    h = [{"op": "new", "mach": "work", "kt": "seq"}]
    for _ in range(steps):
        r = rng.random()
        n, x = rng.choice(sizes(big)), rng.randint(1, 9)
        if r < .45:
            h.append({"op": "app", "x": x})
        elif r < .6:
            h.append({"op": "ext", "n": rng.choice([0, 1, 2, 5, 100]), "x": x, "how": rng.choice(CHANGING)})
        elif r < .67:
            h.append({"op": "make", "n": n, "x": x, "how": rng.choice(["vec", "slice", "mutslice", "iter"])})
        elif r < .72:
            h.append({"op": "decode", "n": n, "x": x, "how": rng.choice(["cbor", "cbor-lazy", "candid"])})
        elif r < .73:
            h.append({"op": "clear"})
        elif r < .76:
            h.append({"op": "room", "n": rng.choice([0, 10, 1000])})
        else:
            h.append({"op": rng.choice(["root", "tree", "read", "encode", "clone"])})
    return h


def paged_history(rng, steps, big, kt):
    h = [{"op": "new", "mach": "work", "kt": kt}]
    nk = rng.choice([1, 3, 40])
    for k in range(1, nk + 1):
        h.append({"op": "fill", "k": 2 * k, "n": big // nk + rng.randint(0, 9), "x": 1})
    for _ in range(steps):
        k = rng.randint(1, 2 * nk + 1)
        h.append({"op": "ins", "k": k, "x": rng.randint(1, 9)} if rng.random() < .6 else
                 {"op": rng.choice(["get", "page", "last", "lwit", "root"]), "k": k,
                  "n": rng.choice([0, 1, big // nk, rng.randint(0, big)])})
    return h


def nested_history(rng, steps, big, kt):
    h = [{"op": "new", "mach": "work", "kt": kt}]
    rb, deep = kt.startswith("rb"), kt == "map-map-seq"
    mm = kt in ("map-map", "rb-rb")
    nk = rng.choice([1, 4, 60, big])
    inner = rng.choice([1, 10, big]) if nk <= 4 else rng.choice([1, 6])

    def change(k, how):
        x, j = rng.randint(1, 9), rng.randint(1, 2 * inner)
        if mm:
            return {"op": rng.choice(["put", "put", "del"]), "k": k, "j": j, "x": x, "how": how}
        if deep:
            return {"op": "app", "k": k, "j": j, "x": x, "how": how}
        if rng.random() < .2:
            return {"op": "ext", "k": k, "n": rng.choice([0, 3, 20]), "x": x, "how": how if how not in ("deep", "modify") else ""}
        return {"op": "app", "k": k, "x": x, "how": how}
    for k in range(1, nk + 1):
        if mm or deep:
            for j in range(1, inner + 1):
                h.append({"op": "put" if mm else "app", "k": 2 * k, "j": 2 * j, "x": 1, "how": "or_default"})
        else:
            h.append({"op": "ext", "k": 2 * k, "n": inner, "x": 1, "how": "or_default"})
    hows = ["", "", "or_default", "and_modify"] + (["modify"] if rb else [] if mm or deep else ["deep"])
    for _ in range(steps):
        k = rng.randint(1, 2 * nk + 1)
        r = rng.random()
        if r < .6:
            h.append(change(k, rng.choice(hows)))
        elif r < .65:
            h.append({"op": "rem", "k": k})
        else:
            h.append({"op": rng.choice(["root", "root", "wit", "nwit"] + (["len"] if kt == "map-seq" else [])), "k": k})
    return h


def map_history(rng, steps, big, kt):
    h = [{"op": "new", "mach": "work", "kt": kt}]
    n = rng.choice([1, 10, 100, big])
    hows = ["", "", "or_default", "and_modify", "insert"] + (["modify"] if kt == "rb" else [])
    for k in rng.sample(range(1, 2 * n + 1), n):
        h.append({"op": "put", "k": k, "x": 1, "how": "insert"})
    for _ in range(steps):
        k = rng.randint(1, 2 * n + 1)
        r = rng.random()
        if r < .6:
            h.append({"op": "put", "k": k, "x": rng.randint(1, 9), "how": rng.choice(hows)})
        elif r < .7:
            h.append({"op": "rem", "k": k})
        else:
            h.append({"op": rng.choice(["root", "wit", "nwit"]), "k": k})
    return h


def main(c):
    rng = rng_for("C21")
    for n, v in tier([(4, 2)], [(5, 2), (4, 3)]):
        c.design("MC_Seq", {"MaxLen": n, "NV": v}, ["Refines", "HashOfItems", "WorkInv"])
    big = tier(600, 2500)
    hs = [seq_history(rng, tier(120, 300), tier(3000, 60000)) for _ in range(tier(50, 200))]
    for i in range(tier(36, 120)):
        kt = ["paged1", "paged8", "paged300"][i % 3]
        hs.append(paged_history(rng, tier(100, 250), big, kt))
    for i in range(tier(120, 300)):
        hs.append(nested_history(rng, tier(100, 250), big // 4, ["map-seq", "rb-seq", "map-map", "rb-rb", "map-map-seq"][i % 5]))
    for i in range(tier(24, 100)):
        hs.append(map_history(rng, tier(100, 250), big, ["map", "rb"][i % 2]))
    c.add("TraceWork", [], hs)
    scales(c, ["seq", "map-seq"])
    c.run()
    return c.finish()
