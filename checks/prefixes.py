"""Histories for the prefix queries."""
from maps import Graph, rng_for


def new_p(kt, keys, flavor):
    return {"op": "new", "mach": "prefix", "kt": kt, "keys": keys, "flavor": flavor}


def walks(rows, table, prefixes, kinds, rng, wit=True):
    hs = []
    for i, walk in enumerate(Graph(rows, ".0").cover(rng, 150)):
        flavor = ["rb", "rb", "map"][i % 3]
        h = [new_p(kinds[i % len(kinds)], table, flavor)]
        v = 0
        for (op, k, _v, _w), _t, first in walk:
            v += 1
            if op == "clear":
                continue
            h.append({"op": "ins", "k": int(k) // 2, "v": v} if op == "ins" else {"op": "rem", "k": int(k) // 2})
            if op == "clear" or not (first or rng.random() < .15):
                continue
            if wit:
                h.append({"op": "pws", "q": prefixes})
                h.append({"op": "pmax", "q": prefixes})
            if flavor == "rb":
                ps = prefixes if first and rng.random() < .3 else [rng.choice(prefixes)]
                for p in ps:
                    v += 1
                    h.append({"op": "pmod", "p": p, "v": v})
                    if rng.random() < .7:
                        h.append({"op": "root"})
        hs.append(h)
    return hs


def strings(maxlen, alphabet=(1, 2)):
    out, cur = [[]], [[]]
    for _ in range(maxlen):
        cur = [s + [c] for s in cur for c in alphabet]
        out += cur
    return sorted(out)


def relabel(tab, a):
    return [[a[c - 1] for c in s] for s in tab]


def random_table(kt, rng):
    """Key table (sorted) and prefixes."""
    if kt in ("pair", "text-pair"):
        av = sorted(rng.sample(range(1, 200), rng.randint(2, 8)))
        keys = sorted([a, rng.randint(0, 2 ** 31 - 1) if rng.random() < .3 else b] for a in av
                      for b in range(rng.randint(1, 9)))
        keys = [list(x) for x in sorted(set(map(tuple, keys)))]
        return keys, [[a + d] for a in av for d in (-1, 0, 1)]
    if kt == "String":
        alpha = rng.choice([["a", "b"], ["\0", "z"], ["é", "e", "ê"], ["a", "\U0010ffff", "\u07ff"],
                            ["a", "A"], ["É", "é", "E\u0301"], ["ß", "s", "S"], [" ", "a", "\u00a0"]])
        enc = lambda s: list("".join(s).encode())
    else:
        alpha = rng.choice([[0, 255], [1, 2], [0, 1, 255], [127, 128], [254, 255], [65, 97], [32, 0]])
        enc = list
    fixed = int(kt[4:-1]) if kt.startswith("[u8;") else None
    if not fixed and rng.random() < .3:
        return long_table(alpha, enc, rng)
    seen, pre = set(), set()
    for _ in range(rng.randint(4, 40)):
        n = fixed or rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 9])
        s = [rng.choice(alpha) for _ in range(n)]
        if fixed and n > 4:
            s[1:-2] = [alpha[0]] * (n - 3)
        seen.add(tuple(enc(s)))
        for i in range(n + 1):
            pre.add(tuple(enc(s[:i])))
        pre.add(tuple(enc(s + [rng.choice(alpha)])))
        pre.add(tuple(enc(s[:rng.randint(0, n)] + [rng.choice(alpha)])))
    keys = sorted(seen)
    pre = sorted(pre)
    return [list(k) for k in keys], [list(p) for p in pre]


def long_table(alpha, enc, rng):
    """Keys with long parts in common."""
    n = rng.choice([7, 15, 16, 31, 32, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257])
    base = [rng.choice(alpha) for _ in range(n + 3)] if rng.random() < .5 else [alpha[0]] * (n + 3)
    seen, pre = set(), set()
    for _ in range(rng.randint(4, 14)):
        b = list(base)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            b[rng.choice([n - 1, n, n + 1, n + 2, rng.randint(0, n + 2)])] = rng.choice(alpha)
        s = b[:rng.choice([n, n + 1, n + 2, n + 3, n + 3, rng.randint(0, n)])]
        seen.add(tuple(enc(s)))
        for i in (n - 1, n, n + 1, n + 2, n + 3, rng.randint(0, n)):
            pre.add(tuple(enc(s[:i])))
            pre.add(tuple(enc(b[:i] + [rng.choice(alpha)])))
    return [list(k) for k in sorted(seen)], [list(p) for p in sorted(pre)]


def randoms_p(kinds, count, steps, rng, wit=True):
    hs = []
    for i in range(count):
        kt = kinds[i % len(kinds)]
        keys, pre = random_table(kt, rng)
        flavor = rng.choice(["rb", "rb", "map"])
        h = [new_p(kt, keys, flavor)]
        here = set()
        for s in range(steps):
            grow = (s // 25) % 3 != 2
            k = rng.randint(1, len(keys))
            if not grow and here and rng.random() < .8:
                k = rng.choice(sorted(here))
            if rng.random() < (.75 if grow else .25):
                here.add(k)
                h.append({"op": "ins", "k": k, "v": s + 1})
            else:
                here.discard(k)
                h.append({"op": "rem", "k": k})
            r = rng.random()
            some = [rng.choice(pre) for _ in range(4)]
            if r < .3:
                h.append({"op": "pws", "q": some} if wit else {"op": "root"})
            elif r < .5:
                h.append({"op": "pmax", "q": some})
            elif r < .8 and flavor == "rb":
                h.append({"op": "pmod", "p": some[0], "v": s + 1000})
                if rng.random() < .7:
                    h.append({"op": "pws", "q": some} if wit and rng.random() < .5 else {"op": "root"})
        hs.append(h)
    return hs
