"""C18: hash trees hash, prune and serialise by the certificate rules."""
from core import tier
from maps import rng_for


def parse(s):
    """<<F, <<E>>, <<V, <<0, 1>>>>>> as nested lists (the hash in <<P, h>> stays a tree)."""
    s = s.replace("<<", "[").replace(">>", "]")
    out, i = None, 0
    stack = []
    while i < len(s):
        c = s[i]
        if c == "[":
            stack.append([])
        elif c == "]":
            x = stack.pop()
            if not stack:
                return x
            stack[-1].append(x)
        elif c.isalpha():
            stack[-1].append(c)
        elif c.isdigit():
            j = i
            while s[j].isdigit():
                j += 1
            stack[-1].append(int(s[i:j]))
            i = j - 1
        i += 1
    return out


def size(t):
    return 1 + sum(size(x) for x in t[1:]) if t[0] in "FP" else 1 + size(t[2]) if t[0] == "L" else 1


def retext(t, f):
    """The same tree with other byte strings."""
    if t[0] == "L":
        return ["L", f(t[1]), retext(t[2], f)]
    if t[0] == "V":
        return ["V", f(t[1])]
    return [t[0]] + [retext(x, f) for x in t[1:]]


def prunings(t):
    if t[0] == "P":
        return
    yield ["P", t]
    for i in range(1, len(t)):
        if isinstance(t[i], list) and t[i] and isinstance(t[i][0], str):
            for x in prunings(t[i]):
                yield t[:i] + [x] + t[i + 1:]


def random_tree(rng, n, blob):
    """A tree with about n nodes."""
    if n <= 1:
        return rng.choice([["E"], ["V", blob()], ["V", blob()]])
    if rng.random() < .35:
        return ["L", blob(), random_tree(rng, n - 1, blob)]
    a = rng.randint(1, max(1, n - 2))
    return ["F", random_tree(rng, a, blob), random_tree(rng, n - 1 - a, blob)]


def prune_some(rng, t, p):
    if t[0] != "P" and rng.random() < p:
        return ["P", t]
    return [x if not (isinstance(x, list) and x and isinstance(x[0], str)) else prune_some(rng, x, p) for x in t]


def main(c):
    rng = rng_for("C18")
    inv = ["RootKept", "Listings", "WireBack", "CborBack"]
    rows = c.design("MC_HashTree", {"Depth": 2, "Labs": 2, "Vals": 2}, inv + ["ClientReads"], emit=True)
    trees = [parse(r[0]) for r in rows]
    c.design("MC_HashTree", {"Depth": 2, "Labs": tier(3, 4), "Vals": tier(3, 4)}, inv)
    if tier(False, True):
        c.design("MC_HashTree", {"Depth": 3, "Labs": 1, "Vals": 1}, inv)
    hs, sha = [], []

    def batches(ts, k, dst, per=24, w=1):
        """Histories of several batches, so that hashes are compared across them."""
        parts = [ts[i:i + k] for i in range(0, len(ts), k)]
        for i in range(0, len(parts), per):
            dst.append([{"op": "new", "mach": "hash"}] +
                       [{"op": "trees", "ts": p, "turn": rng.randint(0, 1), "w8": max(1, int(sum(size(t) for t in p) * w))}
                        for p in parts[i:i + per]])
    # every tree and every pruning of it up to the bound
    rng.shuffle(trees)
    batches(trees if tier(False, True) else trees[:6000], 24, hs)
    # with the byte strings that matter to the encoding
    lens = [0, 1, 2, 22, 23, 24, 25, 31, 32, 33, 55, 56, 63, 64, 100, 127, 128, 254, 255, 256, 257, 300, 511, 512, 600]
    blobs = [[(7 * j + n) % 256 for j in range(n)] for n in lens] + [[0] * 32, [255] * 32, [4], [131], [130, 4]]
    some = rng.sample(trees, tier(300, 3000))
    batches([retext(t, lambda b: rng.choice(blobs)) for t in some], 12, hs, w=8)
    big = []
    for n in [1000, 4096, 65534, 65535, 65536, 65537] + tier([], [100000, 1 << 20]):
        b = [j % 251 for j in range(n)]
        big += [["V", b], ["L", b, ["E"]], ["F", ["L", b, ["V", [1]]], ["P", ["V", b]]]]
    batches(big, 1, hs, per=3, w=100)
    # random larger trees with all their single prunings, and random multiple ones
    small = [[], [0], [1], [0, 0], [97], [97, 0], [255], [1, 2, 3]]
    for n in [3, 5, 8, 13, 20, 40] * tier(6, 60):
        t = random_tree(rng, n, lambda: rng.choice(small))
        ts = [t] + list(prunings(t))
        rng.shuffle(ts)
        ts = ts[:12] + [prune_some(rng, t, .2) for _ in range(8)]
        batches(ts, 20, hs)
    for n in [150, 400] * tier(1, 6):
        t = random_tree(rng, n, lambda: rng.choice(small))
        batches([t] + [prune_some(rng, t, .02) for _ in range(3)], 4, hs, w=3)
    for kind in ("left", "right", "chain", "zigzag"):
        hs.append([{"op": "new", "mach": "hash"}] + [{"op": "comb", "kind": kind, "n": n, "w8": n} for n in (0, 1, 2, 24, 100, tier(400, 2000))])
    # the specification's own SHA-256 on a part of them
    batches(rng.sample(trees, tier(300, 4000)), 5, sha, per=20, w=10)
    batches([retext(t, lambda b: rng.choice(blobs)) for t in rng.sample(trees, tier(100, 1500))], 5, sha, per=20, w=30)
    for n in [8, 20] * tier(3, 30):
        t = random_tree(rng, n, lambda: rng.choice(small))
        batches([t] + [prune_some(rng, t, .15) for _ in range(2)], 3, sha, w=10)
    c.add("TraceHash", {"hash"}, hs)
    c.add("TraceHash", {"hash", "sha"}, sha)
    c.run()
    return c.finish()
