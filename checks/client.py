"""Histories for a client: collections in a group, changes, and certificates to look paths up in."""
from core import tier
from maps import rng_for


def b4(n):
    return list(n.to_bytes(4, "big"))


def b8(n):
    return list(n.to_bytes(8, "big"))


def tx(s):
    return list(s.encode())


U32 = [0, 1, 2, 3, 127, 128, 254, 255, 256, 257, 511, 512, 65535, 65536, 65537, 16777215, 16777216, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1]
TEXT = ["", "\0", " ", "A", "a", "a\0", "aa", "aab", "ab", "abc", "abd", "b", "ba", "~", "é", "éa", "\U0010ffff",
        "k" * 23, "k" * 24, "k" * 40 + "a", "k" * 40 + "b", "k" * 300]
BLOB = [[], [0], [0, 0], [0, 1], [1], [1, 0], [127], [128], [255], [255, 0], [255, 255], [255, 255, 1], [7] * 24, [7] * 255 + [1], [7] * 256]
NAMES = ["", "\0", "a", "aa", "ab", "b", "members", "z", "é", "n1", "n2", "n3", "n4", "long " * 60]

# the keys of each level, and what is at the end
KEYS = {"ms": ["t"], "mu": ["u"], "mm": ["b", "u"], "mq": ["u"], "m3": ["t", "u"], "pg": ["u"], "sq": [], "nu": [], "tx": []}
END = {"ms": "u", "mu": "t", "mm": "u", "mq": "s", "m3": "s", "pg": "s", "sq": "s8", "nu": "8", "tx": "t"}
POOL = {"u": [b4(x) for x in U32], "t": [tx(x) for x in TEXT], "b": BLOB}


class Group:
    """The members and key pools of one history."""

    def __init__(self, rng, members=None):
        self.rng = rng
        names = sorted(rng.sample(list(KEYS), rng.choice([1, 2, 3, 5, 9]))) if members is None else members
        paths = []
        for _ in names:
            while True:
                p = [tx(rng.choice(NAMES)) for _ in range(rng.choice([1, 1, 2, 2, 3, 5]))]
                if paths and rng.random() < .5:
                    q = rng.choice(paths)
                    p = q[:rng.randint(0, len(q) - 1)] + p
                if not any(p[:len(q)] == q or q[:len(p)] == p for q in paths):
                    break
            paths.append(p)
        self.at = dict(zip(names, paths))
        n = rng.choice([2, 4, 7, 12])
        self.pool = {k: sorted(rng.sample(v, min(n, len(v)))) for k, v in POOL.items()}
        order = list(self.at)
        rng.shuffle(order)
        self.new = {"op": "new", "mach": "client", "members": [[m, self.at[m]] for m in order]}

    def key(self, kind, wild=.1):
        return self.rng.choice(POOL[kind] if self.rng.random() < wild else self.pool[kind])

    def value(self, end):
        r = self.rng
        return {"u": lambda: b4(r.choice(U32)), "s": lambda: b4(r.choice(U32)), "s8": lambda: b8(r.choice(U32) * 65537),
                "8": lambda: b8(r.choice(U32) * r.choice([1, 2**32 - 1])), "t": lambda: tx(r.choice(TEXT))}[end]()

    def change(self):
        r, mem = self.rng, self.rng.choice(list(self.at))
        if r.random() < .06:
            return {"op": "reload", "mem": mem, "codec": r.choice(["cbor", "cbor-reader", "candid"]), "keys": [], "v": []}
        ks, end = KEYS[mem], END[mem]
        keys = [self.key(k) for k in ks]
        o = {"op": "push" if end in ("s", "s8") else "put", "mem": mem, "keys": keys, "v": []}
        x = r.random()
        if mem == "pg" or x < .62:
            if o["op"] == "put" and ks and r.random() < .4:
                o["via"] = "insert"
            return dict(o, v=self.value(end))
        if x < .9 and ks:
            return dict(o, op="del", keys=keys[:r.randint(1, len(keys))])
        if x < .93 and len(ks) > 1:
            return dict(o, op="sub", keys=keys[:1])
        if end in ("u", "t", "8") and not ks:
            return dict(o, v=self.value(end))
        if x < .96 and ks:
            # empty an inner collection, or all
            depth = r.randint(0, len(keys) if end == "s" else len(keys) - 1)
            return dict(o, op="clear", keys=keys[:depth])
        if end == "s8" and x < .7:
            return dict(o, op="clear")
        return dict(o, v=self.value(end))

    def part(self, mem, ks, end):
        """A request for a collection with these levels of keys."""
        r = self.rng
        if mem == "pg":
            k = self.key("u")
            return r.choice([{"how": "page", "a": k, "b": b4(r.choice([0, 0, 1, 1, 2, 3, 2**32 - 1]))}, {"how": "last", "a": k},
                             {"how": "full"}, {"how": "pruned"}])
        if not ks:
            return {"how": r.choice(["full", "full", "pruned"])}
        a, b = sorted([self.key(ks[0], .2), self.key(ks[0], .2)])
        x = r.random()
        if x < .45 and len(ks) > 1 or x < .08:
            return {"how": "in", "a": self.key(ks[0]), "in": self.part("", ks[1:], end)}
        hows = [{"how": "wit", "a": self.key(ks[0], .2)}] * 4 + [{"how": "kr", "a": a, "b": b}] * 2 \
            + [{"how": "vr", "a": a, "b": b}] * 2 + [{"how": "keys"}, {"how": "full"}, {"how": "pruned"}]
        if ks[0] != "u":
            k = self.key(ks[0])
            if ks[0] == "b":
                hows += [{"how": "prefix", "a": k[:r.randint(0, len(k))]}] * 2
            else:
                s = bytes(k).decode()
                hows += [{"how": "prefix", "a": tx(s[:r.randint(0, len(s))])}] * 2
        return r.choice(hows)

    def ask(self, nprobe=4):
        r = self.rng
        ms = r.sample(list(self.at), r.choice([0, 1, 1, 1, 2, 3]) % (len(self.at) + 1))
        reqs = [dict(self.part(m, KEYS[m], END[m]), mem=m) for m in ms]
        probe = []
        for q in reqs:
            # the keys the requests are about, hit or missed
            p, s = list(self.at[q["mem"]]), q
            while s:
                if s["how"] == "page":
                    probe.append(p + [s["a"] + s["b"]])
                elif s["how"] == "last":
                    probe += [p + [s["a"] + b4(n)] for n in (0, 1, 2, 3, 2**32 - 1)]
                elif "a" in s:
                    probe.append(p + [s["a"]])
                    p = p + [s["a"]]
                if "b" in s and s["how"] != "page":
                    probe += [self.at[q["mem"]] + [s["b"]]] if s is q else []
                s = s.get("in")
        for _ in range(nprobe):
            m = r.choice(list(self.at))
            p = list(self.at[m]) + [self.key(k, .3) for k in KEYS[m]]
            if m == "pg":
                p[-1] = p[-1] + b4(r.choice([0, 1, 2]))
            x = r.random()
            if x < .2:
                p = p[:r.randint(0, len(p))]
            elif x < .3:
                p = p + [r.choice(BLOB)]
            elif x < .4:
                p = p[:r.randint(0, len(p) - 1)] + [tx(r.choice(NAMES))]
            probe.append(p)
        # everything else below what was asked for
        for q in reqs:
            ks = KEYS[q["mem"]]
            if ks and q["mem"] != "pg":
                probe += [self.at[q["mem"]] + [k] for k in r.sample(self.pool[ks[0]], min(3, len(self.pool[ks[0]])))]
        uniq = []
        for p in probe:
            if p not in uniq:
                uniq.append(p)
        return {"op": "ask", "reqs": reqs, "probe": uniq, "first": r.random() < .5}


def randoms(c, count, rng, steps, sha, weight):
    hs = []
    for _ in range(count):
        g = Group(rng)
        h = [g.new]
        for _ in range(rng.choice([0, 3, 10, 30])):
            h.append(g.change())
        for _ in range(steps):
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                h.append(g.change())
            h.append(dict(g.ask(), w8=weight))
        hs.append(h)
    c.add("TraceClient", ["client"] + (["sha"] if sha else []), hs)


def from_design(c, rows, rng, share):
    """Every content of the design, in the nested map, and every path looked up with a certificate for it."""
    hs = []
    for row in rows:
        if rng.random() > share:
            continue
        g = Group(rng, ["mm"] if rng.random() < .5 else ["mm", rng.choice(["sq", "nu", "ms"])])
        top = max([1] + [int(x.split(":")[0]) for x in row[0][1:].split(";") if x])
        outer = sorted(rng.sample(BLOB, 2 * max(top, 3) + 1))
        inner = [b4(x) for x in sorted(rng.sample(U32, 7))]
        h = [g.new]
        for part in [x for x in row[0][1:].split(";") if x]:
            a, es = part.split(":")
            a = outer[2 * int(a) - 1]
            h.append({"op": "sub", "mem": "mm", "keys": [a], "v": []})
            for e in [x for x in es.split(",") if x]:
                b, v = e.split("=")
                h.append({"op": "put", "mem": "mm", "keys": [a, inner[2 * int(b) - 1]], "v": b4(int(v))})
        body = h[1:]
        rng.shuffle(body)
        h[1:] = body
        p = g.at["mm"]
        qs = [[a] for a in outer] + [[a, b] for a in outer for b in inner]
        for q in rng.sample(qs, min(len(qs), tier(4, 40))):
            if len(q) == 1:
                req = rng.choice([{"how": "wit", "a": q[0]}, {"how": "in", "a": q[0], "in": {"how": "keys"}}])
            else:
                req = {"how": "in", "a": q[0], "in": {"how": "wit", "a": q[1]}}
            some = rng.sample(qs, 3)
            h.append({"op": "ask", "reqs": [dict(req, mem="mm")], "probe": [p + q, p + q + [[]]] + [p + x for x in some if x != q],
                      "first": False, "w8": 2})
        hs.append(h)
    c.add("TraceClient", ["client"], hs)
