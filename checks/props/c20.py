"""C20: roots and witnesses are determined by the history of changes alone."""
import json

from core import tier
from maps import *
import groups
import nested
import paged
import seqs
from props import c08
from props.c19 import Collect

READS = {"obs", "root", "sha", "shape", "wits", "krs", "vrs", "keys", "eget", "badcodec", "save", "dump", "nw", "eq",
         "get", "all", "last", "pwit", "lwit", "pmax", "pws", "perm", "wit"}


def text(o):
    return json.dumps(o, separators=(",", ":"), sort_keys=True)


def is_read(o):
    return o["op"] in READS


def questions(h, rng):
    """What the instances are asked: things that can be asked at any time."""
    new, m = h[0], h[0]["mach"]
    own = [o for o in h[1:] if is_read(o) and o["op"] not in ("badcodec", "perm")]
    codecs = [{"op": "save", "codec": x} for x in ("cbor", "candid")]
    if m == "map":
        n = (new["max"] - 1) // 2
        lo = 2 if new["kt"] == "String-empty" else 1
        ps = [q for q in points(n) if q >= lo]
        pr = sorted(sorted(rng.sample(ps, 2)) for _ in range(6))
        q = [{"op": "root", "first": rng.random() < .5}, {"op": "sha"}, {"op": "wits", "q": rng.sample(ps, min(len(ps), 9))},
             {"op": "keys"}, {"op": "krs", "q": pr}, {"op": "vrs", "q": pr}, {"op": "obs", "q": ps[:5]}]
        if new["kt"] in CODEC_KINDS and new["flavor"] == "map":
            q += codecs
    elif m == "seq":
        q = [{"op": "sha", "s": s} for s in range(1, new["slots"] + 1)] + [dict(x, s=1) for x in codecs] + \
            [{"op": "eq", "s": 1, "from": 2}]
    elif m == "nested":
        q = [{"op": "root", "first": rng.random() < .5}, {"op": "dump"}] + rng.sample(own, min(len(own), 4))
        if nested.NKINDS[new["kt"]][2]:
            q += codecs
    elif m == "paged":
        q = [{"op": "root", "first": rng.random() < .5}] + rng.sample(own, min(len(own), 6))
        if new["kt"] in paged.P_CODEC:
            q += codecs
    elif m == "group":
        q = [{"op": "root", "first": rng.random() < .5}] + rng.sample(own, min(len(own), 6))
    elif m == "prefix":
        q = [{"op": "root"}] + rng.sample(own, min(len(own), 5))
    rng.shuffle(q)
    return q


def replicate(h, rng, remote=True):
    """Instances that go through the changes of h, each at its own pace: the first is hardly
    ever asked, the second is read all the time, the others are in processes of their own."""
    new = h[0]
    start = 1
    if new["mach"] == "group":        # nothing can be asked before the group is built
        start = 1 + next((i for i, o in enumerate(h) if o["op"] == "build"), len(h))
    changes = [o for o in h[1:] if not is_read(o)]
    base = len([o for o in h[1:start] if not is_read(o)])
    noise = [o for o in h[start:] if is_read(o)] or [{"op": "root"}]
    qs = questions(h, rng)
    at = {p: text(rng.sample(qs, min(len(qs), rng.randint(2, 4)))) for p in range(base, len(changes) + 1)
          if rng.random() < .3 or p == len(changes)}
    insts = ["local", "local"] + (["remote"] if remote else [])
    lists = []
    for i in range(len(insts)):
        p_ask, p_read = [(.15, 0), (.9, .6), (.5, .1)][i]
        ops = []
        for n, c in enumerate(changes):
            ops.append({"op": "do", "i": i + 1, "c": text(c)})
            if n + 1 < base:
                continue
            while rng.random() < p_read:
                ops.append({"op": "read", "i": i + 1, "r": text(rng.choice(noise))})
            if n + 1 in at and (n + 1 == len(changes) or rng.random() < p_ask):
                ops.append({"op": "probe", "i": i + 1, "q": at[n + 1]})
        lists.append(ops)
    out = [{"op": "new", "mach": "replica", "base": text(new), "insts": insts}]
    # a random merge of what the instances do
    pos = [0] * len(lists)
    while any(pos[j] < len(lists[j]) for j in range(len(lists))):
        j = rng.choice([j for j in range(len(lists)) if pos[j] < len(lists[j])])
        k = rng.randint(1, 8)
        out += lists[j][pos[j]:pos[j] + k]
        pos[j] += k
    return out


def main(c):
    rng = rng_for("C20")
    every = lambda n: (lambda o, f, mir, rng: rng.sample(
        [{"op": "obs", "q": near(o.get("k", 2), n)}, {"op": "root", "first": True}, {"op": "wits", "q": near(o.get("k", 2), n)},
         {"op": "keys"}, {"op": "eget", "k": 2 * rng.randint(1, n)}, {"op": "krs", "q": [sorted([rng.randint(2, 2 * n), rng.randint(2, 2 * n)])]}],
        1) if rng.random() < .4 else [])
    c.designs_at_once([(("MC_Replica", dict(N=n, NV=nv, ReadsChange=False, TrackHash=True, ValueHash="<- Leaf", ValueTree="<- Leaf"),
                         ["Same", "Shown"]), dict(emit_const=None))
                       for n, nv in tier([(3, 2), (5, 1)], [(4, 2), (6, 1)])])
    # reads made while other reads are under way
    deep = lambda n: (lambda o, f, mir, rng: [{"op": "inside", "q": [rng.randint(2, 2 * n), rng.randint(2, 2 * n)]}] if rng.random() < .5 else [])
    for i in range(tier(16, 100)):
        kt = CODEC_KINDS[i % len(CODEC_KINDS)]
        c.add("TraceMap", ["inside"], [random_history(kt, 9, 40, rng, deep(9), codec="128" not in kt, p_rare=.1)])
    h = Collect(c)
    randoms(h, tier(40, 300), 60, rng, every, [], sizes=(5, 9, 20))
    for i in range(tier(19, 150)):
        kt = CODEC_KINDS[i % len(CODEC_KINDS)]
        h.hs.append(random_history(kt, 9, 50, rng, every(9), codec=True, p_rare=.1))
    h.hs += seqs.seq_randoms(tier(24, 200), 50, rng)
    paged.paged_randoms(h, ["get", "all", "last", "pwit", "lwit", "root"], tier(30, 200), 50, rng, [], codec=True)
    groups.group_randoms(h, tier(60, 400), rng, ["get", "root", "wit"], [])
    obs2 = lambda o, mir, rng, n: [{"op": "nw", "q": [nested.rand_sel(mir, mir.c, 0, n, rng) for _ in range(2)]}] if rng.random() < .3 else []
    h.hs += nested.nested_randoms(tier(27, 200), 50, rng, obs2, codec=True)
    h.hs += c08.randoms_p(["String", "Vec<u8>", "Box<[u8]>", "pair", "text-pair", "[u8;3]"], tier(18, 120), 50, rng)
    c.add("TraceReplica", [], [replicate(x, rng) for x in h.hs])
    c.run()
    return c.finish()
