"""Histories for groups."""
import itertools

from core import tier
from maps import rng_for

FIXED = {7: "map", 8: "seq", 9: "text", 10: "num", 11: "unit", 12: "group", 13: "paged"}
FREE = [1, 2, 3, 4, 5, 6] + list(range(14, 49))
KINDS = ["num", "text", "map", "map", "seq", "paged"]
NAMES = 60


def start(kind, rng):
    if kind in ("num", "text", "group"):
        return rng.randint(1, 500)
    if kind == "map":
        return [[2 * rng.randint(1, 4), rng.randint(1, 9)] for _ in range(rng.choice([0, 1, 3, 5]))]
    if kind == "seq":
        return [rng.randint(1, 9) for _ in range(rng.randint(0, 3))]
    return 0


def pick_type(rng, used):
    t = rng.choice([x for x in list(FIXED) + FREE if x not in used])
    return t, FIXED.get(t) or rng.choice(KINDS)


def act_for(t, kind, rng):
    o = {"op": "act", "ty": t}
    k, v = 2 * rng.randint(1, 4), rng.randint(1, 9)
    if kind in ("num", "text"):
        return dict(o, act="set", v=v)
    if kind == "map":
        return dict(o, **rng.choice([{"act": "ins", "k": k, "v": v}] * 3 + [{"act": "rem", "k": k}, {"act": "clear"}]))
    if kind == "seq":
        return dict(o, **rng.choice([{"act": "app", "v": v}] * 3 + [{"act": "clear"}]))
    if kind == "paged":
        return dict(o, act="ins", k=k, v=v)
    if kind == "group":
        return dict(o, **rng.choice([{"act": "ins", "k": k, "v": v}, {"act": "rem", "k": k}, {"act": "set", "v": v}]))
    return dict(o, act="none")


def part_for(kind, rng):
    r = [{"t": "pruned"}, {"t": "whole"}]
    a = rng.randint(1, 9)
    b = rng.randint(a, 9)
    if kind == "map":
        r = [{"t": "wit", "a": a}] * 3 + [{"t": "kr", "a": a, "b": b}, {"t": "vr", "a": a, "b": b}, {"t": "keys"}] + r
    elif kind == "paged":
        r = [{"t": "page", "a": a, "b": rng.randint(0, 2)}, {"t": "last", "a": a}] * 2 + r
    elif kind == "group":
        r = [{"t": "inner"}] + r
        h = {"t": "inner"}
        if rng.random() < .7:
            h["m"] = part_for("map", rng)
        if rng.random() < .7:
            h["n"] = {"t": rng.choice(["whole", "pruned"])}
        r += [h] * 3
    return rng.choice(r)


def request(t, kind, rng):
    return [t, {"t": "full"} if rng.random() < .5 else part_for(kind, rng)]


def wit(mem, chosen, rng, twice=False):
    reqs = [request(t, mem[t], rng) for t in chosen]
    if twice and chosen:
        t = rng.choice(chosen)
        reqs.append(request(t, mem[t], rng))
    rng.shuffle(reqs)
    return {"op": "wit", "reqs": reqs, "w8": 2}


def add_op(path, t, kind, rng):
    return {"op": "add", "path": path, "ty": t, "kind": kind, "x": start(kind, rng), "how": rng.choice(["string", ""])}


def group_sets(c, rng, what, judge):
    """Every set of paths and every refusal of the design."""
    inv = ["OrderFree", "WitnessInv"]
    for nl, d, mm, asc in tier([(2, 2, 3, False), (3, 2, 3, False), (3, 2, 5, True), (2, 3, 5, True), (7, 1, 5, True)],
                               [(2, 2, 4, False), (3, 2, 4, False), (3, 2, 6, True), (2, 3, 6, True), (9, 1, 6, True),
                                (2, 4, 4, True)]):
        rows = c.design("MC_Group", {"NL": nl, "Depth": d, "MaxMembers": mm, "Ascending": asc}, inv, emit=True)
        tried = {}
        for ps, p, ok in rows:
            ps = [x for x in ps.split(".") if x]
            tried.setdefault(tuple(sorted(ps)), []).append((tuple(ps), p, ok == "1"))
        hs = []
        for key in sorted(tried):
            if not key:
                continue
            # labels are spread over the names, in order
            names = sorted(rng.sample(range(1, NAMES + 1), nl))
            tr = lambda p: [names[int(x) - 1] for x in p]
            orders = sorted(set(o for o, _, _ in tried[key]))
            order = list(rng.choice(orders)) if not asc else rng.sample(key, len(key))
            h = [{"op": "new", "mach": "group"}]
            mem = {}
            for j, p in enumerate(order):
                t, kind = pick_type(rng, mem)
                h.append(add_op(tr(p), t, kind, rng))
                mem[t] = kind
            if "build" in judge:
                refused = sorted(set(p for _o, p, ok in tried[key] if not ok))
                for p in rng.sample(refused, min(len(refused), tier(2, 20))):
                    t, kind = pick_type(rng, mem)
                    h.append(add_op(tr(p), t, kind, rng))
                if rng.random() < .3:
                    h.append(add_op([rng.randint(1, 12)] * 3, *rng.choice(sorted(mem.items())), rng))
            h.append({"op": "build"})
            ts = sorted(mem)
            if "wit" in what:
                subsets = [s for r in range(len(ts) + 1) for s in itertools.combinations(ts, r)]
                for s in subsets if len(subsets) <= tier(8, 64) else rng.sample(subsets, tier(8, 40)):
                    h.append(wit(mem, list(s), rng))
            if "root" in what:
                h.append({"op": "root", "first": rng.random() < .5})
                h.append({"op": "perm", "order": rng.sample(range(len(ts)), len(ts))})
            for _ in range(2):
                t = rng.choice(ts)
                h.append(act_for(t, mem[t], rng))
                h += group_reads(mem, what, rng)
            hs.append(h)
        rng.shuffle(hs)
        c.add("TraceGroup", judge, hs[:tier(700, 20000)])


def group_reads(mem, what, rng, n=1):
    r = []
    ts = sorted(mem)
    for w in what:
        if w == "get":
            r.append({"op": "get", "ty": rng.choice(ts)})
        elif w == "root":
            r.append({"op": "root", "first": rng.random() < .5})
        elif w == "wit":
            for _ in range(n):
                r.append(wit(mem, rng.sample(ts, rng.randint(0, len(ts))), rng, rng.random() < .1))
    return r


def rand_path(paths, rng, deep):
    if paths and rng.random() < .55:
        base = rng.choice(paths)
        cut = rng.randint(0, len(base))
        p = base[:cut] + [rng.randint(1, NAMES) for _ in range(rng.randint(0, 2))]
    else:
        p = [rng.randint(1, NAMES) for _ in range(rng.randint(1, deep))]
    return p


def group_randoms(c, count, rng, what, judge):
    hs = []
    for i in range(count):
        h = [{"op": "new", "mach": "group"}]
        mem, paths = {}, []
        deep = rng.choice([1, 2, 3, 5] * 4 + [17, 40])
        many = rng.random() < .08
        if many and rng.random() < .5:
            deep = 1
        for _ in range(rng.choice([40, 60, 80] if many else [1, 3, 8, 14, 20])):
            if len(mem) == (48 if many else 16):
                break
            t, kind = pick_type(rng, mem)
            if mem and rng.random() < .04:
                t, kind = rng.choice(sorted(mem.items()))
            p = rand_path(paths, rng, deep) if not many or deep > 1 else [rng.randint(1, NAMES)]
            refused = not p or t in mem or any(p[:len(q)] == q or q[:len(p)] == p for q in paths)
            if refused and rng.random() < .6:
                continue
            h.append(add_op(p, t, kind, rng))
            if not refused:
                mem[t] = kind
                paths.append(p)
        if not mem:
            t, kind = pick_type(rng, mem)
            h.append(add_op([rng.randint(1, NAMES)], t, kind, rng))
            mem[t] = kind
        h.append({"op": "build"})
        for _ in range(tier(6 if many else 14, 40)):
            t = rng.choice(sorted(mem))
            if rng.random() < .7:
                h.append(act_for(t, mem[t], rng))
            h += group_reads(mem, what, rng, 2)
        if "root" in what:
            h.append({"op": "perm", "order": rng.sample(range(len(mem)), len(mem))})
        hs.append(h)
    c.add("TraceGroup", judge, hs)


def deep_groups(c, rng, judge_all):
    """Members at the end of very long paths."""
    n = tier(24000, 70000)
    shapes = [[[["a", n]], [["b", n], ["c", 1]], [["b", n], ["d", 1]]],
              [[["a", 1], ["b", n], ["c", 1]], [["a", 1], ["b", n], ["d", n]], [["a", 1], ["c", n]], [["b", n]]],
              [[["x", 70], ["y", 190], ["z", 10]], [["x", 70], ["y", 190], ["w", 40]], [["x", 69], ["v", 270]]]]
    for paths in shapes:
        k = len(paths)
        h = [{"op": "new", "mach": "deep", "paths": paths, "order": rng.sample(range(k), k), "w8": 2000}]
        asks = [[rng.choice([0, 1, 2]) for _ in range(k)] for _ in range(tier(2, 8))]
        asks += [[2 if j == i else 0 for j in range(k)] for i in range(k)]
        for i, s in enumerate(asks):
            if judge_all:
                h.append({"op": "set", "ty": i % k, "set": rng.randint(1, 200)})
                h.append({"op": "show", "all": True, "sel": []})
            else:
                h.append({"op": "show", "all": False, "sel": s})
        c.add("TraceDeep", [], [h])
