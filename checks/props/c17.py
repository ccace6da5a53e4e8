"""C17: every supported value and key type has one canonical encoding."""
import math

from core import tier
from maps import rng_for

WRAPS = ["", "box", "rc", "arc", "nn", "boxrc", "arcbox", "rcarcbox", "nnbox"]
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}
LONG = [2**p + d for p in range(9, 17) for d in (-1, 0, 1)] + [3000, 70_001]
CHARS = [0, 1, 65, 97, 127, 128, 233, 2047, 2048, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]


def num(x):
    return [1 if x < 0 else 0, [int(c) for c in str(abs(x))]]


def int_values(ty, rng, n):
    b = BITS[ty]
    lo, hi = (0, 2**b - 1) if ty[0] == "u" else (-2**(b - 1), 2**(b - 1) - 1)
    v = {lo, hi, 0, 1, -1, 0x0102030405060708090a0b0c0d0e0f10 >> (128 - b)}
    for k in range(b):
        for d in (-1, 0, 1):
            v |= {2**k + d, -(2**k) + d}
    for k in range(0, b, 8):
        for x in (1, 0x7f, 0x80, 0xff, rng.randrange(256)):
            v |= {x << k, -(x << k), (x << k) | rng.getrandbits(k) if k else x}
    while len(v) < n:
        v.add(rng.randint(lo, hi))
        v.add(rng.randint(-300, 70000))
    return [num(x) for x in sorted(v) if lo <= x <= hi]


def float_values(ty, rng, n):
    p, emin, emax = (24, -149, 104) if ty == "f32" else (53, -1074, 971)
    quiet = 1 << (p - 2)
    v = [[s, 1, [0], 0] for s in (0, 1)] + [[s, 0, [0], 0] for s in (0, 1)] + [[s, 2, num(quiet + d)[1], 0] for s in (0, 1) for d in (0, 1, 12345)]
    for s in (0, 1):
        for m in (1, 2, 3, 5, 10, 255, 256, 257, 2**(p - 1), 2**p - 1, 2**(p - 1) + 1):
            for e in (emin, emin + 1, emax - 1, emax, 0, 1, -1, -(p - 1), -p, -4, emin + p):
                v.append([s, 0, num(m)[1], e])
    while len(v) < n:
        r = rng.random()
        if r < .5:
            v.append([rng.randint(0, 1), 0, num(rng.getrandbits(rng.randint(1, p)))[1], rng.randint(emin, emax)])
        else:                                           # ordinary decimals: 0.1, 3.14, 1e9
            x = rng.choice([rng.randint(0, 10**6) / 100, rng.random(), 10.0**rng.randint(-12, 12)])
            if ty == "f32":
                import struct
                x = struct.unpack("f", struct.pack("f", x))[0]
            m, e = math.frexp(x)
            v.append([rng.randint(0, 1), 0, num(int(m * 2**p))[1], e - p])
    return v


def texts(rng, n):
    v = [[]] + [[c] for c in CHARS] + [[a, b] for a in CHARS for b in CHARS]
    v += [[97] * k for k in (3, 4, 7, 8, 9, 15, 16, 31, 32, 33, 55, 56, 63, 64, 65, 127, 128, 255, 256, 257, 1000)]
    v += [[97] * k + [0] for k in range(8)] + [[97] * k + [c] + [98] * 3 for k in range(5) for c in (0, 32, 10, 233)]
    while len(v) < n:
        k = rng.choice([1, 2, 3, 5, 8, 20, 60])
        v.append([rng.choice(CHARS) if rng.random() < .5 else rng.choice([rng.randint(0, 0xd7ff), rng.randint(0xe000, 0x10ffff)])
                  for _ in range(k)])
    return v


def blobs(rng, n, sizes=None):
    v = []
    for k in sizes or [0, 1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 33, 55, 56, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1024, 4096]:
        v += [[0] * k, [255] * k, [(i * 7 + 1) % 256 for i in range(k)], [0] * (k - 1) + [1] if k else [],
              [1] + [0] * (k - 1) if k else [], [rng.randrange(256) for _ in range(k)]]
    while len(v) < n:
        v.append([rng.randrange(256) for _ in range(rng.choice(sizes or [1, 2, 3, 5, 9, 20, 70]))])
    return v


def main(c):
    rng = rng_for("C17")
    c.designs_at_once([(("MC_Encode", {"Kind": k, "W": w, "Signed": s}, ["Good"]), {"emit_const": None}) for k, w, s in [
        ("int", 2, False), ("int", 2, True), ("nat", 1, False), ("float", 2, True), ("text", tier(3, 4), False),
        ("int", 1, False), ("int", 1, True), ("float", 1, True)]])
    hs = []

    def enc(ty, vals, size=200, every=True):
        """All values without a wrapper, and each through one or (`every') all the wrappers."""
        for j in range(0, len(vals), size):
            part = vals[j:j + size]
            h = [{"op": "new", "mach": "encode"}, {"op": "enc", "ty": ty, "wrap": "", "vals": part, "w8": len(part) // 4 + 1}]
            for w in WRAPS[1:]:
                some = part if every and tier(len(part) < 60, True) else rng.sample(part, max(1, len(part) // 8))
                h.append({"op": "enc", "ty": ty, "wrap": w, "vals": some, "w8": len(some) // 4 + 1})
            hs.append(h)
    for ty in BITS:
        enc(ty, int_values(ty, rng, tier(400, 4000)))
    for ty, lo, hi in [("u8", 0, 255), ("i8", -128, 127), ("u16", 0, 65535), ("i16", -32768, 32767)]:
        for a in range(lo, hi + 1, 4096):
            n = min(4096, hi + 1 - a)
            hs.append([{"op": "new", "mach": "encode"}, {"op": "range", "ty": ty, "wrap": "", "from": a, "n": n, "w8": n // 8}])
    for w in WRAPS[1:]:
        hs.append([{"op": "new", "mach": "encode"}] + [{"op": "range", "ty": ty, "wrap": w, "from": a, "n": 256, "w8": 32}
                                                        for ty, a in (("u8", 0), ("i8", -128), ("u16", 128), ("i16", -128))])
    for ty in ("f32", "f64"):
        enc(ty, float_values(ty, rng, tier(800, 8000)))
    enc("bool", [0, 1])
    enc("nat", int_values("u128", rng, 300) + [num(10**k + d) for k in (38, 39, 77, 78, 100) for d in (-1, 0, 1)]
        + [num(2**k + d) for k in (128, 256, 512) for d in (-1, 0)])
    t = texts(rng, tier(500, 4000))
    enc("string", t)
    enc("str", t)
    b = blobs(rng, tier(300, 2000))
    enc("bytes", b)
    enc("slice", b)
    enc("boxslice", b)
    # long ones: the lengths at which a counter of the length might overflow
    for k in LONG:
        x = [k & 127] * (k - 1)
        for ty in ("bytes", "slice", "boxslice", "string", "str"):
            hs.append([{"op": "new", "mach": "encode"}]
                      + [{"op": "enc", "ty": ty, "wrap": w, "vals": [x + [1 + k % 5], [0] + x], "w8": k // 40} for w in ("", rng.choice(WRAPS[1:]))])
    for k in (300, 4000):
        for cs in ([233], [0xffff, 65], [0x10ffff]):
            t = (cs * k)[:k]
            for ty in ("string", "str"):
                hs.append([{"op": "new", "mach": "encode"}, {"op": "enc", "ty": ty, "wrap": rng.choice(WRAPS), "vals": [t, t + [1]], "w8": k // 10}])
    for k in range(1, 33):
        v = blobs(rng, 12, [k]) + [[x if i == j else 0 for i in range(k)] for j in range(k) for x in (1, 128, 255)]
        enc("array", v, every=k in (1, 4, 32))
    enc("principal", blobs(rng, 150, list(range(0, 30))) + [[4], [0, 0, 0, 0, 0, 0, 0, 1, 1, 1], [7] * 28 + [2]])
    hs.append([{"op": "new", "mach": "encode"}] + [{"op": "wrap", "n": n} for n in (0, 1, 2, 3, 7, 40)])
    c.add("TraceEncode", {"enc"}, hs)
    c.run()
    return c.finish()
