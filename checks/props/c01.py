"""C01: the certified map behaves as an ordered map under every history."""
from core import tier
from maps import *


def main(c):
    rng = rng_for("C01")
    judge = {"ret", "obs", "reload"}

    def observe(n):
        def f(o, first, mir, rng):
            return [{"op": "obs", "q": points(n) if first else near(o.get("k", 2), n)}]
        return f

    shapes(c, tier(10, 12), rng, observe, judge)
    lending(c, tier(4, 5), rng, observe, judge)
    randoms(c, tier(80, 600), tier(200, 500), rng, observe, judge)
    c.add("TraceMap", judge, [random_history("bool", 2, 80, rng, lambda o, f, m, r: [{"op": "obs", "q": [2, 4]}])])
    large(c, tier(4, 24), tier(600, 2500), rng,
          lambda o, n, mir, rng: [{"op": "obs", "q": near(o["k"], n) + [2, 2 * n], "w8": 30}], judge)
    huges(c, judge, rng, lambda o, n, mir, rng: [{"op": "obs", "q": near(o["k"], n) + [2, 2 * n], "w8": 400}])
    c.run()
    return c.finish()
