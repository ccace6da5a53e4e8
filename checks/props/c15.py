"""C15: a group witness reveals exactly the requested members and verifies."""
from core import tier
from groups import *

JUDGE = ["wit"]
WHAT = ["wit"]


def main(c):
    rng = rng_for("C15")
    group_sets(c, rng, WHAT, JUDGE)
    group_randoms(c, tier(200, 1500), rng, WHAT, JUDGE)
    deep_groups(c, rng, False)
    c.run()
    return c.finish()
