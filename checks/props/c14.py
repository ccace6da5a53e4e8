"""C14: a group certifies every member under its own path."""
from core import tier
from groups import *

JUDGE = ["build", "member", "root"]
WHAT = ["get", "root"]


def main(c):
    rng = rng_for("C14")
    group_sets(c, rng, WHAT, JUDGE)
    group_randoms(c, tier(200, 1500), rng, WHAT, JUDGE)
    deep_groups(c, rng, True)
    c.run()
    return c.finish()
