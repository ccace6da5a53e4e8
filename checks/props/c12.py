"""C12: a paged map splits each key's items into full pages in insertion order."""
from core import tier
from paged import *

JUDGE = ["page", "last"]
WHAT = ["get", "all", "last"]


def main(c):
    rng = rng_for("C12")
    paged_walks(c, WHAT, rng, judge=JUDGE)
    paged_randoms(c, WHAT, tier(90, 600), tier(80, 250), rng, JUDGE, codec=True)
    paged_large(c, WHAT, rng, JUDGE)
    c.run()
    return c.finish()
