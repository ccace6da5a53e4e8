"""C13: paged witnesses prove a page's contents and which page is the last."""
from core import tier
from paged import *

JUDGE = ["pwit", "lwit", "root"]
WHAT = ["pwit", "lwit", "root"]


def main(c):
    rng = rng_for("C13")
    paged_walks(c, WHAT, rng, judge=JUDGE)
    paged_randoms(c, WHAT, tier(90, 600), tier(60, 200), rng, JUDGE, codec=True)
    paged_large(c, WHAT, rng, JUDGE)
    c.run()
    return c.finish()
