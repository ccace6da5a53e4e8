"""C23: whatever a client looks up in a certificate, the answer is true."""
from client import from_design, randoms
from core import tier
from maps import rng_for


def main(c):
    rng = rng_for("C23")
    inv = ["NeverFooled", "Answered"]
    rows = []
    for labs, inner, vals in tier([(2, 2, {1, 2}), (3, 2, {1})], [(2, 2, {1, 2}), (3, 2, {1, 2})]):
        rows += c.design("MC_Client", {"Labs": labs, "Inner": inner, "Vals": vals, "Sorted": True}, inv, emit=True)
    from_design(c, rows, rng, 1)
    randoms(c, tier(500, 6000), rng, 12, False, 3)
    randoms(c, tier(60, 1500), rng, 6, True, 10)
    c.run()
    return c.finish()
