"""C11: a sequence is a list, its hash the chain over the items."""
from core import tier
from seqs import *

INV = ["Refines", "HashOfItems", "Injective", "ZeroOnlyEmpty"]


def main(c):
    rng = rng_for("C11")
    for n, v in tier([(4, 2), (3, 3)], [(5, 2), (4, 3)]):
        rows = c.design("MC_Seq", {"MaxLen": n, "NV": v}, INV, emit=True)
        c.add("TraceSeq", ["seq", "reload"], seq_walks(rows, rng, codec=True))
    c.add("TraceSeq", ["seq", "reload"], seq_randoms(tier(192, 1200), tier(180, 400), rng))
    c.add("TraceSeq", ["seq", "reload"], seq_bytewise(tier(24, 240), rng))
    c.add("TraceSeq", ["seq", "reload"], seq_large(tier(4, 16), tier(600, 3000), rng))
    c.add("TraceSeq", ["seq", "reload"], seq_peeks(tier(60, 400), rng, EDGES))
    c.add("TraceSeq", ["seq", "reload"], seq_peeks(tier(2, 8), rng, [10_000, 65_535, 65_536, 65_537]))
    c.run()
    return c.finish()
