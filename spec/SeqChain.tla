------------------------------ MODULE SeqChain ------------------------------
(***************************************************************************)
(* The hash chain of a sequence: 32 zero bytes for no items, otherwise the *)
(* hash of the previous hash and the root hash of the last item.           *)
(***************************************************************************)
EXTENDS HashTree

Zero == <<"Z">>
Step(h, x) == <<"S", h, Leaf(x)>>
RECURSIVE ChainFrom(_, _)
ChainFrom(h, s) == IF s = <<>> THEN h ELSE ChainFrom(Step(h, Head(s)), Tail(s))
Chain(s) == ChainFrom(Zero, s)
=============================================================================
