----------------------------- MODULE HashBytes -----------------------------
(* The hash of a tree down to the bytes; pruned subtrees carry theirs.     *)
EXTENDS HashTree, Sha256

RECURSIVE HashBytes(_)
HashBytes(t) ==
  CASE t[1] = "E" -> Sha256(PreEmpty)
    [] t[1] = "F" -> Sha256(PreFork(HashBytes(t[2]), HashBytes(t[3])))
    [] t[1] = "L" -> Sha256(PreLabeled(t[2], HashBytes(t[3])))
    [] t[1] = "V" -> Sha256(PreLeaf(t[2]))
    [] t[1] = "P" -> t[2]
=============================================================================
