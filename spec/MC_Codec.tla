------------------------------ MODULE MC_Codec ------------------------------
(***************************************************************************)
(* Saving and loading a map: what is written are its entries in ascending  *)
(* order; reading inserts the entries one by one into an empty tree, as    *)
(* they come.  Input that was not written by the map may list keys in any  *)
(* order and more than once.                                               *)
(***************************************************************************)
EXTENDS LLRB, CSV

CONSTANTS N, NV,     \* keys, values
          MaxIn,     \* length of the input
          OutFile

VARIABLES t, m
vars == <<t, m>>

Keys == {2 * i : i \in 1..N}
Vals == 1..NV
Inputs == UNION {[1..n -> Keys \X Vals] : n \in 0..MaxIn}

RECURSIVE Load(_, _)
Load(tree, s) == IF s = <<>> THEN tree ELSE Load(TreeInsert(tree, s[1][1], s[1][2]), Tail(s))
Decode(s) == Load(Null, s)
Encode(tree) == InOrder(tree)

(* What any reader of a dictionary makes of the input: the last value of a key. *)
Meaning(s) == [k \in {s[i][1] : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i][1] = k /\ \A j \in (i + 1)..Len(s) : s[j][1] # k][2]]

Init == t = Null /\ m = NoMap

RECURSIVE Enc(_)
Enc(x) == IF x = Null THEN "" ELSE
  "(" \o Enc(L(x)) \o ToString(K(x)) \o (IF x[5] THEN "r" ELSE "b") \o
  (IF NV > 1 THEN ToString(Vl(x)) ELSE "") \o Enc(R(x)) \o ")"
RECURSIVE EncIn(_)
EncIn(s) == IF s = <<>> THEN "" ELSE ToString(s[1][1]) \o "." \o ToString(s[1][2]) \o ";" \o EncIn(Tail(s))
Emit(op, k, v, w) ==
  IF OutFile = "" THEN TRUE
  ELSE CSVWrite("%1$s#%2$s#%3$s#%4$s#%5$s#%6$s", <<Enc(t), op, k, v, w, Enc(t')>>, OutFile)

Insert(k, v) == t' = TreeInsert(t, k, v) /\ m' = Put(m, k, v) /\ Emit("ins", k, v, 0)
Delete(k) == Has(m, k) /\ t' = TreeDelete(t, k) /\ m' = Del(m, k) /\ Emit("rem", k, 0, 0)
Reload == t' = Decode(Encode(t)) /\ m' = m /\ Emit("reload", 0, 0, 0)
Input(s) == t = Null /\ t' = Decode(s) /\ m' = Meaning(s) /\ Emit("decode", EncIn(s), 0, 0)

Next == \/ \E k \in Keys : Delete(k) \/ \E v \in Vals : Insert(k, v)
        \/ Reload
        \/ \E s \in Inputs : Input(s)
Spec == Init /\ [][Next]_vars

Refines     == Contents(t) = m
Structure   == Ordered(t) /\ RedBlack(t)
HashCurrent == CacheOK(t) /\ RootHash(t) = Reconstruct(FullWitness(t, TRUE))
Encoding    == Encode(t) = Pairs(m) /\ Meaning(Encode(t)) = m
(* The loaded tree depends on the contents only, and loading is stable. *)
Canonical   == LET d == Decode(Pairs(m)) IN Decode(Encode(t)) = d /\ Decode(Encode(d)) = d
=============================================================================
