----------------------------- MODULE MC_Nested ------------------------------
(***************************************************************************)
(* A map of maps, both levels with cached hashes and lent references.      *)
(* An inner map is changed through a reference lent by the outer one       *)
(* (get_mut, entries: no outer hash is recomputed until the next use) or   *)
(* inside a modify closure (the outer path is rehashed at once).           *)
(***************************************************************************)
EXTENDS Nested, CSV

CONSTANTS NO, NI, NV,    \* outer keys, inner keys, values
          OutFile

Inn == INSTANCE LLRB WITH TrackHash <- TRUE, ValueHash <- Leaf, ValueTree <- Leaf
(* The value of an outer node: the inner tree and the reference it lent.   *)
InCur(v)  == Inn!Refresh(v[1], v[2])
InHash(v) == Inn!RootHash(InCur(v))
InTree(v) == Inn!FullWitness(InCur(v), TRUE)
Out == INSTANCE LLRB WITH TrackHash <- TRUE, ValueHash <- InHash, ValueTree <- InTree

VARIABLES t, lent, m
vars == <<t, lent, m>>

OKeys == {2 * i : i \in 1..NO}
IKeys == {2 * i : i \in 1..NI}
Vals == 1..NV
Cur == Out!Refresh(t, lent)

Init == t = <<>> /\ lent = 0 /\ m = NoMap

RECURSIVE EncI(_), EncO(_)
EncI(x) == IF x = <<>> THEN "" ELSE
  "(" \o EncI(x[3]) \o ToString(x[1]) \o (IF x[5] THEN "r" ELSE "b") \o ToString(x[2]) \o EncI(x[4]) \o ")"
EncO(x) == IF x = <<>> THEN "" ELSE
  "(" \o EncO(x[3]) \o ToString(x[1]) \o (IF x[5] THEN "r" ELSE "b") \o
  "[" \o EncI(x[2][1]) \o "." \o ToString(x[2][2]) \o "]" \o EncO(x[4]) \o ")"
EncS(x, n) == EncO(x) \o "." \o ToString(n)
Emit(op, k, j, v) ==
  IF OutFile = "" THEN TRUE
  ELSE CSVWrite("%1$s#%2$s#%3$s#%4$s#%5$s#%6$s", <<EncS(t, lent), op, k, j, v, EncS(t', lent')>>, OutFile)

(* Changes of an inner map: <<tree, lent>> to <<tree, lent>>, and of its contents. *)
InIns(v, j, x) == <<Inn!TreeInsert(InCur(v), j, x), j>>
InRem(v, j) == <<IF Inn!Present(v[1], j) THEN Inn!TreeDelete(InCur(v), j) ELSE InCur(v), 0>>
InGmw(v, j, x) == IF Inn!Present(v[1], j) THEN <<Inn!RawWrite(InCur(v), j, x), j>> ELSE <<InCur(v), 0>>
InDo(op, v, j, x) ==
  CASE op = "ins" -> InIns(v, j, x) [] op = "rem" -> InRem(v, j) [] op = "gmw" -> InGmw(v, j, x)
    [] op = "clear" -> <<<<>>, 0>>
AbsDo(op, c, j, x) ==
  CASE op = "ins" -> Put(c, j, x) [] op = "rem" -> Del(c, j)
    [] op = "gmw" -> (IF Has(c, j) THEN Put(c, j, x) ELSE c) [] op = "clear" -> NoMap

OuterIns(k, j) ==      \* insert an empty inner map (j = 0) or one with one entry
  LET v == IF j = 0 THEN <<<<>>, 0>> ELSE InIns(<<<<>>, 0>>, j, 1) IN
  /\ t' = Out!TreeInsert(Cur, k, v)
  /\ lent' = k
  /\ m' = Put(m, k, IF j = 0 THEN NoMap ELSE Put(NoMap, j, 1))
  /\ Emit("oins", k, j, 0)
OuterRem(k) ==
  /\ Has(m, k)
  /\ t' = Out!TreeDelete(Cur, k) /\ lent' = 0 /\ m' = Del(m, k)
  /\ Emit("orem", k, 0, 0)
Lent(op, k, j, x) ==
  /\ Has(m, k)
  /\ LET v == Out!Lookup1(Cur, k)[2] IN t' = Out!RawWrite(Cur, k, InDo(op, v, j, x))
  /\ lent' = k
  /\ m' = Put(m, k, AbsDo(op, m[k], j, x))
  /\ Emit("g" \o op, k, j, x)
Modified(op, k, j, x) ==
  /\ Has(m, k)
  /\ LET v == Out!Lookup1(Cur, k)[2] IN t' = Out!TreeModify(Cur, k, InDo(op, v, j, x))
  /\ lent' = 0
  /\ m' = Put(m, k, AbsDo(op, m[k], j, x))
  /\ Emit("m" \o op, k, j, x)
Read ==
  /\ lent # 0 /\ t' = Cur /\ lent' = 0 /\ UNCHANGED m
  /\ Emit("read", 0, 0, 0)

Next == \/ \E k \in OKeys : \/ OuterRem(k) \/ OuterIns(k, 0)
                            \/ \E j \in IKeys : OuterIns(k, j)
        \/ \E k \in OKeys, op \in {"ins", "gmw"}, j \in IKeys, x \in Vals : Lent(op, k, j, x) \/ Modified(op, k, j, x)
        \/ \E k \in OKeys, j \in IKeys : Lent("rem", k, j, 0) \/ Modified("rem", k, j, 0)
        \/ \E k \in OKeys : Lent("clear", k, 0, 0) \/ Modified("clear", k, 0, 0)
        \/ Read
Spec == Init /\ [][Next]_vars

Abs(x) == LET c == Out!Contents(x) IN [k \in DOMAIN c |-> Inn!Contents(c[k][1])]
Refines == Abs(t) = m
Structure == Out!Ordered(t) /\ Out!RedBlack(t) /\
             \A k \in DOMAIN m : LET v == Out!Lookup1(t, k)[2] IN Inn!Ordered(v[1]) /\ Inn!RedBlack(v[1])
HashCurrent == Out!CacheOK(Cur)

Root == Out!RootHash(Cur)
Good(w, exp) == Reconstruct(w) = Root /\ NTokens(w, 2) = exp
WitnessInv ==
  /\ Good(Out!FullWitness(Cur, TRUE), NFull(m, 1, 2, "val"))
  /\ \A k \in 1..(2*NO + 1) :
       IF Has(m, k)
       THEN LET v == InCur(Out!Lookup1(Cur, k)[2])
                At(w) == Out!NestedWitness(Cur, k, w)
            IN /\ \A j \in 1..(2*NI + 1) :
                    Good(At(Inn!TreeWitness(v, j)), Sel(m, [t |-> "w", k |-> k, in |-> [t |-> "w", k |-> j]], 1, 2, "val"))
               /\ Good(At(Inn!FullWitness(v, FALSE)), Sel(m, [t |-> "w", k |-> k, in |-> [t |-> "keys"]], 1, 2, "val"))
               /\ \A a \in 1..(2*NI + 1) : \A b \in a..(2*NI + 1) :
                    Good(At(Inn!TreeValueRange(v, a, b)),
                         Sel(m, [t |-> "w", k |-> k, in |-> [t |-> "vr", a |-> a, b |-> b]], 1, 2, "val"))
       ELSE Good(Out!AbsenceWitness(Cur, k), Sel(m, [t |-> "w", k |-> k], 1, 2, "val"))
=============================================================================
