----------------------------- MODULE MC_Replica -----------------------------
(***************************************************************************)
(* Two instances of the tree of LLRB.tla.  Both make the same changes; the *)
(* second may be read at any time, which brings its cached hashes up to    *)
(* date and ends the loan of a reference, as reads of the code do.  All    *)
(* that either ever shows is the same.                                     *)
(***************************************************************************)
EXTENDS LLRB

CONSTANTS N, NV,
          ReadsChange   \* TRUE: a read that is not harmless (it rotates the root), to see it told apart

VARIABLES a, b     \* <<tree, lent>> of the instances
vars == <<a, b>>

Keys == {2 * i : i \in 1..N}
Vals == 1..NV
Points == 1..(2*N + 1)
Cur(s) == Refresh(s[1], s[2])

Both(f(_), lent(_)) == a' = <<f(a), lent(a)>> /\ b' = <<f(b), lent(b)>>

Insert(k, v) == LET f(s) == TreeInsert(Cur(s), k, v)  g(s) == k IN Both(f, g)
InsertWrite(k, v, w) == LET f(s) == RawWrite(TreeInsert(Cur(s), k, v), k, w)  g(s) == k IN Both(f, g)
Delete(k) == LET f(s) == IF Present(s[1], k) THEN TreeDelete(Cur(s), k) ELSE Cur(s)  g(s) == 0 IN Both(f, g)
Modify(k, v) == LET f(s) == TreeModify(Cur(s), k, v)  g(s) == 0 IN Both(f, g)
GetMutWrite(k, v) == LET f(s) == IF Present(s[1], k) THEN RawWrite(Cur(s), k, v) ELSE Cur(s)
                         g(s) == IF Present(s[1], k) THEN k ELSE 0 IN Both(f, g)
Clear == LET f(s) == Null  g(s) == 0 IN Both(f, g)
Read == /\ a' = a
        /\ b' = <<IF ReadsChange /\ b[1] # Null /\ Red(L(b[1])) THEN RotateRight(Cur(b)) ELSE Cur(b), 0>>

Init == a = <<Null, 0>> /\ b = <<Null, 0>>
Next == \/ \E k \in Keys : Delete(k) \/ \E v \in Vals : Insert(k, v) \/ Modify(k, v) \/ GetMutWrite(k, v)
        \/ \E k \in Keys, v, w \in Vals : InsertWrite(k, v, w)
        \/ Read \/ Clear
Spec == Init /\ [][Next]_vars

(* Everything that is given out is computed from the refreshed tree, but for the colours. *)
Same == Cur(a) = Cur(b)
Shown == LET x == Cur(a)  y == Cur(b) IN
  /\ RootHash(x) = RootHash(y) /\ InOrder(a[1]) = InOrder(b[1])
  /\ FullWitness(x, TRUE) = FullWitness(y, TRUE)
  /\ \A q \in Points : TreeWitness(x, q) = TreeWitness(y, q)
=============================================================================
