------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* What a collection may hold after code of its caller panicked in the     *)
(* middle of a call.  old: the contents before the call, new: those the    *)
(* call would have left.  Shape: "flat" (key -> value), "seqs" (key ->     *)
(* sequence), "maps" (key -> (key -> value)), "seq".                       *)
(***************************************************************************)
EXTENDS CertMap

(* Of a sequence that was extended there is as much as there was time for. *)
CutSeq(old, new, now) ==
  \/ now = old \/ now = new
  \/ Len(old) <= Len(now) /\ Len(now) <= Len(new) /\ SubSeq(new, 1, Len(old)) = old /\ now = SubSeq(new, 1, Len(now))
(* Of a map that was being rearranged entries may be lost; none is made up. *)
CutFlat(old, new, now) ==
  \A k \in DOMAIN now : \/ Has(old, k) /\ now[k] = old[k]
                        \/ Has(new, k) /\ now[k] = new[k]
At(m, k, none) == IF Has(m, k) THEN m[k] ELSE none
Cut(shape, old, new, now) ==
  CASE shape = "seq" -> CutSeq(old, new, now)
    [] shape = "flat" -> CutFlat(old, new, now)
    [] shape = "seqs" -> \A k \in DOMAIN now : CutSeq(At(old, k, <<>>), At(new, k, <<>>), now[k])
    [] shape = "maps" -> \A k \in DOMAIN now : CutFlat(At(old, k, NoMap), At(new, k, NoMap), now[k])

(* A closure that panics has either made its change or not; the call does   *)
(* nothing after it.                                                        *)
Closed(old, new, boom, now) == now = (IF boom = "after" THEN new ELSE old)
=============================================================================
