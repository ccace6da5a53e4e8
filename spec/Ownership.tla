----------------------------- MODULE Ownership ------------------------------
(***************************************************************************)
(* Which instances of keys and values a collection stores.  Every key and  *)
(* value handed over is one instance, named by a number that is never used *)
(* again.  An instance is stored, or it was returned to the caller, or it  *)
(* was released; the stored ones are named by                              *)
(*   a map:      own[k] = <<key instance, value instance>>                 *)
(*   a sequence: the list of its items' instances.                         *)
(* An operation on a map: [op, k, w] (w # 0: written through the reference *)
(* that the operation returned).                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

KeysOf(own) == {own[k][1] : k \in DOMAIN own}
ValsOf(own) == {own[k][2] : k \in DOMAIN own}
IdsOf(own) == KeysOf(own) \cup ValsOf(own)
(* Nothing is stored twice. *)
Once(own) == Cardinality(IdsOf(own)) = 2 * Cardinality(DOMAIN own)

(* Operations that make the collection anew. *)
Rebuilds == {"fromiter", "reload", "decode"}
(* Operations that put another value in the place of the one there is. *)
Replacing(op, w) == \/ op \in {"ins", "insw", "mod", "gmw", "egmw", "eimw", "eam"}
                    \/ op \in {"eoi", "eoiw", "eoik", "eod"} /\ w # 0
(* What an operation on a key that was present hands back, in order. *)
Handed(own, op, k) ==
  CASE op \in {"ins", "insw", "mod", "gmw", "egmw", "eimw", "eam", "rem", "erem"} -> <<own[k][2]>>
    [] op \in {"reme", "ereme"} -> own[k]
    [] OTHER -> <<>>

(* The instances after an operation: the key stays the one it was, and so  *)
(* does every value that the operation does not replace.                   *)
OwnOK(own, new, op, k, w) ==
  IF op \in Rebuilds THEN IdsOf(new) \cap IdsOf(own) = {}
  ELSE \A r \in DOMAIN new :
         IF r \notin DOMAIN own THEN new[r][1] \notin IdsOf(own) /\ new[r][2] \notin IdsOf(own)
         ELSE /\ new[r][1] = own[r][1]
              /\ IF r = k /\ Replacing(op, w) THEN new[r][2] \notin IdsOf(own) ELSE new[r][2] = own[r][2]

(* Sequences: what stays is a prefix; what is added is new. *)
Members(s) == {s[i] : i \in 1..Len(s)}
OnceS(s) == Cardinality(Members(s)) = Len(s)
Grows(s, t, all) == /\ Len(t) >= Len(s) /\ SubSeq(t, 1, Len(s)) = s
                    /\ \A i \in (Len(s) + 1)..Len(t) : t[i] \notin all
=============================================================================
