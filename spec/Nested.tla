------------------------------- MODULE Nested -------------------------------
(***************************************************************************)
(* Collections inside collections, as their user sees them.  A structure   *)
(* has D levels of maps; the values of the innermost maps are plain values *)
(* (leaf = "val") or sequences (leaf = "seq").  Its contents are functions *)
(* of functions.                                                           *)
(***************************************************************************)
EXTENDS CertMap

(* What it exports: one entry per key, with the tokens of the inner level. *)
RECURSIVE NFull(_, _, _, _)
NFull(c, d, D, leaf) ==
  Show(c, [k \in DOMAIN c |-> IF d < D THEN NFull(c[k], d + 1, D, leaf)
                              ELSE IF leaf = "val" THEN c[k] ELSE Hidden])

HiddenAt(d, D) == IF d < D THEN HiddenSub ELSE Hidden
Keys0(c, S, d, D) == Show(c, [k \in S |-> HiddenAt(d, D)])
ValueAt(c, k, d, D, leaf) ==
  IF d < D THEN NFull(c[k], d + 1, D, leaf) ELSE IF leaf = "val" THEN c[k] ELSE Hidden

(* A witness requested by the selection s:                                 *)
(*   full; pruned; keys; kr/vr a b; w k [in: selection for the value].     *)
RECURSIVE Sel(_, _, _, _, _)
Sel(c, s, d, D, leaf) ==
  CASE s.t = "full" -> NFull(c, d, D, leaf)
    [] s.t = "pruned" -> HiddenSub
    [] s.t = "keys" -> Keys0(c, DOMAIN c, d, D)
    [] s.t = "kr" -> Keys0(c, InRange(c, s.a, s.b) \cup Ends(c, s.a, s.b), d, D)
    [] s.t = "vr" -> Show(c, [k \in InRange(c, s.a, s.b) \cup Ends(c, s.a, s.b) |->
                               IF k \in InRange(c, s.a, s.b) THEN ValueAt(c, k, d, D, leaf) ELSE HiddenAt(d, D)])
    [] s.t = "w" ->
         IF Has(c, s.k)
         THEN Show(c, [k \in {s.k} |->
                IF "in" \in DOMAIN s
                THEN IF s.in.t = "pruned" THEN HiddenAt(d, D)
                     ELSE IF d < D THEN Sel(c[k], s.in, d + 1, D, leaf)
                     ELSE ValueAt(c, k, d, D, leaf)
                ELSE ValueAt(c, k, d, D, leaf)])
         ELSE Keys0(c, LowerNbr(c, s.k) \cup UpperNbr(c, s.k), d, D)

(* The contents as nested lists of pairs. *)
RECURSIVE Dump(_, _, _)
Dump(c, d, D) ==
  LET ks == SortedKeys(c) IN
  [i \in 1..Len(ks) |-> <<ks[i], IF d < D THEN Dump(c[ks[i]], d + 1, D) ELSE c[ks[i]]>>]

(* ... and back. *)
RECURSIVE Build(_, _, _)
Build(items, d, D) ==
  IF items = <<>> THEN NoMap
  ELSE LET p == items[Len(items)]
           rest == Build(SubSeq(items, 1, Len(items) - 1), d, D)
       IN Put(rest, p[1], IF d < D THEN Build(p[2], d + 1, D) ELSE p[2])
=============================================================================
