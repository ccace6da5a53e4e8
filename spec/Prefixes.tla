------------------------------ MODULE Prefixes ------------------------------
(***************************************************************************)
(* Prefix queries at the level of the user.  tab[k] is what key k consists *)
(* of: the bytes of a byte-string key, the fields of a composite one.  A   *)
(* prefix is the head of such a sequence.                                  *)
(***************************************************************************)
EXTENDS CertMap

RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) ==      \* -1, 0, 1
  CASE i > Len(a) /\ i > Len(b) -> 0
    [] i > Len(a) -> -1
    [] i > Len(b) -> 1
    [] a[i] < b[i] -> -1
    [] a[i] > b[i] -> 1
    [] OTHER -> LexFrom(a, b, i + 1)
Lex(a, b) == LexFrom(a, b, 1)
StartsWith(a, p) == Len(a) >= Len(p) /\ SubSeq(a, 1, Len(p)) = p

WithPrefix(m, tab, p) == {k \in DOMAIN m : StartsWith(tab[k], p)}
Before(m, tab, p) == {k \in DOMAIN m : Lex(tab[k], p) < 0}
After(m, tab, p)  == {k \in DOMAIN m : Lex(tab[k], p) > 0 /\ ~StartsWith(tab[k], p)}
Greatest(S) == IF S = {} THEN {} ELSE {Max(S)}
Least1(S)   == IF S = {} THEN {} ELSE {Min(S)}

PrefixWitness(m, tab, p) ==
  Disclose(m, WithPrefix(m, tab, p) \cup Greatest(Before(m, tab, p)) \cup Least1(After(m, tab, p)), {})
(* When the prefix itself is a key, that key closes the witness off on the *)
(* left as well.                                                           *)
PrefixWitnessExact(m, tab, p) ==
  Disclose(m, WithPrefix(m, tab, p) \cup Least1(After(m, tab, p)), {})
ExactKey(m, tab, p) == \E k \in DOMAIN m : tab[k] = p

MaxOf(m, tab, p) == IF WithPrefix(m, tab, p) = {} THEN 0 ELSE Max(WithPrefix(m, tab, p))
=============================================================================
