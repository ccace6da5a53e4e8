------------------------------- MODULE CertMap -------------------------------
(***************************************************************************)
(* The certified map as its user sees it: contents (a finite function from *)
(* keys to values), the results of operations, and what each kind of       *)
(* witness discloses.  Nothing here depends on the shape of the tree.      *)
(* Keys are even numbers, so that odd numbers are query points that fall   *)
(* below, between and above them.                                          *)
(***************************************************************************)
EXTENDS HashTree, FiniteSetsExt, SequencesExt

NoMap == << >>   \* the empty function
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k)    == [x \in DOMAIN m \ {k} |-> m[x]]
Has(m, k)    == k \in DOMAIN m

LT(a, b) == a < b
Sorted(S) == SetToSortSeq(S, LT)
SortedKeys(m) == Sorted(DOMAIN m)
Pairs(m) == LET ks == SortedKeys(m) IN [i \in 1..Len(ks) |-> <<ks[i], m[ks[i]]>>]

Below(m, q) == {k \in DOMAIN m : k < q}
Above(m, q) == {k \in DOMAIN m : k > q}
Greater(a, b) == IF a > b THEN a ELSE b
Smaller(a, b) == IF a < b THEN a ELSE b
LowerNbr(m, q) == LET S == Below(m, q) IN IF S = {} THEN {} ELSE {FoldSet(Greater, CHOOSE x \in S : TRUE, S)}
UpperNbr(m, q) == LET S == Above(m, q) IN IF S = {} THEN {} ELSE {FoldSet(Smaller, CHOOSE x \in S : TRUE, S)}

(* Disclose the keys k in DOMAIN shown, each with shown[k].                *)
ShowAll(m, shown) ==
  LET ks == SortedKeys(m)  ss == Sorted(DOMAIN shown)
      next(acc, k) ==                              \* <<how many of ss are listed, the list>>
        IF acc[1] < Len(ss) /\ k = ss[acc[1] + 1] THEN <<acc[1] + 1, Append(acc[2], <<k, shown[k]>>)>>
        ELSE <<acc[1], JoinTokens(acc[2], <<Gap>>)>>
  IN FoldLeft(next, <<0, <<>>>>, ks)[2]
(* The same from the keys that are shown: quicker when they are few. *)
ShowFew(m, shown) ==
  LET ks == Sorted(DOMAIN shown)  n == Len(ks)
      between(i) == IF \E k \in DOMAIN m : (i = 0 \/ ks[i] < k) /\ (i = n \/ k < ks[i + 1]) THEN <<Gap>> ELSE <<>>
      RECURSIVE go(_)
      go(i) == IF i = 0 THEN between(0) ELSE go(i - 1) \o << <<ks[i], shown[ks[i]]>> >> \o between(i)
  IN go(n)
Show(m, shown) == IF 30 * Cardinality(DOMAIN shown) < Cardinality(DOMAIN m) THEN ShowFew(m, shown) ELSE ShowAll(m, shown)
(* Disclose the keys in kp with hidden value, those in kv (disjoint) with   *)
(* their value.                                                            *)
Disclose(m, kp, kv) == IF kv = {} THEN Show(m, [k \in kp |-> Hidden])
                       ELSE IF kp = {} THEN Show(m, [k \in kv |-> m[k]])
                       ELSE Show(m, [k \in kp \cup kv |-> IF k \in kp THEN Hidden ELSE m[k]])

Full(m)    == Disclose(m, {}, DOMAIN m)
AllKeys(m) == Disclose(m, DOMAIN m, {})

Witness(m, q) ==
  IF Has(m, q) THEN Disclose(m, {}, {q})
  ELSE Disclose(m, LowerNbr(m, q) \cup UpperNbr(m, q), {})

InRange(m, a, b) == {k \in DOMAIN m : a <= k /\ k <= b}
Ends(m, a, b) == (IF Has(m, a) THEN {} ELSE LowerNbr(m, a))
            \cup (IF Has(m, b) THEN {} ELSE UpperNbr(m, b))
KeyRange(m, a, b) == Disclose(m, InRange(m, a, b) \cup Ends(m, a, b), {})
ValueRange(m, a, b) == Disclose(m, Ends(m, a, b), InRange(m, a, b))

(***************************************************************************)
(* Properties of the witnesses themselves: a verifier who knows only the   *)
(* tokens and the certificate rules never concludes anything false.        *)
(***************************************************************************)
Sound(toks, m, q) ==
  LET r == Lookup(toks, q, LT) IN
    CASE r[1] = "found"  -> Has(m, q) /\ (r[2] = Hidden \/ r[2] = m[q])
      [] r[1] = "absent" -> ~Has(m, q)
      [] OTHER           -> TRUE

ProvesEntry(toks, m, q) == Lookup(toks, q, LT) = <<"found", m[q]>>
ProvesAbsent(toks, q)   == Lookup(toks, q, LT) = <<"absent">>

(* A range witness lets the verifier decide every point of the range. *)
Decides(toks, a, b) == \A q \in a..b : Lookup(toks, q, LT)[1] # "unknown"
=============================================================================
