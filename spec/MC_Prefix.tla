----------------------------- MODULE MC_Prefix ------------------------------
(***************************************************************************)
(* Prefix queries on every tree.  Form "strings": the keys are all strings *)
(* of up to two letters out of two (N = 7), the prefixes all strings of up *)
(* to three.  Form "pairs": composite keys <<a, b>>, several of which      *)
(* share one prefix <<a>> (N = A * B).                                     *)
(***************************************************************************)
EXTENDS MC_LLRB, Prefixes

CONSTANTS Form, A, B

Letters == {1, 2}
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE Strings(n-1) \cup {Append(s, c) : s \in Strings(n-1), c \in Letters}
LexLT(a, b) == Lex(a, b) < 0
Sorted2 == IF Form = "strings" THEN SetToSortSeq(Strings(2), LexLT)
           ELSE SetToSortSeq({<<a, b>> : a \in 1..A, b \in 1..B}, LexLT)
Tab == [k \in Keys |-> Sorted2[k \div 2]]
Queries == IF Form = "strings" THEN Strings(3) ELSE {<<a>> : a \in 0..(A+1)}
Head1(k, p) == IF Form = "strings" THEN Tab[k] ELSE <<Tab[k][1]>>

PrefixInv ==
  \A p \in Queries :
    LET c == [k \in Keys |-> <<Lex(Head1(k, p), p), StartsWith(Tab[k], p)>>]
        w == TreePrefixWitness(Cur, c)
        mm == ModMax(Cur, c, 9)
        x == MaxOf(m, Tab, p)
    IN /\ MaxWithPrefix(Cur, c) = x
       /\ Reconstruct(w) = RootHash(Cur)
       /\ Tokens(w) = PrefixWitness(m, Tab, p)
       /\ mm[2] = (x # 0)
       /\ x # 0 => Contents(mm[1]) = Put(m, x, 9) /\ CacheOK(mm[1])
       /\ x = 0 => mm[1] = Cur
       \* A verifier sees all of them, and that there are no others.
       /\ LET toks == PrefixWitness(m, Tab, p) IN
            \A k \in Keys : StartsWith(Tab[k], p) =>
              Lookup(toks, k, LT) = (IF Has(m, k) THEN <<"found", Hidden>> ELSE <<"absent">>)
=============================================================================
