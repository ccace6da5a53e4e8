------------------------------- MODULE Pages --------------------------------
(***************************************************************************)
(* A paged map as its user sees it: the items of every key, split into     *)
(* pages of S.  Underneath it is a certified map from <<key, page>>, here  *)
(* one number per page, to the pages.                                      *)
(***************************************************************************)
EXTENDS CertMap

Scale == 1000000
BigPage == Scale - 1                  \* stands for all larger page numbers
Comp(k, p) == k * Scale + p
KeyOf(c) == c \div Scale
PageOf(c) == c % Scale

NPages(s, S) == (Len(s) + S - 1) \div S
LastPage(s, S) == NPages(s, S) - 1     \* -1: no page
Page(s, p, S) == LET hi == (p + 1) * S IN SubSeq(s, p * S + 1, IF hi < Len(s) THEN hi ELSE Len(s))
HasPage(m, k, p, S) == Has(m, k) /\ p <= LastPage(m[k], S)
ItemsOf(m, k) == IF Has(m, k) THEN m[k] ELSE <<>>
AddItem(m, k, x) == Put(m, k, Append(ItemsOf(m, k), x))

AsMap(m, S) ==
  LET cks == UNION {{Comp(k, p) : p \in 0..LastPage(m[k], S)} : k \in DOMAIN m}
  IN [c \in cks |-> Page(m[KeyOf(c)], PageOf(c), S)]

(* All entries, the pages as hashes. *)
AllPages(m, S) ==
  LET ks == SortedKeys(m)
      RECURSIVE go(_, _)
      go(i, acc) == IF i > Len(ks) THEN acc
        ELSE go(i + 1, acc \o [j \in 1..NPages(m[ks[i]], S) |-> <<Comp(ks[i], j - 1), Hidden>>])
  IN go(1, <<>>)

(* The witness for a page: itself, or the pages on both sides of its place.*)
(* Every key in m has items.                                               *)
PageWitness(m, k, p, S) ==
  LET lastOf(j) == LastPage(m[j], S)
      here == HasPage(m, k, p, S)
      lower == IF Has(m, k) THEN {Comp(k, lastOf(k))}
               ELSE {Comp(j, lastOf(j)) : j \in LowerNbr(m, k)}
      upper == {Comp(j, 0) : j \in UpperNbr(m, k)}
      first == Min(DOMAIN m)
      last  == Max(DOMAIN m)
      lo == IF here THEN {Comp(k, p)} ELSE lower
      hi == IF here THEN {Comp(k, p)} ELSE upper
      start == IF lo # {} THEN Min(lo) ELSE Min(hi)
      end   == IF hi # {} THEN Max(hi) ELSE Max(lo)
  IN IF DOMAIN m = {} THEN <<>>
     ELSE (IF start > Comp(first, 0) THEN <<Gap>> ELSE <<>>)
          \o [i \in 1..Cardinality(lo \cup hi) |-> <<SetToSortSeq(lo \cup hi, LT)[i], Hidden>>]
          \o (IF end < Comp(last, lastOf(last)) THEN <<Gap>> ELSE <<>>)
LastWitness(m, k, S) == PageWitness(m, k, NPages(ItemsOf(m, k), S), S)
=============================================================================
