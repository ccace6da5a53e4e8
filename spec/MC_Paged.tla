------------------------------ MODULE MC_Paged ------------------------------
(***************************************************************************)
(* The paged map as the code has it: a tree over <<key, page>> whose       *)
(* values are sequences.  Inserting looks for the last page of the key,    *)
(* appends to it, or adds the next page when it is full.                   *)
(***************************************************************************)
EXTENDS Pages, CSV

CONSTANTS NK, S, MaxItems,   \* keys, page size, items per key
          OutFile

C == INSTANCE SeqChain
PageHash(v) == C!Chain(v)
PageTree(v) == Pruned(C!Chain(v))
T == INSTANCE LLRB WITH TrackHash <- TRUE, ValueHash <- PageHash, ValueTree <- PageTree

VARIABLES t, m
vars == <<t, m>>

Keys == {2 * i : i \in 1..NK}
Points == 1..(2 * NK + 1)
Classes(k) == [c \in {Comp(j, p) : j \in Keys, p \in 0..MaxItems} |->
                <<IF KeyOf(c) < k THEN -1 ELSE IF KeyOf(c) > k THEN 1 ELSE 0, KeyOf(c) = k>>]

Init == t = <<>> /\ m = NoMap

RECURSIVE Enc(_)
Enc(x) == IF x = <<>> THEN "" ELSE
  "(" \o Enc(x[3]) \o ToString(x[1]) \o (IF x[5] THEN "r" ELSE "b") \o ToString(Len(x[2])) \o Enc(x[4]) \o ")"
Emit(k) ==
  IF OutFile = "" THEN TRUE
  ELSE CSVWrite("%1$s#%2$s#%3$s#%4$s#%5$s#%6$s", <<Enc(t), "ins", k, 0, 0, Enc(t')>>, OutFile)

Insert(k) ==
  LET s == ItemsOf(m, k)
      x == Len(s) + 1                  \* the items are told apart by their number
      top == T!MaxWithPrefix(t, Classes(k))
  IN /\ Len(s) < MaxItems
     /\ m' = AddItem(m, k, x)
     /\ t' = IF top = 0 THEN T!TreeInsert(t, Comp(k, 0), <<x>>)
             ELSE LET page == T!Lookup1(t, top)[2] IN
               IF Len(page) = S THEN T!TreeInsert(T!ModMax(t, Classes(k), page)[1], Comp(k, PageOf(top) + 1), <<x>>)
               ELSE T!ModMax(t, Classes(k), Append(page, x))[1]
     /\ Emit(k)
Next == \E k \in Keys : Insert(k)
Spec == Init /\ [][Next]_vars

Refines == T!Contents(t) = AsMap(m, S)
Structure == T!Ordered(t) /\ T!RedBlack(t)
HashCurrent == T!CacheOK(t)
RECURSIVE Concat(_, _, _)
Concat(s, p, n) == IF p = n THEN <<>> ELSE Page(s, p, S) \o Concat(s, p + 1, n)
Paging == \A k \in DOMAIN m : LET s == m[k]  n == NPages(s, S) IN
  /\ n >= 1 /\ Concat(s, 0, n) = s
  /\ \A p \in 0..(n - 2) : Len(Page(s, p, S)) = S
  /\ Len(Page(s, n - 1, S)) \in 1..S
LastOf(k) == T!MaxWithPrefix(t, Classes(k))
WitnessInv ==
  LET w(c) == T!TreeWitness(t, c)
      Good(c, exp) == Reconstruct(w(c)) = T!RootHash(t) /\ Tokens(w(c)) = exp
      abs == AsMap(m, S)
      hid == [c \in DOMAIN abs |-> Hidden]
  IN /\ Tokens(T!FullWitness(t, TRUE)) = AllPages(m, S)
     /\ \A k \in Points :
       /\ (IF k \in Keys THEN LastOf(k) ELSE 0) = (IF Has(m, k) THEN Comp(k, LastPage(m[k], S)) ELSE 0)
       /\ \A p \in (0..(NPages(ItemsOf(m, k), S) + 1)) \cup {BigPage} :
            /\ Good(Comp(k, p), PageWitness(m, k, p, S))
            /\ PageWitness(m, k, p, S) = Witness(hid, Comp(k, p))
            /\ Lookup(PageWitness(m, k, p, S), Comp(k, p), LT)[1] = IF HasPage(m, k, p, S) THEN "found" ELSE "absent"
       \* the last-page witness: the next page is absent, the last page next to it
       /\ LET n == NPages(ItemsOf(m, k), S)  toks == LastWitness(m, k, S) IN
            /\ Lookup(toks, Comp(k, n), LT) = <<"absent">>
            /\ n > 0 => \E i \in 1..Len(toks) : toks[i] = <<Comp(k, n - 1), Hidden>>
                         /\ \A j \in 1..Len(toks) : j > i => (toks[j] = Gap /\ j > i + 1) \/ toks[j][1] > Comp(k, n)
=============================================================================
