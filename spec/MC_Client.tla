----------------------------- MODULE MC_Client ------------------------------
(***************************************************************************)
(* A client and every certificate it may be given: the contents are a      *)
(* collection of collections, the tree over the entries of a level any     *)
(* tree of forks (so the argument does not depend on how the library       *)
(* balances), and the certificate any pruning of the full tree.  Hashes    *)
(* are symbolic: a certificate with the right root is a pruning.           *)
(***************************************************************************)
EXTENDS HashTree, TLC, CSV, SequencesExt, FiniteSetsExt

CONSTANTS Labs, Inner,       \* labels 1..Labs of the outer level, 1..Inner of the inner
          Vals,
          Sorted,            \* the entries are in the order of their labels
          OutFile

VARIABLES m                  \* label -> (label -> value)
vars == <<m>>

LT(a, b) == a < b
INSTANCE Client WITH Less <- LT

NoMap == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* All trees of forks over the given entries, in this order. *)
RECURSIVE Shapes(_)
Shapes(s) ==
  IF s = <<>> THEN {Empty} ELSE IF Len(s) = 1 THEN {s[1]}
  ELSE UNION {{Fork(l, r) : l \in Shapes(SubSeq(s, 1, i)), r \in Shapes(SubSeq(s, i + 1, Len(s)))} : i \in 1..(Len(s) - 1)}
Orders(S) == IF Sorted THEN {SetToSortSeq(S, LT)} ELSE {s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}

InnerTrees(f) == UNION {Shapes([i \in 1..Len(o) |-> Labeled(o[i], Leaf(f[o[i]]))]) : o \in Orders(DOMAIN f)}
RECURSIVE OneEach(_, _)      \* one tree for each entry
OneEach(o, i) == IF i > Len(o) THEN {<<>>}
  ELSE {<<Labeled(o[i], t)>> \o r : t \in InnerTrees(m[o[i]]), r \in OneEach(o, i + 1)}
Trees == UNION {UNION {Shapes(s) : s \in OneEach(o, 1)} : o \in Orders(DOMAIN m)}

RECURSIVE Prunings(_)
Prunings(t) ==
  {Pruned(t)} \cup
  CASE t[1] = "F" -> {Fork(l, r) : l \in Prunings(t[2]), r \in Prunings(t[3])}
    [] t[1] = "L" -> {Labeled(t[2], s) : s \in Prunings(t[3])}
    [] OTHER -> {t}

Truth(p) ==
  CASE p = <<>> -> <<"m">>
    [] p # <<>> -> IF p[1] \notin DOMAIN m THEN <<"none">>
                   ELSE IF Len(p) = 1 THEN <<"m">>
                   ELSE IF p[2] \notin DOMAIN m[p[1]] \/ Len(p) = 3 THEN <<"none">>
                   ELSE <<"v", m[p[1]][p[2]]>>
Paths == {<<>>} \cup {<<a>> : a \in 0..(Labs + 1)} \cup {<<a, b>> : a \in 0..(Labs + 1), b \in 0..(Inner + 1)}
         \cup {<<a, b, 1>> : a \in 1..Labs, b \in 1..Inner}
NoChain(h, items) == FALSE

Encode == FoldLeft(LAMBDA s, a : s \o ToString(a) \o ":" \o
            FoldLeft(LAMBDA x, b : x \o ToString(b) \o "=" \o ToString(m[a][b]) \o ",", "", SetToSortSeq(DOMAIN m[a], LT)) \o ";",
            "", SetToSortSeq(DOMAIN m, LT))
Emit == IF OutFile = "" THEN TRUE ELSE CSVWrite("%1$s", <<"m" \o Encode>>, OutFile)

Init == m = NoMap
Next == /\ \E a \in 1..Labs :
             \/ a \notin DOMAIN m /\ m' = Put(m, a, NoMap)
             \/ a \in DOMAIN m /\ m' = Del(m, a)
             \/ a \in DOMAIN m /\ \E b \in 1..Inner : \/ \E v \in Vals : m' = Put(m, a, Put(m[a], b, v))
                                                      \/ b \in DOMAIN m[a] /\ m' = Put(m, a, Del(m[a], b))
Spec == Init /\ [][Next]_vars

(* No certificate makes a client believe what is not so. *)
NeverFooled ==
  /\ Emit
  /\ \A t \in Trees : \A c \in Prunings(t) :
       /\ Reconstruct(c) = t
       /\ \A p \in Paths : Honest(Resolve(c, p), Truth(p), NoChain)

(* The full tree answers everything; for every path there is a certificate *)
(* that answers it and shows no more than the way there and what is next   *)
(* to it: at most two entries on each level.                               *)
Answered ==
  \A t \in Trees : \A p \in Paths :
     /\ Settled(Resolve(t, p), Truth(p), 2)
     /\ \E c \in Prunings(t) :
          /\ Settled(Resolve(c, p), Truth(p), 2)
          /\ LET f == Flat(c) IN
             /\ Cardinality({i \in 1..Len(f) : f[i][1] = "L"}) <= 2
             /\ p # <<>> => \A i \in 1..Len(f) : f[i][1] = "L" =>
                  LET g == Flat(f[i][3]) IN IF f[i][2] = p[1] /\ Len(p) > 1
                    THEN Cardinality({j \in 1..Len(g) : g[j][1] = "L"}) <= 2
                    ELSE IF f[i][2] = p[1] THEN TRUE ELSE IsPruned(f[i][3])
=============================================================================
