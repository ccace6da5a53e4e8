--------------------------------- MODULE LLRB ---------------------------------
(***************************************************************************)
(* The left-leaning red-black tree of src/rbtree.rs as the code has it:    *)
(* insertion, deletion, rotations and colour flips, the hash cached in     *)
(* every node and the places where it is recomputed, the reference lent to *)
(* the caller, and the witness builders.                                   *)
(* A node is <<key, value, left, right, red, hash>>, null is <<>>.         *)
(***************************************************************************)
EXTENDS CertMap, TLC

CONSTANTS TrackHash,    \* FALSE: leave cached hashes out (larger trees)
          ValueHash(_), \* root hash of a value ...
          ValueTree(_)  \* ... and its exported tree; both Leaf for plain values

Null == <<>>
K(n) == n[1]
Vl(n) == n[2]
L(n) == n[3]
R(n) == n[4]
Red(n) == n # Null /\ n[5]
H(n) == n[6]

DataHash(n) == Labeled(K(n), ValueHash(Vl(n)))

SubtreeHash(n) ==
  IF ~TrackHash THEN 0 ELSE
  LET h == DataHash(n) IN
    CASE L(n) = Null /\ R(n) = Null -> h
      [] L(n) # Null /\ R(n) = Null -> Fork(H(L(n)), h)
      [] L(n) = Null /\ R(n) # Null -> Fork(h, H(R(n)))
      [] OTHER -> Fork(H(L(n)), Fork(h, H(R(n))))

Rehash(n)    == [n EXCEPT ![6] = SubtreeHash(n)]
SetL(n, x)   == [n EXCEPT ![3] = x]
SetR(n, x)   == [n EXCEPT ![4] = x]
SetRed(n, c) == [n EXCEPT ![5] = c]
NewNode(k, v) == Rehash(<<k, v, Null, Null, TRUE, 0>>)

RotateRight(h) ==
  LET x == L(h)
      h1 == Rehash(SetRed(SetL(h, R(x)), TRUE))
  IN IF Assert(Red(x), "rotate_right: left child not red")
     THEN Rehash(SetRed(SetR(x, h1), h[5])) ELSE Null

RotateLeft(h) ==
  LET x == R(h)
      h1 == Rehash(SetRed(SetR(h, L(x)), TRUE))
  IN IF Assert(Red(x), "rotate_left: right child not red")
     THEN Rehash(SetRed(SetL(x, h1), h[5])) ELSE Null

Flip(h) ==
  IF Assert(L(h) # Null /\ R(h) # Null, "flip_colors: missing child")
  THEN <<K(h), Vl(h), SetRed(L(h), ~L(h)[5]), SetRed(R(h), ~R(h)[5]), ~h[5], H(h)>>
  ELSE Null

Balance(h0) ==
  LET h1 == IF Red(R(h0)) /\ ~Red(L(h0)) THEN RotateLeft(h0) ELSE h0
      h2 == IF Red(L(h1)) /\ Red(L(L(h1))) THEN RotateRight(h1) ELSE h1
  IN IF Red(L(h2)) /\ Red(R(h2)) THEN Flip(h2) ELSE h2

RECURSIVE InsertGo(_, _, _)
InsertGo(h, k, v) ==
  IF h = Null THEN NewNode(k, v)
  ELSE Balance(Rehash(
         CASE k = K(h) -> [h EXCEPT ![2] = v]
           [] k < K(h) -> SetL(h, InsertGo(L(h), k, v))
           [] OTHER    -> SetR(h, InsertGo(R(h), k, v))))
TreeInsert(t, k, v) == SetRed(InsertGo(t, k, v), FALSE)

MoveRedLeft(h) ==
  LET h1 == Flip(h) IN
    IF Red(L(R(h1))) THEN Flip(RotateLeft(SetR(h1, RotateRight(R(h1))))) ELSE h1
MoveRedRight(h) ==
  LET h1 == Flip(h) IN
    IF Red(L(L(h1))) THEN Flip(RotateRight(h1)) ELSE h1

RECURSIVE MinNode(_)
MinNode(h) == IF L(h) = Null THEN h ELSE MinNode(L(h))

RECURSIVE DeleteMin(_)
DeleteMin(h) ==
  IF L(h) = Null
  THEN IF Assert(R(h) = Null, "delete_min: dropping a subtree") THEN Null ELSE Null
  ELSE LET h1 == IF ~Red(L(h)) /\ ~Red(L(L(h))) THEN MoveRedLeft(h) ELSE h
       IN Balance(Rehash(SetL(h1, DeleteMin(L(h1)))))

RECURSIVE DeleteGo(_, _)
DeleteGo(h, k) ==
  IF k < K(h)
  THEN LET h1 == IF ~Red(L(h)) /\ ~Red(L(L(h))) THEN MoveRedLeft(h) ELSE h
       IN Balance(Rehash(SetL(h1, DeleteGo(L(h1), k))))
  ELSE LET h1 == IF Red(L(h)) THEN RotateRight(h) ELSE h IN
       IF k = K(h1) /\ R(h1) = Null
       THEN IF Assert(L(h1) = Null, "delete: dropping a subtree") THEN Null ELSE Null
       ELSE LET h2 == IF ~Red(R(h1)) /\ ~Red(L(R(h1))) THEN MoveRedRight(h1) ELSE h1
                m  == MinNode(R(h2))
            IN Balance(Rehash(
                 IF k = K(h2)
                 THEN <<K(m), Vl(m), L(h2), DeleteMin(R(h2)), h2[5], H(h2)>>
                 ELSE SetR(h2, DeleteGo(R(h2), k))))

RECURSIVE Lookup1(_, _)
Lookup1(t, k) == IF t = Null THEN Null
                 ELSE IF k = K(t) THEN t
                 ELSE IF k < K(t) THEN Lookup1(L(t), k) ELSE Lookup1(R(t), k)
Present(t, k) == Lookup1(t, k) # Null

TreeDelete(t, k) ==   \* only for present keys
  LET t0 == IF ~Red(L(t)) /\ ~Red(R(t)) THEN SetRed(t, TRUE) ELSE t
      t1 == DeleteGo(t0, k)
  IN IF t1 = Null THEN Null ELSE SetRed(t1, FALSE)

(* modify(k, f): new value and hashes on the path; rehashes also on a miss *)
RECURSIVE TreeModify(_, _, _)
TreeModify(h, k, v) ==
  IF h = Null THEN Null
  ELSE Rehash(CASE k = K(h) -> [h EXCEPT ![2] = v]
                [] k < K(h) -> SetL(h, TreeModify(L(h), k, v))
                [] OTHER    -> SetR(h, TreeModify(R(h), k, v)))

(* A write through a lent reference: no hash is recomputed. *)
RECURSIVE RawWrite(_, _, _)
RawWrite(h, k, v) ==
  CASE k = K(h) -> [h EXCEPT ![2] = v]
    [] k < K(h) -> SetL(h, RawWrite(L(h), k, v))
    [] OTHER    -> SetR(h, RawWrite(R(h), k, v))

(* refresh_lent: rehash the path to the lent node (0: none is lent). *)
RECURSIVE RehashPath(_, _)
RehashPath(h, k) ==
  Rehash(CASE k = K(h) -> h
           [] k < K(h) -> SetL(h, RehashPath(L(h), k))
           [] OTHER    -> SetR(h, RehashPath(R(h), k)))
Refresh(t, lent) == IF lent = 0 THEN t ELSE RehashPath(t, lent)

-------------------------------------------------------------------------------
(* Abstraction and the invariants of the structure. *)
RECURSIVE InOrder(_)
InOrder(t) == IF t = Null THEN <<>> ELSE InOrder(L(t)) \o << <<K(t), Vl(t)>> >> \o InOrder(R(t))
Size(t) == Len(InOrder(t))
Contents(t) == LET s == InOrder(t) IN
  [k \in {s[i][1] : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i][1] = k][2]]

Ordered(t) == LET s == InOrder(t) IN \A i \in 1..(Len(s)-1) : s[i][1] < s[i+1][1]

RECURSIVE BlackHeight(_)   \* -1: unequal
BlackHeight(t) ==
  IF t = Null THEN 0
  ELSE LET a == BlackHeight(L(t))  b == BlackHeight(R(t))
       IN IF a = -1 \/ b = -1 \/ a # b THEN -1 ELSE a + (IF t[5] THEN 0 ELSE 1)
RECURSIVE RedOK(_)         \* no red right link, no two red links in a row
RedOK(t) == t = Null \/ ( /\ ~Red(R(t))
                          /\ (t[5] => ~Red(L(t)))
                          /\ RedOK(L(t)) /\ RedOK(R(t)))
RedBlack(t) == ~Red(t) /\ RedOK(t) /\ BlackHeight(t) # -1

RECURSIVE MaxDepth(_), MinDepth(_)
MaxDepth(t) == IF t = Null THEN 0 ELSE
  LET a == MaxDepth(L(t))  b == MaxDepth(R(t)) IN 1 + (IF a > b THEN a ELSE b)
MinDepth(t) == IF t = Null THEN 0 ELSE
  LET a == MinDepth(L(t))  b == MinDepth(R(t)) IN 1 + (IF a < b THEN a ELSE b)
(* The user-visible balance guarantee (C04): steps to an empty position. *)
Balanced(t) == MaxDepth(t) <= 2 * MinDepth(t)

RECURSIVE CacheOK(_)
CacheOK(t) == t = Null \/ (H(t) = SubtreeHash(t) /\ CacheOK(L(t)) /\ CacheOK(R(t)))

RootHash(t) == IF t = Null THEN Empty ELSE H(t)

-------------------------------------------------------------------------------
(* Witness builders, on a tree whose hashes are current. *)
ThreeWay(l, m, r) ==
  CASE IsEmpty(l) /\ IsEmpty(r) -> m
    [] ~IsEmpty(l) /\ IsEmpty(r) -> Fork(l, m)
    [] IsEmpty(l) /\ ~IsEmpty(r) -> Fork(m, r)
    [] IsPruned(l) /\ IsPruned(m) /\ IsPruned(r) ->
         Pruned(Fork(l[2], Fork(m[2], r[2])))
    [] ~IsPruned(l) /\ ~IsEmpty(l) /\ ~IsEmpty(r) /\ IsPruned(m) /\ IsPruned(r) ->
         Fork(l, Pruned(Fork(m[2], r[2])))
    [] OTHER -> Fork(l, Fork(m, r))

Cut(t) == IF t = Null THEN Empty ELSE Pruned(H(t))
KeyTree(n)  == Labeled(K(n), Pruned(ValueHash(Vl(n))))
DataTree(n) == Labeled(K(n), ValueTree(Vl(n)))
NodeTree(n, vals) == IF vals THEN DataTree(n) ELSE KeyTree(n)

RECURSIVE FullWitness(_, _)
FullWitness(t, vals) ==
  IF t = Null THEN Empty
  ELSE ThreeWay(FullWitness(L(t), vals), NodeTree(t, vals), FullWitness(R(t), vals))

(* The value is shown as the tree w. *)
RECURSIVE NestedWitness(_, _, _)
NestedWitness(t, k, w) ==    \* only for present keys
  CASE k = K(t) -> ThreeWay(Cut(L(t)), Labeled(k, w), Cut(R(t)))
    [] k < K(t) -> ThreeWay(NestedWitness(L(t), k, w), Pruned(DataHash(t)), Cut(R(t)))
    [] OTHER    -> ThreeWay(Cut(L(t)), Pruned(DataHash(t)), NestedWitness(R(t), k, w))
LookupWitness(t, k) == NestedWitness(t, k, ValueTree(Vl(Lookup1(t, k))))

NoBound == <<"none", 0>>
RECURSIVE LowerBound(_, _), UpperBound(_, _)
LowerBound(t, q) ==
  IF t = Null THEN NoBound
  ELSE CASE K(t) < q -> LET b == LowerBound(R(t), q) IN
                          IF b # NoBound THEN b ELSE <<"nbr", K(t)>>
         [] K(t) = q -> <<"exact", K(t)>>
         [] OTHER    -> LowerBound(L(t), q)
UpperBound(t, q) ==
  IF t = Null THEN NoBound
  ELSE CASE K(t) < q -> UpperBound(R(t), q)
         [] K(t) = q -> <<"exact", K(t)>>
         [] OTHER    -> LET b == UpperBound(L(t), q) IN
                          IF b # NoBound THEN b ELSE <<"nbr", K(t)>>

EndTree(n, bound, vals) == IF bound[1] = "exact" THEN NodeTree(n, vals) ELSE KeyTree(n)

RECURSIVE RangeAbove(_, _, _), RangeBelow(_, _, _), RangeBetween(_, _, _, _)
RangeAbove(t, lo, vals) ==
  IF t = Null THEN Empty
  ELSE CASE K(t) = lo[2] -> ThreeWay(Cut(L(t)), EndTree(t, lo, vals), FullWitness(R(t), vals))
         [] K(t) < lo[2] -> ThreeWay(Cut(L(t)), Pruned(DataHash(t)), RangeAbove(R(t), lo, vals))
         [] OTHER        -> ThreeWay(RangeAbove(L(t), lo, vals), NodeTree(t, vals), FullWitness(R(t), vals))
RangeBelow(t, hi, vals) ==
  IF t = Null THEN Empty
  ELSE CASE K(t) = hi[2] -> ThreeWay(FullWitness(L(t), vals), EndTree(t, hi, vals), Cut(R(t)))
         [] K(t) > hi[2] -> ThreeWay(RangeBelow(L(t), hi, vals), Pruned(DataHash(t)), Cut(R(t)))
         [] OTHER        -> ThreeWay(FullWitness(L(t), vals), NodeTree(t, vals), RangeBelow(R(t), hi, vals))
RangeBetween(t, lo, hi, vals) ==
  IF t = Null THEN Empty
  ELSE LET k == K(t)  a == lo[2]  b == hi[2] IN
    CASE a < k /\ k < b -> ThreeWay(RangeBetween(L(t), lo, hi, vals), NodeTree(t, vals),
                                    RangeBetween(R(t), lo, hi, vals))
      [] a = k /\ k = b -> ThreeWay(Cut(L(t)),
                             IF lo[1] = "exact" \/ hi[1] = "exact" THEN NodeTree(t, vals) ELSE KeyTree(t),
                             Cut(R(t)))
      [] a # k /\ k = b -> ThreeWay(RangeBetween(L(t), lo, hi, vals), EndTree(t, hi, vals), Cut(R(t)))
      [] a = k /\ k # b -> ThreeWay(Cut(L(t)), EndTree(t, lo, vals), RangeBetween(R(t), lo, hi, vals))
      [] a < k /\ k > b -> ThreeWay(RangeBetween(L(t), lo, hi, vals), Pruned(DataHash(t)), Cut(R(t)))
      [] a > k /\ k < b -> ThreeWay(Cut(L(t)), Pruned(DataHash(t)), RangeBetween(R(t), lo, hi, vals))
      [] OTHER -> Pruned(H(t))

RangeOf(t, lo, hi, vals) ==
  CASE lo = NoBound /\ hi = NoBound -> FullWitness(t, vals)
    [] lo # NoBound /\ hi = NoBound -> RangeAbove(t, lo, vals)
    [] lo = NoBound /\ hi # NoBound -> RangeBelow(t, hi, vals)
    [] OTHER -> IF Assert(lo[2] <= hi[2], "range: lo > hi")
                THEN RangeBetween(t, lo, hi, vals) ELSE Empty

TreeWitness(t, q) ==
  IF Present(t, q) THEN LookupWitness(t, q)
  ELSE RangeOf(t, LowerBound(t, q), UpperBound(t, q), FALSE)
AbsenceWitness(t, q) == RangeOf(t, LowerBound(t, q), UpperBound(t, q), FALSE)
TreeKeyRange(t, a, b)   == RangeOf(t, LowerBound(t, a), UpperBound(t, b), FALSE)
TreeValueRange(t, a, b) == RangeOf(t, LowerBound(t, a), UpperBound(t, b), TRUE)

-------------------------------------------------------------------------------
(* Prefixes.  c[k][1] compares the part of key k that a prefix is compared *)
(* with to the prefix (-1, 0, 1); c[k][2] says whether k starts with it.   *)
RECURSIVE MaxWithPrefix(_, _)      \* 0: none
MaxWithPrefix(t, c) ==
  IF t = Null THEN 0
  ELSE IF c[K(t)][1] >= 0 /\ c[K(t)][2]
       THEN LET r == MaxWithPrefix(R(t), c) IN IF r # 0 THEN r ELSE K(t)
  ELSE IF c[K(t)][1] > 0 THEN MaxWithPrefix(L(t), c)
  ELSE MaxWithPrefix(R(t), c)

RECURSIVE LeftPrefixNbr(_, _), RightPrefixNbr(_, _)
LeftPrefixNbr(t, c) ==
  IF t = Null THEN NoBound
  ELSE IF c[K(t)][1] < 0
       THEN LET b == LeftPrefixNbr(R(t), c) IN IF b # NoBound THEN b ELSE <<"nbr", K(t)>>
       ELSE LeftPrefixNbr(L(t), c)
RightPrefixNbr(t, c) ==
  IF t = Null THEN NoBound
  ELSE IF c[K(t)][1] > 0 /\ c[K(t)][2] THEN RightPrefixNbr(R(t), c)
  ELSE IF c[K(t)][1] > 0
       THEN LET b == RightPrefixNbr(L(t), c) IN IF b # NoBound THEN b ELSE <<"nbr", K(t)>>
       ELSE RightPrefixNbr(R(t), c)
TreePrefixWitness(t, c) ==
  RangeOf(t, LeftPrefixNbr(t, c), RightPrefixNbr(t, c), FALSE)

(* modify_max_with_prefix: rehashes on the way back from a hit only. *)
RECURSIVE ModMax(_, _, _)   \* <<tree, hit>>
ModMax(t, c, v) ==
  IF t = Null THEN <<Null, FALSE>>
  ELSE LET r == ModMax(R(t), c, v)  l == ModMax(L(t), c, v) IN
    IF c[K(t)][1] >= 0 /\ c[K(t)][2]
    THEN <<Rehash(IF r[2] THEN SetR(t, r[1]) ELSE [t EXCEPT ![2] = v]), TRUE>>
    ELSE IF c[K(t)][1] > 0
    THEN IF l[2] THEN <<Rehash(SetL(t, l[1])), TRUE>> ELSE <<t, FALSE>>
    ELSE IF r[2] THEN <<Rehash(SetR(t, r[1])), TRUE>> ELSE <<t, FALSE>>
=============================================================================
