---------------------------- MODULE MC_HashTree ----------------------------
(***************************************************************************)
(* Hash trees and their prunings: start from any unpruned tree up to a     *)
(* depth, then replace subtrees by their hashes one after the other.       *)
(* Labels and leaves are byte strings over a small alphabet.               *)
(***************************************************************************)
EXTENDS HashTree, TLC, CSV, FiniteSetsExt

CONSTANTS Depth, Labs, Vals,   \* numbers of labels and leaf contents
          OutFile

VARIABLES t, full
vars == <<t, full>>

(* Byte strings by number: "", 0, 1, 0 0, ... *)
RECURSIVE Bytes(_)
Bytes(n) == IF n = 0 THEN <<>> ELSE Append(Bytes((n - 1) \div 2), (n - 1) % 2)

RECURSIVE Trees(_)
Trees(d) ==
  LET leaves == {Empty} \cup {Leaf(Bytes(v)) : v \in 0..(Vals - 1)} IN
  IF d = 0 THEN leaves
  ELSE LET s == Trees(d - 1) IN
       leaves \cup {Fork(l, r) : l \in s, r \in s} \cup {Labeled(Bytes(k), x) : k \in 0..(Labs - 1), x \in s}

(* The trees one subtree of which is pruned. *)
RECURSIVE Prunings(_)
Prunings(x) ==
  IF IsPruned(x) THEN {} ELSE
  {Pruned(Reconstruct(x))} \cup
  CASE x[1] = "F" -> {Fork(l, x[3]) : l \in Prunings(x[2])} \cup {Fork(x[2], r) : r \in Prunings(x[3])}
    [] x[1] = "L" -> {Labeled(x[2], s) : s \in Prunings(x[3])}
    [] OTHER -> {}

Emit(x) == IF OutFile = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToString(x)>>, OutFile)
Init == /\ t \in Trees(Depth)
        /\ full = t
        /\ Emit(t)
Next == /\ t' \in Prunings(t)
        /\ Emit(t')
        /\ UNCHANGED full
Spec == Init /\ [][Next]_vars

(* Pruning keeps the root. *)
RootKept == Reconstruct(t) = full

(* What is listed after pruning was there before, in the same order. *)
RECURSIVE SubSequence(_, _)
SubSequence(a, b) ==
  IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
  ELSE IF a[1] = b[1] THEN SubSequence(Tail(a), Tail(b)) ELSE SubSequence(a, Tail(b))
Listings == SubSequence(Labels(t), Labels(full)) /\ SubSequence(Leaves(t), Leaves(full))

(* The wire format determines the tree. *)
RECURSIVE Unwire(_)
Unwire(w) ==
  CASE w[1] = 0 -> Empty
    [] w[1] = 1 -> Fork(Unwire(w[2]), Unwire(w[3]))
    [] w[1] = 2 -> Labeled(w[2], Unwire(w[3]))
    [] w[1] = 3 -> Leaf(w[2])
    [] w[1] = 4 -> Pruned(w[2])
WireBack == Unwire(Wire(t)) = t

(***************************************************************************)
(* The CBOR bytes determine the tree: a reader of definite-length items    *)
(* gets it back.  The hash of a pruned subtree stands for some bytes: the  *)
(* ones that would be hashed.                                              *)
(***************************************************************************)
RECURSIVE Stand(_)
Stand(x) ==
  CASE x[1] = "E" -> PreEmpty
    [] x[1] = "F" -> PreFork(Stand(x[2]), Stand(x[3]))
    [] x[1] = "L" -> PreLabeled(x[2], Stand(x[3]))
    [] x[1] = "V" -> PreLeaf(x[2])
    [] x[1] = "P" -> Stand(x[2])
Num(bs, p) ==                      \* length and the position after the head
  LET low == bs[p] % 32 IN
  CASE low < 24 -> <<low, p + 1>>
    [] low = 24 -> <<bs[p + 1], p + 2>>
    [] low = 25 -> <<256 * bs[p + 1] + bs[p + 2], p + 3>>
Str(bs, p) ==
  LET n == Num(bs, p) IN <<SubSeq(bs, n[2], n[2] + n[1] - 1), n[2] + n[1]>>
RECURSIVE Read(_, _)               \* <<tree with byte strings for hashes, next position>>
Read(bs, p) ==
  LET tag == bs[p + 1] IN
  CASE tag = 0 -> <<Empty, p + 2>>
    [] tag = 1 -> LET l == Read(bs, p + 2)  r == Read(bs, l[2]) IN <<Fork(l[1], r[1]), r[2]>>
    [] tag = 2 -> LET k == Str(bs, p + 2)  s == Read(bs, k[2]) IN <<Labeled(k[1], s[1]), s[2]>>
    [] tag = 3 -> LET v == Str(bs, p + 2) IN <<Leaf(v[1]), v[2]>>
    [] tag = 4 -> LET h == Str(bs, p + 2) IN <<Pruned(h[1]), h[2]>>
RECURSIVE Concrete(_)
Concrete(x) ==
  CASE x[1] = "F" -> Fork(Concrete(x[2]), Concrete(x[3]))
    [] x[1] = "L" -> Labeled(x[2], Concrete(x[3]))
    [] x[1] = "P" -> Pruned(Stand(x[2]))
    [] OTHER -> x
CborBack == LET bs == Cbor(Concrete(t)) IN
  /\ Read(bs, 1) = <<Concrete(t), Len(bs) + 1>>
  /\ \A i \in 1..Len(bs) : bs[i] \in 0..255

(* So does the client of Client.tla, hashes being 32 bytes, whatever follows. *)
BL(a, b) == BytesLess(a, b, 1)
Cl == INSTANCE Client WITH Less <- BL
RECURSIVE Wide(_)
Wide(x) ==
  CASE x[1] = "F" -> Fork(Wide(x[2]), Wide(x[3]))
    [] x[1] = "L" -> Labeled(x[2], Wide(x[3]))
    [] x[1] = "P" -> Pruned([i \in 1..32 |-> i])
    [] OTHER -> x
ClientReads == LET bs == Cbor(Wide(t)) IN
  /\ Cl!Readable(bs) /\ Cl!Read(bs) = Wide(t)
  /\ \A i \in 1..(Len(bs) - 1) : ~Cl!Readable(SubSeq(bs, 1, i))
  /\ ~Cl!Readable(Append(bs, 0))

(***************************************************************************)
(* What is hashed determines the node, given that hashes have one length   *)
(* (here: one byte): this is why the symbolic hash above is sound if no    *)
(* two byte strings have the same SHA-256.                                 *)
(***************************************************************************)
Nodes == LET h == {<<0>>, <<1>>}  k == {Bytes(n) : n \in 0..30} IN
  {<<"E">>} \cup {<<"F", a, b>> : a \in h, b \in h} \cup {<<"L", l, a>> : l \in k, a \in h} \cup {<<"V", v>> : v \in k}
Pre(x) == CASE x[1] = "E" -> PreEmpty [] x[1] = "F" -> PreFork(x[2], x[3])
            [] x[1] = "L" -> PreLabeled(x[2], x[3]) [] x[1] = "V" -> PreLeaf(x[2])
ASSUME Cardinality({Pre(x) : x \in Nodes}) = Cardinality(Nodes)
=============================================================================
