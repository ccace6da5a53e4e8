----------------------------- MODULE TraceHash -----------------------------
(***************************************************************************)
(* Judges recorded hash trees.  An event carries trees as the script wrote *)
(* them, <<"P", s>> standing for the subtree s pruned, and what the        *)
(* library made of each:                                                   *)
(*   rec     the root hash                pruned  the hashes put into it   *)
(*   json, cbor   serialised                                               *)
(*   labels, leaves   the listings        node    the root hash by the     *)
(*                                                helpers fork_hash, ...   *)
(* and eq, the pairs of trees that are equal to the library.               *)
(***************************************************************************)
EXTENDS HashBytes, Conform, SequencesExt

VARIABLES l,
          known     \* the hash of every unpruned tree seen so far
vars == <<l, known>>

(* From the script's form to the specification's. *)
RECURSIVE Sym(_)
Sym(x) ==
  CASE x[1] = "F" -> Fork(Sym(x[2]), Sym(x[3]))
    [] x[1] = "L" -> Labeled(x[2], Sym(x[3]))
    [] x[1] = "P" -> Pruned(Reconstruct(Sym(x[2])))
    [] OTHER -> x
(* The pruned subtrees from left to right. *)
RECURSIVE Hidden1(_)
Hidden1(s) ==
  CASE s[1] = "F" -> Hidden1(s[2]) \o Hidden1(s[3])
    [] s[1] = "L" -> Hidden1(s[3])
    [] s[1] = "P" -> <<s[2]>>
    [] OTHER -> <<>>

(* One more hash: it is new exactly if the tree is. *)
Learn(k, s, h) ==
  IF k = {} THEN k ELSE
  IF \E p \in k : p[1] = s THEN IF <<s, h>> \in k THEN k ELSE {}
  ELSE IF \E p \in k : p[2] = h THEN {} ELSE k \cup {<<s, h>>}

(* The tree with the bytes of the hashes of the pruned subtrees. *)
RECURSIVE Concrete(_, _)
Concrete(s, k) ==
  CASE s[1] = "F" -> Fork(Concrete(s[2], k), Concrete(s[3], k))
    [] s[1] = "L" -> Labeled(s[2], Concrete(s[3], k))
    [] s[1] = "P" -> Pruned((CHOOSE p \in k : p[1] = s[2])[2])
    [] OTHER -> s

Root0 == << <<"nothing">>, <<>> >>       \* so that `known' is never empty

TreeOK(s, r, k) ==
  LET c == Concrete(s, k) IN
  /\ Chk("a hash is 32 bytes", Len(r.rec) = 32)
  /\ Chk("the hash helpers", r.node = r.rec)
  /\ Chk("the labels from left to right", r.labels = Labels(s))
  /\ Chk("the leaves from left to right", r.leaves = Leaves(s))
  /\ Chk("the serialised tree", r.json = Wire(c))
  /\ Chk("the bytes of the serialised tree", r.cbor = Cbor(c))
  /\ Chk("all ways to serialise agree", r.same)
  /\ "sha" \in Judge =>
       Chk("the root by the hash rules", r.rec = HashBytes(c))

AllOK(e, syms, k) ==
  /\ Chk("trees are equal exactly if they are the same tree",
         e.eq = [i \in 1..Len(syms) |-> [j \in 1..Len(syms) |-> syms[i] = syms[j]]])
  /\ \A i \in 1..Len(syms) : TreeOK(syms[i], e.r[i], k)

(* Combs and chains too deep to write down. *)
RECURSIVE Comb(_, _)
Comb(kind, n) ==
  IF n = 0 THEN Leaf(<<0>>)
  ELSE LET b == <<n % 256>> IN
       CASE kind = "left" -> Fork(Comb(kind, n - 1), Leaf(b))
         [] kind = "right" -> Fork(Leaf(b), Comb(kind, n - 1))
         [] kind = "chain" -> Labeled(b, Comb(kind, n - 1))
         [] kind = "zigzag" -> IF n % 2 = 0 THEN Fork(Comb(kind, n - 1), Empty) ELSE Fork(Labeled(b, Leaf(b)), Comb(kind, n - 1))

Event(e) ==
  CASE e.op = "new" -> known' = {Root0}
    [] e.op = "trees" ->
         LET syms == [i \in 1..Len(e.ts) |-> Sym(e.ts[i])]
             one(k, i) == LET hid == Hidden1(syms[i]) IN
               Learn(FoldLeft(LAMBDA a, j : Learn(a, hid[j], e.r[i].pruned[j]), k, [j \in 1..Len(hid) |-> j]),
                     Reconstruct(syms[i]), e.r[i].rec)
             k2 == FoldLeft(one, known, [i \in 1..Len(syms) |-> i])
         IN /\ Chk("equal hashes for equal trees, different ones for different trees", k2 # {})
            /\ AllOK(e, syms, k2)
            /\ known' = k2
    [] e.op = "comb" ->
         LET s == Comb(e.kind, e.n) IN
         /\ Chk("the root of a deep tree", e.rec = e.own)
         /\ Chk("the labels of a deep tree", e.labels = Labels(s))
         /\ Chk("the leaves of a deep tree", e.leaves = Leaves(s))
         /\ Chk("the bytes of a deep tree", e.cbor = Cbor(s))
         /\ UNCHANGED known

Init == l = 1 /\ known = {Root0}
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ NoFailure(Trace[l])
        /\ Event(Trace[l])
Spec == Init /\ [][Next]_vars
=============================================================================
