------------------------------- MODULE MC_Seq -------------------------------
(***************************************************************************)
(* A sequence as it is stored (a vector and a running hash), next to the   *)
(* list its history leaves.  Appending hashes one item, extending hashes   *)
(* the items behind the previous length, constructing and decoding hash    *)
(* everything.                                                             *)
(***************************************************************************)
EXTENDS SeqChain, TLC, CSV

CONSTANTS MaxLen, NV, OutFile

VARIABLES vec, hash, items,
          work         \* <<items hashed, items that had to be>> in the last operation
vars == <<vec, hash, items, work>>

Vals == 1..NV
Lists(n) == UNION {[1..k -> Vals] : k \in 0..n}

Init == vec = <<>> /\ hash = Zero /\ items = <<>> /\ work = <<0, 0>>

RECURSIVE Enc(_)
Enc(s) == IF s = <<>> THEN "." ELSE ToString(Head(s)) \o Enc(Tail(s))
Emit(op, xs) ==
  IF OutFile = "" THEN TRUE
  ELSE CSVWrite("%1$s#%2$s#%3$s#%4$s#%5$s#%6$s", <<Enc(items), op, Enc(xs), "0", "0", Enc(items')>>, OutFile)

(* The hash after the vector became v, whose first n items are covered by h. *)
Rehash(h, v, n) == ChainFrom(h, SubSeq(v, n + 1, Len(v)))
Work(v, n, need) == work' = <<Len(v) - n, need>>

Append1(x) ==
  /\ Len(items) < MaxLen
  /\ hash' = Step(hash, x) /\ vec' = Append(vec, x) /\ items' = Append(items, x)
  /\ work' = <<1, 1>>
  /\ Emit("app", <<x>>)
Extend(xs) ==
  /\ Len(items) + Len(xs) <= MaxLen
  /\ vec' = vec \o xs /\ hash' = Rehash(hash, vec', Len(vec)) /\ items' = items \o xs
  /\ Work(vec', Len(vec), Len(xs))
  /\ Emit("ext", xs)
Clear == vec' = <<>> /\ hash' = Zero /\ items' = <<>> /\ work' = <<0, 0>> /\ Emit("clear", <<>>)
Build(xs) == vec' = xs /\ hash' = Rehash(Zero, xs, 0) /\ items' = xs /\ Work(xs, 0, Len(xs)) /\ Emit("make", xs)
Reload == vec' = vec /\ hash' = Rehash(Zero, vec, 0) /\ UNCHANGED items /\ Work(vec, 0, Len(vec)) /\ Emit("reload", <<>>)

Next == \/ \E x \in Vals : Append1(x)
        \/ \E xs \in Lists(2) : Extend(xs)
        \/ \E xs \in Lists(MaxLen) : Build(xs)
        \/ Clear \/ Reload
Spec == Init /\ [][Next]_vars

Refines == vec = items
HashOfItems == hash = Chain(items)
(* Different items, different hash: over every list that can be reached. *)
Injective == \A s \in Lists(MaxLen) : Chain(s) = hash => s = items
WorkInv == work[1] <= work[2]
ZeroOnlyEmpty == (hash = Zero) = (items = <<>>)
=============================================================================
