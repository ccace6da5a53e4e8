------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The other side: a client that is given a certificate.  It reads the     *)
(* bytes, computes the hash, compares it with the root it trusts, and then *)
(* looks up paths by the rules of the Internet Computer's interface        *)
(* specification.  An answer is one of                                     *)
(*   <<"leaf", bytes>>   <<"hash", h>>   <<"dir">>  (more labels below)    *)
(*   <<"absent">>        <<"unknown">>                                     *)
(***************************************************************************)
EXTENDS HashTree

CONSTANT Less(_, _)          \* the order of labels

RECURSIVE Flat(_)
Flat(t) ==
  CASE t[1] = "E" -> <<>>
    [] t[1] = "F" -> Flat(t[2]) \o Flat(t[3])
    [] OTHER -> <<t>>

(* The subtree labelled q among what is left of the forks. *)
Find(q, s) ==
  LET n == Len(s)
      lab(i) == s[i][1] = "L"
      hit == {i \in 1..n : lab(i) /\ s[i][2] = q}
  IN IF hit # {} THEN <<"found", s[CHOOSE i \in hit : TRUE][3]>>
     ELSE IF \/ n = 0
             \/ n = 1 /\ s[1][1] = "V"
             \/ n > 0 /\ lab(1) /\ Less(q, s[1][2])
             \/ n > 0 /\ lab(n) /\ Less(s[n][2], q)
             \/ \E i \in 1..(n - 1) : lab(i) /\ lab(i + 1) /\ Less(s[i][2], q) /\ Less(q, s[i + 1][2])
     THEN <<"absent">> ELSE <<"unknown">>

RECURSIVE Resolve(_, _)
Resolve(t, path) ==
  IF path = <<>> THEN
    (CASE t[1] = "V" -> <<"leaf", t[2]>>
       [] t[1] = "P" -> <<"hash", t[2]>>
       [] OTHER -> <<"dir">>)
  ELSE LET r == Find(path[1], Flat(t)) IN
       IF r[1] = "found" THEN Resolve(r[2], Tail(path)) ELSE r

(***************************************************************************)
(* Reading a CBOR data item as a tree.  <<tree, where it ends>>, or Bad.   *)
(* Arrays may be of definite or indefinite length; tags are skipped.       *)
(***************************************************************************)
Bad == <<Empty, 0>>
NoHead == [major |-> -1, arg |-> 0, at |-> 0, open |-> FALSE]
HeadAt(bs, i) ==
  IF i < 1 \/ i > Len(bs) THEN NoHead ELSE
  LET major == bs[i] \div 32
      x == bs[i] % 32
      w == CASE x < 24 -> 0 [] x = 24 -> 1 [] x = 25 -> 2 [] x = 26 -> 4 [] OTHER -> -1
      RECURSIVE val(_)
      val(j) == IF j = 0 THEN 0 ELSE 256 * val(j - 1) + bs[i + j]
  IN IF x = 31 THEN [major |-> major, arg |-> 0, at |-> i + 1, open |-> TRUE]
     ELSE IF w < 0 \/ i + w > Len(bs) \/ (w = 4 /\ bs[i + 1] > 0) THEN NoHead      \* longer than any item here
     ELSE [major |-> major, arg |-> IF w = 0 THEN x ELSE val(w), at |-> i + w + 1, open |-> FALSE]

BytesAt(bs, i) ==        \* <<bytes, end>>
  LET h == HeadAt(bs, i) IN
  IF h.major # 2 \/ h.open \/ h.at + h.arg - 1 > Len(bs) THEN <<<<>>, 0>>
  ELSE <<SubSeq(bs, h.at, h.at + h.arg - 1), h.at + h.arg>>

RECURSIVE TreeAt(_, _)
TreeAt(bs, i) ==
  LET h == HeadAt(bs, i) IN
  IF h.major = 6 THEN TreeAt(bs, h.at)
  ELSE IF h.major # 4 THEN Bad
  ELSE
  LET tag == HeadAt(bs, h.at)
      one == BytesAt(bs, tag.at)                       \* a label, a leaf or a hash
      a == TreeAt(bs, IF tag.arg = 1 THEN tag.at ELSE one[2])
      b == TreeAt(bs, a[2])
      r == CASE tag.major # 0 -> <<Empty, 0, 0>>
             [] tag.arg = 0 -> <<Empty, tag.at, 1>>
             [] tag.arg = 1 -> <<Fork(a[1], b[1]), IF a[2] = 0 THEN 0 ELSE b[2], 3>>
             [] tag.arg = 2 -> <<Labeled(one[1], a[1]), IF one[2] = 0 THEN 0 ELSE a[2], 3>>
             [] tag.arg = 3 -> <<Leaf(one[1]), one[2], 2>>
             [] tag.arg = 4 -> <<Pruned(one[1]), IF Len(one[1]) = 32 THEN one[2] ELSE 0, 2>>
             [] OTHER -> <<Empty, 0, 0>>
  IN IF r[2] = 0 THEN Bad
     ELSE IF h.open THEN (IF r[2] <= Len(bs) /\ bs[r[2]] = 255 THEN <<r[1], r[2] + 1>> ELSE Bad)
     ELSE IF h.arg = r[3] THEN <<r[1], r[2]>> ELSE Bad

(* The whole input, nothing left over. *)
Readable(bs) == TreeAt(bs, 1)[2] = Len(bs) + 1
Read(bs) == TreeAt(bs, 1)[1]

(***************************************************************************)
(* An answer against the truth: <<"v", bytes>>, <<"s", items>> (certified  *)
(* as the hash of the items, given aside), <<"m">> a collection or         *)
(* directory, <<"none">>.  ChainIs(h, items) compares a hash.              *)
(***************************************************************************)
Honest(answer, truth, ChainIs(_, _)) ==
  CASE answer[1] = "leaf" -> truth = <<"v", answer[2]>>
    [] answer[1] = "hash" -> truth[1] # "none" /\ (truth[1] = "s" => ChainIs(answer[2], truth[2]))
    [] answer[1] = "dir" -> truth[1] = "m"
    [] answer[1] = "absent" -> truth[1] = "none"
    [] answer[1] = "unknown" -> TRUE

(* What was asked for is answered: 1 whether it is there, 2 what it is.    *)
Settled(answer, truth, asked) ==
  /\ asked >= 1 => answer[1] # "unknown"
  /\ asked = 2 /\ answer[1] = "hash" => truth[1] = "s"
=============================================================================
