------------------------------ MODULE MC_Group ------------------------------
(***************************************************************************)
(* The group as the code builds it: a directory tree filled path by path,  *)
(* turned into a semi-balanced tree of forks whose nodes are numbered, the *)
(* ancestors of every member, and the witness that visits only those.      *)
(* A directory is a function from labels to directories or <<"leaf", m>>.  *)
(***************************************************************************)
EXTENDS Groups, CSV, TLC

CONSTANTS NL, Depth, MaxMembers,    \* labels, length of paths, members
          Ascending,                \* add paths in one order only
          OutFile

VARIABLES dir, paths                \* the builder's tree; the path of every member, as added
vars == <<dir, paths>>

Paths == UNION {[1..d -> 1..NL] : d \in 1..Depth}
PathSet == {paths[i] : i \in 1..Len(paths)}

LeafDir(m) == <<"leaf", m>>
NoDir == << >>
IsLeaf(d) == d # NoDir /\ 0 \in DOMAIN d
Dir0(m) == [x \in {0} |-> m]         \* a leaf: its member is at label 0

RECURSIVE AddPath(_, _, _)
AddPath(d, p, m) ==
  IF IsLeaf(d) THEN <<FALSE, d>>     \* "can not insert to a leaf node"
  ELSE IF Len(p) = 1 THEN
    IF Head(p) \in DOMAIN d THEN <<FALSE, d>> ELSE <<TRUE, Put(d, Head(p), Dir0(m))>>
  ELSE LET sub == IF Head(p) \in DOMAIN d THEN d[Head(p)] ELSE NoDir
           r == AddPath(sub, Tail(p), m)
       IN IF r[1] THEN <<TRUE, Put(d, Head(p), r[2])>> ELSE <<FALSE, d>>

(***************************************************************************)
(* The group: nodes <<"fork", l, r>>, <<"lab", label, n>>, <<"mem", m>>,   *)
(* then numbered in preorder.                                              *)
(***************************************************************************)
RECURSIVE PairUp(_)
PairUp(s) == IF Len(s) < 2 THEN s ELSE <<(<<"fork", s[1], s[2]>>)>> \o PairUp(SubSeq(s, 3, Len(s)))
RECURSIVE Balance(_)
Balance(s) == IF Len(s) = 1 THEN s[1] ELSE Balance(PairUp(s))
RECURSIVE BuildNode(_)
BuildNode(d) ==
  IF IsLeaf(d) THEN <<"mem", d[0]>>
  ELSE LET ls == Sorted(DOMAIN d) IN Balance([i \in 1..Len(ls) |-> <<"lab", ls[i], BuildNode(d[ls[i]])>>])

(* <<numbered node, next number, ancestors of members (a set of <<m, set of numbers>>)>> *)
RECURSIVE Number(_, _, _)
Number(n, id, anc) ==
  LET here == anc \cup {id} IN
  CASE n[1] = "fork" ->
         LET l == Number(n[2], id + 1, here)  r == Number(n[3], l[2], here)
         IN << <<"fork", id, l[1], r[1]>>, r[2], l[3] \cup r[3]>>
    [] n[1] = "lab" -> LET s == Number(n[3], id + 1, here) IN << <<"lab", id, n[2], s[1]>>, s[2], s[3]>>
    [] n[1] = "mem" -> << <<"mem", id, n[2]>>, id + 1, {<<n[2], here>>}>>

(* The contents of a member: a tree with two entries; a part of it. *)
MemberTree(m) == Fork(Labeled(100, Leaf(m)), Labeled(101, Leaf(m + 50)))
PartTree(m) == Fork(Labeled(100, Leaf(m)), Pruned(Labeled(101, Leaf(m + 50))))

RECURSIVE HashOf(_)
HashOf(n) ==
  CASE n[1] = "fork" -> Fork(HashOf(n[3]), HashOf(n[4]))
    [] n[1] = "lab" -> Labeled(n[3], HashOf(n[4]))
    [] n[1] = "mem" -> MemberTree(n[3])

(* req: member -> the tree asked for; visit: the numbers of their ancestors *)
RECURSIVE WitnessOf(_, _, _)
WitnessOf(n, visit, req) ==
  IF n[2] \notin visit THEN Pruned(HashOf(n))
  ELSE CASE n[1] = "fork" -> Fork(WitnessOf(n[3], visit, req), WitnessOf(n[4], visit, req))
         [] n[1] = "lab" -> Labeled(n[3], WitnessOf(n[4], visit, req))
         [] n[1] = "mem" -> req[n[3]]

RECURSIVE View(_)
View(t) ==
  CASE t[1] = "E" -> <<>>
    [] t[1] = "F" -> JoinView(View(t[2]), View(t[3]))
    [] t[1] = "L" -> <<VLab(t[2], View(t[3]))>>
    [] t[1] = "V" -> <<VLeaf(t[2])>>
    [] t[1] = "P" -> <<VGap>>
(* No two opaque hashes where one would do (outside of members). *)
RECURSIVE Opaque(_)
Opaque(t) ==
  CASE t[1] = "F" -> ~(IsPruned(t[2]) /\ IsPruned(t[3])) /\ Opaque(t[2]) /\ Opaque(t[3])
    [] t[1] = "L" -> t[2] >= 100 \/ Opaque(t[3])
    [] OTHER -> TRUE
RECURSIVE Ids(_)
Ids(n) == CASE n[1] = "fork" -> <<n[2]>> \o Ids(n[3]) \o Ids(n[4])
            [] n[1] = "lab" -> <<n[2]>> \o Ids(n[4])
            [] n[1] = "mem" -> <<n[2]>>

-----------------------------------------------------------------------------
Init == dir = NoDir /\ paths = <<>>
EncPath(p) == FoldLeft(LAMBDA s, x : s \o ToString(x), "", p)
EncPaths(ps) == FoldLeft(LAMBDA s, x : s \o EncPath(x) \o ".", "", ps)
Emit(ps, p, ok) == IF OutFile = "" THEN TRUE
  ELSE CSVWrite("%1$s#%2$s#%3$s", <<EncPaths(ps), EncPath(p), IF ok THEN 1 ELSE 0>>, OutFile)

Add(p) ==
  LET m == Len(paths) + 1
      r == AddPath(dir, p, m)
  IN /\ Emit(paths, p, r[1])
     /\ Assert(r[1] = ~Refused(PathSet, p), "a path is refused exactly when it clashes")
     \* symmetry: the order of insertion does not matter for the tree, see OrderFree
     /\ r[1] /\ Len(paths) < MaxMembers
     /\ dir' = r[2] /\ paths' = Append(paths, p)
PathLT(a, b) == BytesLess(a, b, 1)
Next == \E p \in Paths : (Ascending /\ paths # <<>> => PathLT(paths[Len(paths)], p)) /\ Add(p)
Spec == Init /\ [][Next]_vars

(* The tree depends on the set of <<path, member>> pairs only. *)
RECURSIVE Canon(_, _)
Canon(pairs, pre) ==
  LET hit == {x \in pairs : x[1] = pre} IN
  IF hit # {} THEN Dir0((CHOOSE x \in hit : TRUE)[2])
  ELSE [l \in LabelsBelow({x[1] : x \in pairs}, pre) |-> Canon(pairs, Append(pre, l))]
OrderFree == paths # <<>> => dir = Canon({<<paths[i], i>> : i \in 1..Len(paths)}, <<>>)

WitnessInv ==
  paths # <<>> =>
    LET num == Number(BuildNode(dir), 0, {})
        root == num[1]
        anc(m) == (CHOOSE x \in num[3] : x[1] = m)[2]
        ms == 1..Len(paths)
        pathof(m) == paths[m]
        all == [m \in ms |-> MemberTree(m)]
    IN /\ LET ids == Ids(root) IN \A i, j \in 1..Len(ids) : i # j => ids[i] # ids[j]
       /\ Cardinality(num[3]) = Len(paths)
       \* the exported tree
       /\ View(HashOf(root)) = GroupView(PathSet, [p \in PathSet |-> View(MemberTree(CHOOSE m \in ms : paths[m] = p))])
       \* every selection, in full or in part
       /\ \A sel \in [ms -> {0, 1, 2}] :
            LET asked == {m \in ms : sel[m] # 0}
                req == [m \in asked |-> IF sel[m] = 1 THEN MemberTree(m) ELSE PartTree(m)]
                w == WitnessOf(root, UNION {anc(m) : m \in asked}, req)
            IN /\ Reconstruct(w) = HashOf(root)
               /\ View(w) = GroupView(PathSet, [p \in {paths[m] : m \in asked} |->
                                               View(req[CHOOSE m \in asked : paths[m] = p])])
               /\ Opaque(w)
=============================================================================
