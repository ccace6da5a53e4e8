------------------------------- MODULE Groups -------------------------------
(***************************************************************************)
(* A group as its user sees it: a finite function from paths (sequences of *)
(* labels, no path a prefix of another) to members, what it exports, and   *)
(* what a witness for a selection of members shows.                        *)
(*                                                                         *)
(* The view of a tree: forks are flattened; a sequence of                  *)
(*   <<0>>             a gap: something hidden                             *)
(*   <<1, label, view>> a labelled subtree                                 *)
(*   <<2, value>>      a leaf                                              *)
(***************************************************************************)
EXTENDS CertMap

VGap == <<0>>
VLab(k, v) == <<1, k, v>>
VLeaf(v) == <<2, v>>
HiddenView == <<VGap>>

JoinView(a, b) ==
  IF a # <<>> /\ b # <<>> /\ a[Len(a)] = VGap /\ b[1] = VGap THEN a \o Tail(b) ELSE a \o b

(* The views of the tokens of a map. *)
MapView(toks) ==
  [i \in 1..Len(toks) |-> IF toks[i] = Gap THEN VGap
     ELSE VLab(toks[i][1], IF toks[i][2] = Hidden THEN HiddenView ELSE <<VLeaf(toks[i][2])>>)]

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Clash(a, b) == IsPrefixOf(a, b) \/ IsPrefixOf(b, a)
(* A path that can not be added to a group with these paths. *)
Refused(paths, p) == p = <<>> \/ \E q \in paths : Clash(p, q)

(* The labels below a directory of a set of paths. *)
LabelsBelow(paths, pre) == {p[Len(pre) + 1] : p \in {x \in paths : Len(x) > Len(pre) /\ IsPrefixOf(pre, x)}}

(* What is shown: shown[p] is the view of the member at p, for the members *)
(* in DOMAIN shown; the others are hidden, directories without a shown     *)
(* member as a whole.                                                      *)
RECURSIVE DirView(_, _, _)
DirView(paths, shown, pre) ==
  LET labs == Sorted(LabelsBelow(paths, pre))
      sub(l) == LET p == Append(pre, l) IN
                IF ~\E q \in DOMAIN shown : IsPrefixOf(p, q) THEN <<VGap>>
                ELSE <<VLab(l, IF p \in paths THEN shown[p] ELSE DirView(paths, shown, p))>>
      RECURSIVE go(_, _)
      go(i, acc) == IF i > Len(labs) THEN acc ELSE go(i + 1, JoinView(acc, sub(labs[i])))
  IN go(1, <<>>)
GroupView(paths, shown) == IF DOMAIN shown = {} THEN <<VGap>> ELSE DirView(paths, shown, <<>>)
=============================================================================
