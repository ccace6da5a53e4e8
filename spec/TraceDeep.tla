------------------------------ MODULE TraceDeep -----------------------------
(***************************************************************************)
(* Judges what witnesses of groups with very long paths show (C14, C15).   *)
(* A path is given as a list of <<name, how often>>.  sel[i]: 2 the member *)
(* was asked for in full, 1 asked for with nothing shown of it, 0 not      *)
(* asked for.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Conform

VARIABLES l, paths, vals
vars == <<l, paths, vals>>

Expand(runs) == FlattenSeq([i \in 1..Len(runs) |-> [j \in 1..runs[i][2] |-> runs[i][1]]])
Common(p, q) ==
  LET n == Min({Len(p), Len(q)}) IN Min({n} \cup {i - 1 : i \in {j \in 1..n : p[j] # q[j]}})
(* The number of different directories and members on the way to those asked. *)
LabelsOf(S) ==
  FoldSet(LAMBDA i, n : n + Len(paths[i]) - Max({0} \cup {Common(paths[i], paths[j]) : j \in {x \in S : x < i}}), 0, S)

Shows(e, sel) ==
  LET asked == {i \in 1..Len(sel) : sel[i] > 0}  full == {i \in asked : sel[i] = 2} IN
  /\ Chk("reconstructs to the root hash", e.own)
  /\ Chk("members shown and hidden", \A i \in 1..Len(sel) :
        e.seen[i] = CASE sel[i] = 2 -> <<"value", vals[i]>> [] sel[i] = 1 -> <<"pruned", 0>> [] OTHER -> <<"none", 0>>)
  /\ Chk("no more labels than on the paths asked for", e.labels = LabelsOf(asked))
  /\ Chk("no more values than asked for", e.leaves = Cardinality(full))

Init == l = 1 /\ paths = <<>> /\ vals = <<>>
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     /\ NoFailure(e)
     /\ CASE e.op = "new" -> /\ paths' = [i \in 1..Len(e.paths) |-> Expand(e.paths[i])]
                             /\ vals' = [i \in 1..Len(e.paths) |-> i]
          [] e.op = "set" -> vals' = [vals EXCEPT ![e.ty + 1] = e.set] /\ UNCHANGED paths
          [] e.op = "show" -> Shows(e, IF e.all THEN [i \in 1..Len(paths) |-> 2] ELSE e.sel) /\ UNCHANGED <<paths, vals>>
Spec == Init /\ [][Next]_vars
=============================================================================
