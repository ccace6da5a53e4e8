----------------------------- MODULE TraceScale -----------------------------
(***************************************************************************)
(* Judges measured operations (C04, C21): the same one on a small and on a *)
(* large collection of the same kind.  An event carries the processor time *)
(* and the memory of one operation, the least of several measurements.     *)
(***************************************************************************)
EXTENDS Sequences, Steps, Conform

VARIABLE l
vars == <<l>>

Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     /\ NoFailure(e)
     /\ e.op = "scale" =>
          /\ Chk("an operation takes time for the whole collection: " \o e.act, GrowsSlowly(e.ns[1], e.ns[2]))
          /\ Chk("an operation takes memory for the whole collection: " \o e.act, TakesLittle(e.bytes[1], e.bytes[2]))
Spec == Init /\ [][Next]_vars
=============================================================================
