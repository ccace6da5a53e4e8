----------------------------- MODULE TraceHeap ------------------------------
(***************************************************************************)
(* Judges what whole histories leave behind: each event is a history that  *)
(* ran on a fresh collection, which was dropped at its end.  Memory that   *)
(* was requested and not given back, in bytes and blocks, is none.         *)
(***************************************************************************)
EXTENDS Conform

VARIABLES l, runs
vars == <<l, runs>>

Init == l = 1 /\ runs = 0
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     /\ NoFailure(e)
     /\ CASE e.op = "new" -> runs' = 0
          [] e.op = "heap" -> /\ Chk("memory was not given back", e.bytes <= 0 /\ e.blocks <= 0)
                              /\ Chk("memory was given back twice", e.bytes >= 0 /\ e.blocks >= 0)
                              /\ runs' = runs + 1
Spec == Init /\ [][Next]_vars
=============================================================================
