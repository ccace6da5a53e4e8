---------------------------- MODULE TraceReplica ----------------------------
(***************************************************************************)
(* Judges instances of one collection, some in processes of their own,     *)
(* that are changed, read and questioned independently of each other.      *)
(* Changes and questions are texts; answers are digests of everything that *)
(* came back: roots, witnesses and encodings byte by byte, and results.    *)
(***************************************************************************)
EXTENDS Conform, Replicas

VARIABLES l, hist, det
vars == <<l, hist, det>>

Init == l = 1 /\ hist = <<>> /\ det = NoAnswers

Completed(e) == Chk("the operation did not complete", e.d \notin {"panic", "crash"})

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     /\ NoFailure(e)
     /\ CASE e.op = "new" ->
               hist' = [j \in 1..Len(e.insts) |-> <<>>] /\ det' = NoAnswers
          [] e.op = "do" ->
               /\ Completed(e)
               /\ Chk("a change returned something else than in another instance with the same history",
                      Consistent(det, hist[e.i], <<"result", e.c>>, e.d))
               /\ det' = Learn(det, hist[e.i], <<"result", e.c>>, e.d)
               /\ hist' = Changed(hist, e.i, e.c)
          [] e.op = "read" -> Completed(e) /\ UNCHANGED <<hist, det>>
          [] e.op = "probe" ->
               /\ Completed(e)
               /\ Chk("roots, witnesses or encodings differ between instances with the same history",
                      Consistent(det, hist[e.i], <<"answer", e.q>>, e.d))
               /\ det' = Learn(det, hist[e.i], <<"answer", e.q>>, e.d)
               /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars
=============================================================================
