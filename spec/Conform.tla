------------------------------ MODULE Conform -------------------------------
(* What the trace specifications share: the recorded events, the reasons   *)
(* for rejecting one, and acceptance.                                      *)
EXTENDS TLC, Json, IOUtils, Integers, Sequences

CONSTANT Judge

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* A condition the event has to satisfy; says which one failed. *)
Chk(name, c) == IF c THEN TRUE ELSE IF PrintT(<<"REJECT", name>>) THEN FALSE ELSE FALSE

(* No operation of the specification panics, crashes or hangs. *)
NoFailure(e) == Chk("the operation did not complete", e.op \notin {"panic", "crash"})

(* Every event was consumed (one state per event, plus the initial one). *)
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
