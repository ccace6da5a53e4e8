------------------------------ MODULE Replicas ------------------------------
(***************************************************************************)
(* What any user of several instances of one collection may rely on: the   *)
(* answer to a question (a root hash, a witness, an encoding) and what a   *)
(* change returns are functions of the changes made so far, the same for   *)
(* every instance, in every process, and whatever was asked in between.    *)
(* `det' is as much of these functions as has shown yet.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

NoAnswers == <<>>
Known(det, h, q) == <<h, q>> \in DOMAIN det
Consistent(det, h, q, d) == Known(det, h, q) => det[<<h, q>>] = d
Learn(det, h, q, d) == IF Known(det, h, q) THEN det ELSE (<<h, q>> :> d) @@ det

(* Histories of instances: sequences of changes. *)
Changed(hist, i, c) == [hist EXCEPT ![i] = Append(@, c)]
=============================================================================
