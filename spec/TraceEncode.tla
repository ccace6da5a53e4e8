---------------------------- MODULE TraceEncode ----------------------------
(***************************************************************************)
(* Judges recorded encodings of values and keys against Encodings.  A      *)
(* result is <<it is one leaf with the hash the rules give it, the bytes,  *)
(* <<label>> if it can be a key>>.                                         *)
(***************************************************************************)
EXTENDS Encodings, Conform

VARIABLE l

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<n>> ELSE Append(Dec(n \div 10), n % 10)
Num(n) == IF n < 0 THEN <<1, Dec(-n)>> ELSE <<0, Dec(n)>>

OneOK(ty, v, r) ==
  LET b == Canonical(ty, v) IN
  /\ ty \in ValueTypes =>
       /\ Chk("the value is one leaf with the leaf hash of its bytes", r[1])
       /\ Chk("canonical bytes of the value", r[2] = b)
  /\ ty \in KeyTypes => Chk("canonical bytes of the label", r[3] = <<b>>)

EventOK(e) ==
  CASE e.op = "enc" -> Len(e.r) = Len(e.vals) /\ \A i \in 1..Len(e.vals) : OneOK(e.ty, e.vals[i], e.r[i])
    \* consecutive numbers
    [] e.op = "range" -> Len(e.r) = e.n /\ \A i \in 1..e.n : OneOK(e.ty, Num(e.from + i - 1), e.r[i])
    \* wrappers around collections
    [] e.op = "wrap" -> Chk("a pointer changes the encoding", e.same)
    [] e.op = "new" -> TRUE

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ NoFailure(Trace[l])
        /\ EventOK(Trace[l])
Spec == Init /\ [][Next]_l
=============================================================================
