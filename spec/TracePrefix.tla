---------------------------- MODULE TracePrefix -----------------------------
(* Judges recorded executions of the prefix queries against Prefixes.      *)
(* Judge: prefix, root.                                                    *)
EXTENDS Prefixes, Conform

VARIABLES l, m, tab
vars == <<l, m, tab>>

Init == l = 1 /\ m = NoMap /\ tab = <<>>

Byte(e) == e.op # "new"
WitnessOK(p, ok, toks, strings) ==
  /\ Chk("prefix witness: reconstructs to the root hash", ok)
  /\ Chk("prefix witness: discloses exactly what it should",
         \/ toks = PrefixWitness(m, tab, p)
         \/ ExactKey(m, tab, p) /\ toks = PrefixWitnessExact(m, tab, p))

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     /\ NoFailure(e)
     /\ IF e.op = "new" THEN tab' = e.keys ELSE UNCHANGED tab
     /\ CASE e.op = "new" -> m' = NoMap
          [] e.op = "ins" -> m' = Put(m, e.k, e.v)
          [] e.op = "rem" -> m' = Del(m, e.k)
          [] e.op = "pmod" ->
               LET x == MaxOf(m, tab, e.p) IN
               /\ "prefix" \in Judge => Chk("modify_max_with_prefix: key and value",
                      e.ret = (IF x = 0 THEN <<0, 0>> ELSE <<x, m[x]>>))
               /\ "prefix" \in Judge => Chk("modify_max_with_prefix: calls", e.calls = (IF x = 0 THEN 0 ELSE 1))
               /\ m' = IF x = 0 THEN m ELSE Put(m, x, e.v)
          [] e.op = "pmax" ->
               /\ "prefix" \in Judge => \A i \in 1..Len(e.r) :
                    LET x == MaxOf(m, tab, e.r[i][1]) IN
                    Chk("max_entry_with_prefix", e.r[i][2] = (IF x = 0 THEN <<0, 0>> ELSE <<x, m[x]>>))
               /\ m' = m
          [] e.op = "pws" ->
               /\ "prefix" \in Judge => \A i \in 1..Len(e.r) : WitnessOK(e.r[i][1], e.r[i][2], e.r[i][3], TRUE)
               /\ m' = m
          [] e.op = "root" ->
               /\ "root" \in Judge => Chk("root hash is the hash of the exported tree", e.own)
               /\ "root" \in Judge => Chk("exported tree lists the contents", e.full = Full(m))
               /\ m' = m
Spec == Init /\ [][Next]_vars
=============================================================================
