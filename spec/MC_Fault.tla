------------------------------ MODULE MC_Fault ------------------------------
(***************************************************************************)
(* Design: a map whose hashes are cached per node, whose values are lent   *)
(* out, and a sequence with a running hash, under callers whose code       *)
(* panics anywhere.  A call is a number of steps; at a step that runs the  *)
(* caller's code (a closure, a comparison, a label, a hash, a destructor)  *)
(* it may end in a panic instead.  The hash of a path is abstracted to what it covers.   *)
(*                                                                         *)
(* The switches are the measures that make it hold: TakesRoot (nodes are   *)
(* taken out of the map while they are rearranged), LendsFirst (closures   *)
(* of modify work on a lent value), ForgetsLast (the lent value is         *)
(* forgotten after its path was hashed, not before), HashesEach (a         *)
(* sequence hashes every item before it stores it), ForgetsFirst (what is  *)
(* cleared is out of the collection before it is released).                *)
(***************************************************************************)
EXTENDS Faults, TLC, CSV

CONSTANTS Keys, Vals, MaxLen, TakesRoot, LendsFirst, ForgetsLast, HashesEach, ForgetsFirst, OutFile

VARIABLES m,        \* key -> value, as found by walking from the root
          cover,    \* key -> value, as covered by the cached hashes
          len, lent,
          s, chain, \* the items; those the running hash covers
          pc,       \* step of the call in progress, or "rest"
          call,     \* [op, k, x, boom, m, lent, s] : the call and what it began with
          out,      \* nodes that are out of the map
          gone,     \* keys whose nodes the call has released
          said      \* how the last call ended: "", "boom", "trip"
vars == <<m, cover, len, lent, s, chain, pc, call, out, gone, said>>

None == 0
NoCall == [op |-> "new", k |-> None, x |-> None, boom |-> "", m |-> NoMap, lent |-> None, s |-> <<>>, xs |-> <<>>]
Init == m = NoMap /\ cover = NoMap /\ len = 0 /\ lent = None /\ s = <<>> /\ chain = <<>> /\ pc = "rest"
        /\ call = NoCall /\ out = NoMap /\ gone = {} /\ said = ""

Begin(op, k, x, boom, xs, next) ==
  /\ pc = "rest" /\ pc' = next
  /\ call' = [op |-> op, k |-> k, x |-> x, boom |-> boom, m |-> m, lent |-> lent, s |-> s, xs |-> xs]
  /\ gone' = {} /\ UNCHANGED <<m, cover, len, lent, s, chain, out, said>>

(* What the call should leave. *)
Goal(c) ==
  CASE c.op = "insert" -> Put(c.m, c.k, c.x)
    [] c.op = "remove" -> Del(c.m, c.k)
    [] c.op \in {"modify", "set"} -> IF Has(c.m, c.k) THEN Put(c.m, c.k, c.x) ELSE c.m
    [] c.op = "clear" -> NoMap
    [] OTHER -> c.m
SGoal(c) == CASE c.op \in {"app", "ext"} -> c.s \o c.xs [] c.op = "sclear" -> <<>> [] OTHER -> c.s

RECURSIVE Enc(_)
Enc(q) == IF q = <<>> THEN "." ELSE ToString(Head(q)) \o Enc(Tail(q))
EncMap(f) == Enc([i \in 1..(2 * Cardinality(DOMAIN f)) |-> LET p == Pairs(f)[(i + 1) \div 2] IN IF i % 2 = 1 THEN p[1] ELSE p[2]])
(* The calls, for replay: what there was, the call, and how it ended. *)
Emit(how) ==
  IF OutFile = "" THEN TRUE
  ELSE CSVWrite("%1$s#%2$s#%3$s#%4$s#%5$s#%6$s#%7$s#%8$s#%9$s",
                <<EncMap(call.m), ToString(call.lent), Enc(call.s), call.op, ToString(call.k), ToString(call.x), Enc(call.xs), call.boom, how>>, OutFile)
End(how) == pc' = "rest" /\ said' = how /\ Emit(how)
To(p) == pc' = p /\ UNCHANGED said

(***************************************************************************)
(* Hashing the path of a lent value: runs comparisons, labels and hashes.  *)
(***************************************************************************)
After == CASE call.op \in {"insert", "remove"} -> "search" [] call.op \in {"modify", "set"} -> "find" [] OTHER -> "done"
Refresh(at, next) ==
  /\ pc = at
  /\ UNCHANGED <<m, len, s, chain, call, out>>
  /\ IF lent = None THEN To(next) /\ UNCHANGED <<cover, lent>>
     ELSE \/ cover' = [cover EXCEPT ![lent] = m[lent]] /\ lent' = None /\ To(next)
          \/ UNCHANGED cover /\ lent' = (IF ForgetsLast THEN lent ELSE None) /\ End("trip")
Done == pc = "done" /\ End("") /\ UNCHANGED <<m, cover, len, lent, s, chain, call, out>>

(* Insertion and removal: down the tree by comparisons, then relinking and hashing on the way up. *)
Search ==
  /\ pc = "search"
  /\ \/ End("trip") /\ UNCHANGED <<m, cover, len, lent, s, chain, call, out>>
     \/ call.op = "remove" /\ ~Has(m, call.k) /\ To("done") /\ UNCHANGED <<m, cover, len, lent, s, chain, call, out>>
     \/ /\ call.op = "insert" \/ Has(m, call.k)
        /\ To("rearrange") /\ UNCHANGED <<s, chain, call, lent>>
        /\ IF TakesRoot THEN out' = m /\ m' = NoMap /\ cover' = NoMap /\ len' = 0
           ELSE out' = m /\ UNCHANGED <<m, cover, len>>
Rearrange ==
  /\ pc = "rearrange" /\ UNCHANGED <<s, chain, call>>
  /\ LET new == Goal([call EXCEPT !.m = out]) IN
     \/ /\ m' = new /\ cover' = new /\ len' = Cardinality(DOMAIN new) /\ out' = NoMap
        /\ lent' = (IF call.op = "insert" THEN call.k ELSE None) /\ To("done")
     \* a label or hash panics: the nodes are relinked up to here
     \/ /\ IF TakesRoot THEN UNCHANGED <<m, cover, len>> ELSE m' = new /\ UNCHANGED <<cover, len>>
        /\ out' = NoMap /\ UNCHANGED lent /\ End("trip")

(* get_mut and modify. *)
Find ==
  /\ pc = "find" /\ UNCHANGED <<m, cover, len, s, chain, call, out>>
  /\ \/ End("trip") /\ UNCHANGED lent
     \/ ~Has(m, call.k) /\ To("done") /\ UNCHANGED lent
     \/ /\ Has(m, call.k) /\ To("closure")
        /\ lent' = (IF call.op = "set" \/ LendsFirst THEN call.k ELSE lent)
Closure ==
  /\ pc = "closure" /\ UNCHANGED <<cover, len, lent, s, chain, call, out>>
  /\ IF call.boom = "before" THEN UNCHANGED m /\ End("boom")
     ELSE /\ m' = [m EXCEPT ![call.k] = call.x]
          /\ IF call.boom = "after" THEN End("boom")
             ELSE IF call.op = "set" THEN To("done") ELSE To("rehash")
Rehash ==
  IF LendsFirst THEN Refresh("rehash", "done")
  ELSE /\ pc = "rehash" /\ UNCHANGED <<m, len, lent, s, chain, call, out>>
       /\ \/ cover' = [cover EXCEPT ![call.k] = m[call.k]] /\ To("done")
          \/ UNCHANGED cover /\ End("trip")

(* Clearing: what there was is released, one by one. *)
Clear ==
  /\ pc = "clear" /\ UNCHANGED <<s, chain, call, out>>
  /\ LET free == m' = NoMap /\ cover' = NoMap /\ len' = 0 /\ lent' = None IN
     \/ free /\ gone' = DOMAIN m /\ To("done")
     \/ /\ DOMAIN m # {} /\ gone' \in SUBSET DOMAIN m /\ gone' # {} /\ End("trip")
        /\ IF ForgetsFirst THEN free ELSE UNCHANGED <<m, cover, len, lent>>
SClear ==
  /\ pc = "sclear" /\ UNCHANGED <<m, cover, len, lent, call, out>>
  /\ s' = <<>>
  /\ \/ chain' = <<>> /\ To("done")
     \/ s # <<>> /\ chain' = (IF ForgetsFirst THEN <<>> ELSE chain) /\ End("trip")

(* Sequences: items come from an iterator, each is hashed and stored. *)
Items ==
  /\ pc = "items" /\ UNCHANGED <<m, cover, len, lent, call, out>>
  /\ LET n == Len(s) - Len(call.s) IN
     IF call.boom = ToString(n + 1) THEN UNCHANGED <<s, chain>> /\ End("boom")
     ELSE IF n = Len(call.xs) THEN
       IF HashesEach THEN UNCHANGED <<s, chain>> /\ To("done")
       ELSE \/ chain' = s /\ UNCHANGED s /\ To("done")
            \/ UNCHANGED <<s, chain>> /\ End("trip")
     ELSE LET t == Append(s, call.xs[n + 1]) IN
       IF HashesEach THEN \/ s' = t /\ chain' = t /\ To("items")
                          \/ UNCHANGED <<s, chain>> /\ End("trip")
       ELSE s' = t /\ UNCHANGED chain /\ To("items")

Booms == {"", "before", "after"}
Lists == {q \in UNION {[1..n -> {1}] : n \in 0..3} : Len(q) + Len(s) <= MaxLen}
Next ==
  \/ \E k \in Keys, x \in Vals :
       \/ Begin("insert", k, x, "", <<>>, "refresh")
       \/ Begin("set", k, x, "", <<>>, "refresh")
       \/ \E b \in Booms : Begin("modify", k, x, b, <<>>, "refresh")
  \/ \E k \in Keys : Begin("remove", k, None, "", <<>>, "refresh")
  \/ Begin("root", None, None, "", <<>>, "refresh")
  \/ Begin("clear", None, None, "", <<>>, "clear") \/ Begin("sclear", None, None, "", <<>>, "sclear")
  \/ \E q \in Lists : \/ Len(q) = 1 /\ Begin("app", None, None, "", q, "items")
                      \/ \E b \in {""} \cup {ToString(i) : i \in 1..(Len(q) + 1)} : Begin("ext", None, None, b, q, "items")
  \/ /\ Refresh("refresh", After) \/ Done \/ Search \/ Rearrange \/ Find \/ Closure \/ Rehash \/ Items \/ SClear
     /\ UNCHANGED gone
  \/ Clear
Spec == Init /\ [][Next]_vars

Rest == pc = "rest"
(* What the hashes cover once the lent value is accounted for. *)
Covered == IF lent = None THEN cover ELSE IF Has(m, lent) /\ Has(cover, lent) THEN [cover EXCEPT ![lent] = m[lent]] ELSE cover
Truth == Rest => Covered = m /\ chain = s
LenOK == Rest => len = Cardinality(DOMAIN m)
LentOK == Rest => lent = None \/ Has(m, lent)
(* Nothing is in the map that was released. *)
NoGhost == Rest => gone \cap DOMAIN m = {}
(* The contents are those that the judgement of executions allows. *)
Judged ==
  Rest => CASE said = "" -> m = Goal(call) /\ s = SGoal(call)
            [] said = "boom" -> /\ Closed(call.m, Goal(call), call.boom, m)
                                /\ CutSeq(call.s, SGoal(call), s)
            [] OTHER -> CutFlat(call.m, Goal(call), m) /\ CutSeq(call.s, SGoal(call), s)
                        /\ call.op = "root" => m = call.m /\ s = call.s
View == <<m, cover, len, lent, s, chain, pc, call, out, gone, said>>
=============================================================================
