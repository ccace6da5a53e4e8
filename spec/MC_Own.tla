------------------------------- MODULE MC_Own -------------------------------
(***************************************************************************)
(* Design: a map, a sequence and their caller, with every instance in      *)
(* sight.  The actions say where each instance goes; the invariants say    *)
(* that each is in exactly one place, that a released one never comes back *)
(* and that the relation OwnOK by which recorded executions are judged     *)
(* holds of every step.                                                    *)
(***************************************************************************)
EXTENDS Ownership, TLC

CONSTANTS Keys, MaxId, MaxLen

VARIABLES own,       \* the map
          list,      \* the sequence
          given,     \* instances handed back to the caller
          gone,      \* instances released
          next,      \* the next fresh instance
          last       \* the step that was taken: [own, list, op, k, w]
vars == <<own, list, given, gone, next, last>>

Empty == [k \in {} |-> <<0, 0>>]
Init == own = Empty /\ list = <<>> /\ given = {} /\ gone = {} /\ next = 1
        /\ last = [own |-> Empty, list |-> <<>>, op |-> "new", k |-> 0, w |-> 0]

Room(n) == next + n <= MaxId + 1
Take(n) == Room(n) /\ next' = next + n
Did(op, k, w) == last' = [own |-> own, list |-> list, op |-> op, k |-> k, w |-> w]
Set(k, p) == [x \in DOMAIN own \cup {k} |-> IF x = k THEN p ELSE own[x]]
Cut(k) == [x \in DOMAIN own \ {k} |-> own[x]]

(* insert: the key instance of a present key stays, the new one goes. *)
Insert(k) ==
  /\ Take(2) /\ Did("ins", k, 0) /\ UNCHANGED list
  /\ IF k \in DOMAIN own
     THEN /\ own' = Set(k, <<own[k][1], next + 1>>)
          /\ gone' = gone \cup {next} /\ given' = given \cup {own[k][2]}
     ELSE own' = Set(k, <<next, next + 1>>) /\ UNCHANGED <<gone, given>>
(* or_insert: the value goes as well when the key is present. *)
OrInsert(k) ==
  /\ Take(2) /\ Did("eoi", k, 0) /\ UNCHANGED <<list, given>>
  /\ IF k \in DOMAIN own
     THEN own' = own /\ gone' = gone \cup {next, next + 1}
     ELSE own' = Set(k, <<next, next + 1>>) /\ UNCHANGED gone
(* or_insert and a write through the reference. *)
OrInsertWrite(k) ==
  /\ Take(3) /\ Did("eoi", k, 1) /\ UNCHANGED <<list, given>>
  /\ IF k \in DOMAIN own
     THEN /\ own' = Set(k, <<own[k][1], next + 2>>)
          /\ gone' = gone \cup {next, next + 1, own[k][2]}
     ELSE own' = Set(k, <<next, next + 2>>) /\ gone' = gone \cup {next + 1}
Write(k) ==
  /\ k \in DOMAIN own /\ Take(1) /\ Did("gmw", k, 0) /\ UNCHANGED <<list, gone>>
  /\ own' = Set(k, <<own[k][1], next>>) /\ given' = given \cup {own[k][2]}
RemoveEntry(k) ==
  /\ k \in DOMAIN own /\ UNCHANGED <<list, gone, next>> /\ Did("reme", k, 0)
  /\ own' = Cut(k) /\ given' = given \cup {own[k][1], own[k][2]}
Remove(k) ==
  /\ k \in DOMAIN own /\ UNCHANGED <<list, next>> /\ Did("rem", k, 0)
  /\ own' = Cut(k) /\ given' = given \cup {own[k][2]} /\ gone' = gone \cup {own[k][1]}
Clear == /\ own # Empty /\ own' = Empty /\ gone' = gone \cup IdsOf(own)
         /\ Did("clear", 0, 0) /\ UNCHANGED <<list, given, next>>
(* Decoding: new instances throughout. *)
Reload ==
  LET n == Cardinality(DOMAIN own)
      rank(k) == Cardinality({x \in DOMAIN own : x <= k})
  IN /\ n > 0 /\ Take(2 * n) /\ Did("reload", 0, 0) /\ UNCHANGED <<list, given>>
     /\ own' = [k \in DOMAIN own |-> <<next + 2 * rank(k) - 2, next + 2 * rank(k) - 1>>]
     /\ gone' = gone \cup IdsOf(own)

AppendItem == /\ Len(list) < MaxLen /\ Take(1) /\ list' = Append(list, next) /\ Did("app", 0, 0)
              /\ UNCHANGED <<own, given, gone>>
ClearList == /\ list # <<>> /\ list' = <<>> /\ gone' = gone \cup Members(list) /\ Did("sclear", 0, 0)
             /\ UNCHANGED <<own, given, next>>
TakeList == /\ list # <<>> /\ list' = <<>> /\ given' = given \cup Members(list) /\ Did("take", 0, 0)
            /\ UNCHANGED <<own, gone, next>>

Next == \/ \E k \in Keys : Insert(k) \/ OrInsert(k) \/ OrInsertWrite(k) \/ Write(k) \/ RemoveEntry(k) \/ Remove(k)
        \/ Clear \/ Reload \/ AppendItem \/ ClearList \/ TakeList
Spec == Init /\ [][Next]_vars

(* Every instance is in exactly one place. *)
Placed ==
  LET a == IdsOf(own)  b == Members(list) IN
  /\ Once(own) /\ OnceS(list)
  /\ a \cap b = {} /\ (a \cup b) \cap (given \cup gone) = {} /\ given \cap gone = {}
  /\ a \cup b \cup given \cup gone = 1..(next - 1)
(* The relation that judges executions allows every step, and what is      *)
(* handed back is what it says.                                            *)
Judged ==
  LET s == last IN
  CASE s.op = "app" -> Grows(s.list, list, 1..(next - 2)) /\ own = s.own
    [] s.op \in {"sclear", "take"} -> own = s.own
    [] s.op = "new" -> TRUE
    [] OTHER -> /\ OwnOK(s.own, own, s.op, s.k, s.w) /\ list = s.list
                /\ s.k \in DOMAIN s.own => Members(Handed(s.own, s.op, s.k)) \subseteq given
(* Instances only move forward: what is gone or given stays so. *)
Forward == [][gone \subseteq gone' /\ given \subseteq given' /\ IdsOf(own') \cap (gone \cup given) = {}]_vars
=============================================================================
