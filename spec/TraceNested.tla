---------------------------- MODULE TraceNested ----------------------------
(***************************************************************************)
(* Judges recorded executions on nested collections against Nested.        *)
(* A change names the collection it is made in by a path of outer keys;    *)
(* where the path leads nowhere it has no effect, unless it goes through   *)
(* entries that create what is missing (op field "make").                  *)
(* Judge: ret, dump, root, wit, reload.                                    *)
(***************************************************************************)
EXTENDS Nested, Conform

VARIABLES l, m, par       \* par: <<levels of maps, leaf>>
vars == <<l, m, par>>
D == par[1]
Leaf0 == par[2]

Init == l = 1 /\ m = NoMap /\ par = <<1, "val">>

(* The collection that a change made at a missing place starts from. *)
Fresh(d) == IF d <= D THEN NoMap ELSE <<>>

RECURSIVE Exists(_, _)
Exists(c, path) == path = <<>> \/ (Has(c, path[1]) /\ Exists(c[path[1]], Tail(path)))
RECURSIVE At(_, _, _)       \* Fresh where there is nothing
At(c, path, d) == IF path = <<>> THEN c
                  ELSE At(IF Has(c, path[1]) THEN c[path[1]] ELSE Fresh(d + 1), Tail(path), d + 1)

ValueOf(e, d) == IF d < D THEN Build(e.items, d + 1, D) ELSE IF Leaf0 = "val" THEN e.v ELSE e.items

(* The effect of a change on the collection c at level d. *)
Effect(c, e, d) ==
  CASE e.op = "ins" -> Put(c, e.k, ValueOf(e, d))
    [] e.op = "rem" -> Del(c, e.k)
    [] e.op \in {"gmw", "mod"} -> IF Has(c, e.k) THEN Put(c, e.k, ValueOf(e, d)) ELSE c
    [] e.op = "clear" -> NoMap
    [] e.op = "adeep" -> Put(c, e.k, IF Has(c, e.k) THEN Append(c[e.k], e.v) ELSE <<e.v>>)
    [] e.op = "ldeep" -> c
    [] e.op = "app" -> Append(c, e.v)
    [] e.op = "ext" -> c \o e.items
    [] e.op = "sclear" -> <<>>

RECURSIVE Upd(_, _, _, _)
Upd(c, path, e, d) ==
  IF path = <<>> THEN Effect(c, e, d)
  ELSE Put(c, path[1], Upd(IF Has(c, path[1]) THEN c[path[1]] ELSE Fresh(d + 1), Tail(path), e, d + 1))

DumpAt(c, d) == IF d < D THEN Dump(c, d + 1, D) ELSE c    \* a value of level d
OldAt(c, k, d) == IF Has(c, k) THEN <<DumpAt(c[k], d)>> ELSE <<>>

RetOK(c, e, d) ==
  CASE e.op \in {"ins", "rem", "gmw", "mod"} -> e.ret = OldAt(c, e.k, d)
    [] e.op = "ldeep" -> e.ret = (IF Has(c, e.k) THEN Len(c[e.k]) ELSE 0)
    [] OTHER -> TRUE

Change(e) ==
  LET d == 1 + Len(e.path)  go == Exists(m, e.path) \/ e.make IN
  /\ IF "ret" \in Judge THEN
       /\ Chk("reaching the inner collection", e.found = go)
       /\ IF go THEN Chk("result of " \o e.op, RetOK(At(m, e.path, 1), e, d)) ELSE TRUE
     ELSE TRUE
  /\ m' = IF go THEN Upd(m, e.path, e, 1) ELSE m

(* Is the inner closure of a nested witness called: once if the outer key is there. *)
Calls(s) == IF s.t = "w" /\ "in" \in DOMAIN s /\ Has(m, s.k) THEN 1 ELSE 0

WitOK(r) ==
  /\ Chk("nested witness: reconstructs to the root hash", r[2])
  /\ Chk("nested witness: shows exactly what it should", r[3] = Sel(m, r[1], 1, D, Leaf0))
  /\ Chk("nested witness: calls of the inner witness", r[4] = Calls(r[1]))

Read(e) ==
  CASE e.op = "dump" -> IF "dump" \in Judge THEN
            /\ Chk("contents", e.items = Dump(m, 1, D))
            /\ Chk("lookups agree with the iteration", e.same)
            /\ Chk("the hash of every inner sequence is that of its items", e.hok)
          ELSE TRUE
    [] e.op = "root" -> IF "root" \in Judge THEN
            /\ Chk("root hash is the hash of the exported tree", e.own)
            /\ Chk("reconstruct of the exported tree", e.rec)
            /\ Chk("exported tree lists the contents", e.full = NFull(m, 1, D, Leaf0))
            /\ Chk("the hash of every inner sequence is that of its items", e.hok)
          ELSE TRUE
    [] e.op = "nw" -> IF "wit" \in Judge THEN \A i \in 1..Len(e.r) : WitOK(e.r[i]) ELSE TRUE
    [] e.op = "reload" -> IF "reload" \in Judge THEN
            /\ Chk("decoding what was encoded", e.res = "ok")
            /\ Chk("interchangeable with plain data", e.inter)
          ELSE TRUE

    [] e.op = "badcodec" -> IF "reload" \in Judge THEN Chk("broken input is refused", e.refused) ELSE TRUE

ReadOps == {"dump", "root", "nw", "reload", "badcodec"}

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     /\ NoFailure(e)
     /\ CASE e.op = "new" -> m' = NoMap /\ par' = <<e.levels, e.leaf>>
          [] e.op \in ReadOps -> Read(e) /\ UNCHANGED <<m, par>>
          [] e.op = "decode" -> /\ IF "reload" \in Judge THEN Chk("decoding plain data", e.res = "ok") ELSE TRUE
                                /\ m' = Build(e.items, 1, D) /\ UNCHANGED par
          [] OTHER -> Change(e) /\ UNCHANGED par
Spec == Init /\ [][Next]_vars
=============================================================================
