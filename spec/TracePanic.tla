----------------------------- MODULE TracePanic -----------------------------
(***************************************************************************)
(* Judges collections whose callers panic (C22).  An event says whether    *)
(* the call panicked ("boom": a closure or an iterator, "trip": a          *)
(* comparison, label, hash, copy, default or destructor of a key or value) *)
(* and what the collection holds, shows and proves afterwards.             *)
(***************************************************************************)
EXTENDS Faults, Conform

VARIABLES l, kt, c,
          extra        \* instances neither stored nor released
vars == <<l, kt, c, extra>>

Init == l = 1 /\ kt = "" /\ c = NoMap /\ extra = 0

Shape == CASE kt = "seq" -> "seq" [] kt \in {"map", "rb", "pair"} -> "flat"
           [] kt \in {"map-seq", "rb-seq", "pair-seq", "paged"} -> "seqs" [] OTHER -> "maps"
Paged == kt = "paged"

Ascending(ps) == \A i \in 1..(Len(ps) - 1) : ps[i][1] < ps[i + 1][1]
Fun(ps) == [k \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2]]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
(* All pages but the last one are full, and that one is not empty. *)
PagesOK(s) == \A i \in 1..Len(s) : IF i < Len(s) THEN Len(s[i]) = 2 ELSE Len(s[i]) \in 1..2
Proper(ps) ==
  CASE Shape = "seq" -> TRUE
    [] Shape = "maps" -> Ascending(ps) /\ \A i \in 1..Len(ps) : Ascending(ps[i][2])
    [] Paged -> Ascending(ps) /\ \A i \in 1..Len(ps) : PagesOK(ps[i][2])
    [] OTHER -> Ascending(ps)
Read(ps) ==
  CASE Shape = "seq" -> ps
    [] Shape = "maps" -> LET m == Fun(ps) IN [k \in DOMAIN m |-> Fun(m[k])]
    [] Paged -> LET m == Fun(ps) IN [k \in DOMAIN m |-> Flat(m[k])]
    [] OTHER -> Fun(ps)

(* The value that a closure, or a constructor, makes of v. *)
None == CASE Shape = "seqs" -> <<>> [] Shape = "maps" -> NoMap [] OTHER -> 0
Change(v, e) ==
  CASE Shape = "flat" -> e.x
    [] Shape = "seqs" -> Append(v, e.x)
    [] OTHER -> IF e.x = 0 THEN Del(v, e.j) ELSE Put(v, e.j, e.x)
Fresh(e) == Change(None, e)
FreshAs(x) == IF Shape = "maps" THEN (IF x = 0 THEN NoMap ELSE [j \in {1} |-> x]) ELSE IF Shape = "seqs" THEN <<x>> ELSE x

(* The key that a call is about: for a prefix the largest one under it. *)
Target(e) ==
  IF e.op = "put" /\ e.how = "pmod" THEN
    LET S == {k \in DOMAIN c : k \div 10 = e.k \div 10} IN IF S = {} THEN -1 ELSE Max(S)
  ELSE e.k
Makes(h) == h \in {"insert", "mod_or", "or_insert", "or_insert_with", "or_insert_with_key", "or_default", "into_mut", "deep"}
PutEffect(e) ==
  LET k == Target(e)  h == e.how IN
  IF Has(c, k) THEN
    CASE h = "insert" -> Put(c, k, Fresh(e))
      [] h \in {"or_insert", "or_insert_with", "or_insert_with_key"} -> c
      [] OTHER -> Put(c, k, Change(c[k], e))
  ELSE IF Makes(h) THEN Put(c, k, Fresh(e)) ELSE c
RECURSIVE Gathered(_, _)
Gathered(m, xs) == IF xs = <<>> THEN m ELSE Gathered(Put(m, Head(xs)[1], FreshAs(Head(xs)[2])), Tail(xs))
Effect(e) ==
  CASE e.op = "put" -> PutEffect(e)
    [] e.op = "rem" -> Del(c, e.k)
    [] e.op = "ins" -> Put(c, e.k, Append(At(c, e.k, <<>>), e.x))
    [] e.op = "clear" -> IF Shape = "seq" THEN <<>> ELSE NoMap
    [] e.op = "app" -> Append(c, e.x)
    [] e.op = "ext" -> c \o e.xs
    [] e.op = "make" -> e.xs
    [] e.op = "collect" -> IF Shape = "seq" THEN e.xs ELSE Gathered(NoMap, e.xs)
    [] OTHER -> c

(* Does the call come to run the closure? the iterator to its n-th item? *)
Calls(e) ==
  CASE e.op = "put" ->
         IF e.how \in {"and_modify", "mod_or", "get_mut", "modify", "pmod"} THEN Has(c, Target(e))
         ELSE e.how \in {"or_insert_with", "or_insert_with_key"} /\ ~Has(c, e.k)
    [] e.op = "nwit" -> Has(c, e.k)
    [] e.op = "with" -> DOMAIN c # {}
    [] OTHER -> FALSE
Runs(e) == CASE e.op \in {"ext", "collect"} -> e.at \in 1..(Len(e.xs) + 1)
             [] e.op = "each" -> e.at \in 1..Cardinality(DOMAIN c)
             [] OTHER -> FALSE
Booms(e) == (e.boom # "" /\ Calls(e)) \/ (e.at > 0 /\ Runs(e))
(* What is there after the closure or the iterator panicked. *)
Left(e) ==
  CASE e.op = "ext" -> c \o SubSeq(e.xs, 1, e.at - 1)
    [] e.op = "put" /\ e.boom = "after" /\ e.how \notin {"or_insert_with", "or_insert_with_key"} -> Effect(e)
    [] OTHER -> c
Reads(e) == e.op \in {"root", "tree", "get", "wit", "nwit", "each", "keys", "krange", "vrange", "with", "last", "lwit", "clone", "len"}

ContentsOK(e) ==
  CASE e.panicked = "" -> Chk("the call left other contents than it should: " \o e.op, c' = Effect(e))
    [] e.panicked = "boom" -> Chk("not the changes made up to the panic: " \o e.op, c' = Left(e))
    [] Reads(e) -> Chk("a read changed something: " \o e.op, c' = c)
    [] OTHER -> Chk("contents that nobody made: " \o e.op,
                    Cut(Shape, c, IF Booms(e) THEN Left(e) ELSE Effect(e), c') \/ Cut(Shape, c, Effect(e), c'))
Size == IF Shape = "seq" THEN Len(c') ELSE Cardinality(DOMAIN c')
WitsOK(e) ==
  \A i \in 1..Len(e.wits) :
    LET w == e.wits[i] IN
    /\ Chk("a witness does not prove what is stored", w[2])
    /\ Chk("a witness shows or hides the wrong key", w[3] = Has(c', w[1]))

StepOK(e) ==
  /\ Chk("something was released twice or used after its release: " \o e.op, ~e.fault)
  /\ Chk("the call did not pass the panic on, or came to another one: " \o e.op,
         IF e.panicked = "trip" THEN e.trip # <<>>
         ELSE IF e.trip = <<>> THEN (e.panicked = "boom") = Booms(e)
         ELSE (e.panicked = "boom") => Booms(e))
  /\ Chk("the contents are not in order: " \o e.op, Proper(e.items))
  /\ c' = Read(e.items)
  /\ ContentsOK(e)
  /\ Chk("the length does not fit the contents: " \o e.op, e.len = Size)
  /\ Chk("something leaked: " \o e.op, e.panicked # "trip" => e.extra <= extra)
  /\ extra' = e.extra
  /\ ~e.quiet => /\ Chk("the root hash does not fit the contents: " \o e.op, e.own)
                 /\ WitsOK(e)

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     /\ NoFailure(e)
     /\ IF e.op = "new" THEN kt' = e.kt /\ c' = NoMap /\ extra' = 0
        ELSE UNCHANGED kt /\ StepOK(e)
Spec == Init /\ [][Next]_vars
=============================================================================
