------------------------------ MODULE TraceSeq ------------------------------
(***************************************************************************)
(* Judges recorded executions on sequences.  A history works on numbered   *)
(* slots.  A hash is recorded as a number, equal hashes as equal numbers;  *)
(* 0 stands for 32 zero bytes.  tab collects which list had which hash.    *)
(* Judge: seq, reload, own (C19).                                          *)
(***************************************************************************)
EXTENDS HashBytes, Ownership, Conform, SequencesExt

VARIABLES l, q, tab, own
vars == <<l, q, tab, own>>

Init == l = 1 /\ own = <<>> /\ q = <<>> /\ tab = << >>

(* Every slice [a, b) of the list that was asked for. *)
SliceOK(e, s) == \A i \in 1..Len(e.slices) :
   LET r == e.slices[i] IN r[3] = SubSeq(s, r[1] + 1, r[2])

ObsOK(e, s) == "seq" \in Judge =>
  /\ Chk("items", e.items = s)
  /\ Chk("len", e.len = Len(s))
  /\ Chk("is_empty", e.empty = (s = <<>>))
  /\ Chk("the read accesses agree", e.vec = s /\ e.asref = s /\ e.borrow = s /\ e.index = s)
  /\ Chk("slices", SliceOK(e, s))
  /\ Chk("index out of range", e.oob)
  /\ Chk("iterator", e.iterlen = Len(s) /\ e.rev = [i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
  /\ Chk("capacity", e.cap)
  /\ Chk("root hash is the chain over the items", e.own)
  /\ Chk("exported tree is the pruned root hash", e.tree)
  /\ Chk("zero hash exactly when empty", (e.hash = 0) = (s = <<>>))
  /\ Chk("two lists share a hash", e.hash \in DOMAIN tab => tab[e.hash] = s)
  /\ Chk("a list has two hashes", \A h \in DOMAIN tab : tab[h] = s => h = e.hash)

PeekOK(e, s) == "seq" \in Judge =>
  LET n == Len(s) IN
  /\ Chk("len", e.len = n /\ e.iterlen = n)
  /\ Chk("the first and the last items", e.head = SubSeq(s, 1, Min({n, e.m})) /\ e.tail = SubSeq(s, n + 1 - Min({n, e.m}), n))
  /\ Chk("root hash is the chain over the items", e.own)
  /\ Chk("equal lists are equal", e.eq)

Note(e, s) == IF e.hash \in DOMAIN tab THEN tab ELSE [h \in DOMAIN tab \cup {e.hash} |-> IF h = e.hash THEN s ELSE tab[h]]

(* The chain of hashes byte by byte, from the exported trees of the items. *)
ShaOK(e, s) ==
  /\ Chk("the items have hashes", Len(e.trees) = Len(s))
  /\ LET z == [i \in 1..32 |-> 0] IN
     Chk("the hash chain byte by byte",
         e.hash = FoldLeft(LAMBDA a, t : Sha256(a \o HashBytes(t)), z, e.trees))

Change(e) ==
  LET s == e.s IN
  CASE e.op = "make" -> q' = [q EXCEPT ![s] = e.items]
    [] e.op = "app" -> q' = [q EXCEPT ![s] = Append(@, e.x)]
    [] e.op = "ext" -> q' = [q EXCEPT ![s] = @ \o e.items]
    [] e.op = "clear" -> q' = [q EXCEPT ![s] = <<>>]
    [] e.op = "room" -> q' = q
    [] e.op = "clone" -> q' = [q EXCEPT ![s] = q[e.from]]
    [] e.op = "drop" -> q' = [i \in DOMAIN q |-> <<>>]
    [] e.op = "take" -> /\ Chk("converting to a vector", e.vec = q[s])
                        /\ q' = [q EXCEPT ![s] = <<>>]
    [] e.op = "many" -> q' = [q EXCEPT ![s] = @ \o [i \in 1..e.n |-> 1 + ((e.x + i) % e.nv)]]
    [] e.op = "fresh" -> q' = [q EXCEPT ![s] = [i \in 1..e.n |-> 1 + ((e.x + i) % e.nv)]]
    [] e.op = "badcodec" -> /\ IF "reload" \in Judge THEN Chk("broken input is refused", e.refused) ELSE TRUE
                            /\ q' = q
    [] e.op = "reload" -> /\ IF "reload" \in Judge
                             THEN /\ Chk("decoding what was encoded", e.res = "ok")
                                  /\ Chk("interchangeable with a list", e.inter)
                             ELSE TRUE
                          /\ q' = q
    [] e.op = "decode" -> /\ IF "reload" \in Judge THEN Chk("decoding a list", e.res = "ok") ELSE TRUE
                          /\ q' = [q EXCEPT ![s] = e.items]

(* C19: the instances in the slots. *)
All(o) == UNION {Members(o[i]) : i \in DOMAIN o}
OwnStep(e) ==
  LET h == IF e.op = "drop" THEN [i \in DOMAIN q |-> <<>>] ELSE e.own.held
      live == Members(e.own.live)
  IN /\ Chk("released twice, or used after it was released", ~e.own.fault)
     /\ Chk("what is stored is not what the contents call for",
            DOMAIN h = DOMAIN q' /\ \A i \in DOMAIN h : Len(h[i]) = Len(q'[i]))
     /\ Chk("an instance is stored twice", Cardinality(All(h)) = FoldLeft(LAMBDA a, x : a + Len(x), 0, h))
     /\ Chk("an instance was lost (neither stored nor returned nor released)", live \subseteq All(h))
     /\ Chk("an instance was released too early", All(h) \subseteq live)
     /\ Chk("an instance was exchanged for another",
            \A i \in DOMAIN h :
              IF e.op = "drop" \/ i # e.s \/ e.op \in {"obs", "sha", "eq", "room", "badcodec", "peek"} THEN e.op = "drop" \/ h[i] = own[i]
              ELSE IF e.op \in {"app", "ext", "many"} THEN Grows(own[i], h[i], All(own))
              ELSE All(own) \cap Members(h[i]) = {})
     /\ Chk("what was handed back is not what was stored",
            e.op = "take" => e.own.saw = SubSeq(own[e.s], 1, IF Len(own[e.s]) < 3 THEN Len(own[e.s]) ELSE 3))
     /\ own' = h
Owning(e) == IF "own" \in Judge /\ "own" \in DOMAIN e THEN OwnStep(e) ELSE UNCHANGED own

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     /\ NoFailure(e)
     /\ CASE e.op = "new" -> q' = [i \in 1..e.slots |-> <<>>] /\ tab' = << >>
          [] e.op = "obs" -> /\ ObsOK(e, q[e.s])
                             /\ tab' = Note(e, q[e.s]) /\ UNCHANGED q
          [] e.op = "peek" -> PeekOK(e, q[e.s]) /\ UNCHANGED <<q, tab>>
          [] e.op = "sha" -> ShaOK(e, q[e.s]) /\ UNCHANGED <<q, tab>>
          [] e.op = "eq" -> /\ Chk("equality", e.r = (q[e.s] = q[e.from]))
                            /\ UNCHANGED <<q, tab>>
          [] OTHER -> Change(e) /\ UNCHANGED tab
     /\ IF e.op = "new" THEN own' = [i \in 1..e.slots |-> <<>>] ELSE Owning(e)
Spec == Init /\ [][Next]_vars
=============================================================================
