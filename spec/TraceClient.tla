----------------------------- MODULE TraceClient ----------------------------
(***************************************************************************)
(* Judges what a client makes of the certificates of a group, bytes to     *)
(* answers.  The state is the truth: what is stored at every path, a path  *)
(* being a sequence of labels (byte strings) from the root.                *)
(*   <<"v", bytes>>   a value, by its canonical bytes                      *)
(*   <<"s", items>>   a sequence, certified as the hash of its items       *)
(*   <<"m">>          a collection, perhaps empty                          *)
(* Judge: client; sha: also compute the certificate's hash here.           *)
(***************************************************************************)
EXTENDS HashBytes, Conform, SequencesExt, FiniteSetsExt

BL(a, b) == BytesLess(a, b, 1)
BLE(a, b) == a = b \/ BL(a, b)
INSTANCE Client WITH Less <- BL

VARIABLES l,
          cells,      \* path -> what is stored there
          at          \* member -> its path
vars == <<l, cells, at>>

NoMap == [x \in {} |-> 0]
PutC(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Starts(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p        \* p is the beginning of q
Fresh(mem) ==
  CASE mem = "sq" -> <<"s", <<>>>>
    [] mem = "nu" -> <<"v", <<0, 0, 0, 0, 0, 0, 0, 0>>>>
    [] mem = "tx" -> <<"v", <<>>>>
    [] OTHER -> <<"m">>
Truth(p) ==
  IF p \in DOMAIN cells THEN cells[p]
  ELSE IF \E q \in DOMAIN cells : Starts(p, q) THEN <<"m">> ELSE <<"none">>

(* The collections on the way to a new entry come into being with it. *)
Way(f, p, from) ==
  LET need == {SubSeq(p, 1, i) : i \in from..(Len(p) - 1)} \ DOMAIN f
  IN [x \in DOMAIN f \cup need |-> IF x \in DOMAIN f THEN f[x] ELSE <<"m">>]

(* Pages of two items, labelled by the key and the number of the page. *)
PageSize == 2
BE4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
PageAt(p, k, n) == Append(p, k \o BE4(n))
RECURSIVE LastOf(_, _, _)
LastOf(p, k, n) == IF PageAt(p, k, n) \in DOMAIN cells THEN LastOf(p, k, n + 1) ELSE n - 1     \* -1: none
Grown(f, p, x) == PutC(f, p, <<"s", (IF p \in DOMAIN f THEN f[p][2] ELSE <<>>) \o <<x>>>>)

Change(e) ==
  LET p == at[e.mem]
      q == p \o e.keys
  IN CASE e.op = "reload" -> cells
       [] e.op = "put" -> PutC(Way(cells, q, Len(p)), q, <<"v", e.v>>)
       [] e.op = "sub" -> LET w == Way(cells, q, Len(p)) IN IF q \in DOMAIN w THEN w ELSE PutC(w, q, <<"m">>)
       [] e.op = "push" /\ e.mem = "pg" ->
            LET n == LastOf(p, e.keys[1], 0)
                c == PageAt(p, e.keys[1], IF n < 0 THEN 0 ELSE n)
            IN Grown(cells, IF n >= 0 /\ Len(cells[c][2]) = PageSize THEN PageAt(p, e.keys[1], n + 1) ELSE c, e.v)
       [] e.op = "push" -> Grown(Way(cells, q, Len(p)), q, e.v)
       [] e.op = "del" -> [x \in {y \in DOMAIN cells : ~Starts(q, y)} |-> cells[x]]
       [] e.op = "clear" ->
            LET f == [x \in {y \in DOMAIN cells : ~Starts(q, y) \/ y = q} |-> cells[x]]
            IN IF q \in DOMAIN f /\ f[q][1] = "s" THEN PutC(f, q, <<"s", <<>>>>) ELSE f

(***************************************************************************)
(* What a request asks for at a path below the member:                     *)
(* 0 nothing, 1 whether it is there, 2 what it is.                         *)
(***************************************************************************)
RECURSIVE Asked(_, _, _)
Asked(r, p, q) ==                \* p: the path of the collection asked, q: the rest
  IF r.how = "full" THEN 2
  ELSE IF q = <<>> THEN 1
  ELSE CASE r.how = "pruned" -> 0
         [] r.how = "wit" -> IF q[1] = r.a THEN 2 ELSE 0
         [] r.how = "kr" -> IF Len(q) = 1 /\ BLE(r.a, q[1]) /\ BLE(q[1], r.b) THEN 1 ELSE 0
         [] r.how = "vr" -> IF BLE(r.a, q[1]) /\ BLE(q[1], r.b) THEN 2 ELSE 0
         [] r.how = "keys" -> IF Len(q) = 1 THEN 1 ELSE 0
         [] r.how = "prefix" -> IF Len(q) = 1 /\ Starts(r.a, q[1]) THEN 1 ELSE 0
         [] r.how = "in" -> IF q[1] # r.a THEN 0 ELSE Asked(r.in, Append(p, r.a), Tail(q))
         [] r.how = "page" -> IF q = <<r.a \o r.b>> THEN 2 ELSE 0
         [] r.how = "last" ->
              LET n == LastOf(p, r.a, 0) IN
              IF /\ Len(q) = 1 /\ Len(q[1]) = Len(r.a) + 4 /\ Starts(r.a, q[1])
                 /\ n >= 0 => BLE(r.a \o BE4(n), q[1])
              THEN 1 ELSE 0
(* (Below a sequence there is nothing to look up: it is certified as one hash.) *)
AskedOf(e, path) ==
  IF \E i \in 0..(Len(path) - 1) : Truth(SubSeq(path, 1, i))[1] = "s" THEN 0 ELSE
  Max({0} \cup {LET r == e.reqs[i]  p == at[r.mem] IN
                IF Starts(p, path) THEN Asked(r, p, SubSeq(path, Len(p) + 1, Len(path))) ELSE 0 : i \in 1..Len(e.reqs)})

(* The running hash of a sequence. *)
Zero == [i \in 1..32 |-> 0]
Chain(items) == FoldLeft(LAMBDA h, x : Sha256(h \o Sha256(PreLeaf(x))), Zero, items)
ChainIs(h, items) == "sha" \notin Judge \/ h = Chain(items)

(* The paths looked up: those given and everything stored where something was asked. *)
Questions(e) ==
  {e.probe[i] : i \in 1..Len(e.probe)}
  \cup {p \in DOMAIN cells : \E i \in 1..Len(e.reqs) : Starts(at[e.reqs[i].mem], p)}

AskOK(e) ==
  /\ Chk("the certificate hashes to the published root", e.own)
  /\ Chk("the certificate can be read", Readable(e.cert))
  /\ LET t == Read(e.cert)  qs == Questions(e) IN
     /\ "sha" \in Judge => Chk("the hash of the certificate, by the rules, is the published root", HashBytes(t) = e.root)
     /\ \A q \in qs :
          LET a == Resolve(t, q)  w == Truth(q) IN
          /\ Chk("a client is never told what is not so", Honest(a, w, ChainIs))
          /\ Chk("what was asked for is answered", Settled(a, w, AskedOf(e, q)))

Init == l = 1 /\ cells = NoMap /\ at = NoMap
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     /\ NoFailure(e)
     /\ CASE e.op = "new" ->
               LET ms == {e.members[i] : i \in 1..Len(e.members)}
                   of(n) == (CHOOSE m \in ms : m[1] = n)[2]
                   names == {m[1] : m \in ms}
               IN /\ at' = [n \in names |-> of(n)]
                  /\ cells' = [p \in {m[2] : m \in ms} |-> Fresh((CHOOSE m \in ms : m[2] = p)[1])]
          [] e.op = "ask" -> AskOK(e) /\ UNCHANGED <<cells, at>>
          [] OTHER -> cells' = Change(e) /\ UNCHANGED at
Spec == Init /\ [][Next]_vars
=============================================================================
