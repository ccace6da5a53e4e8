------------------------------ MODULE TraceMap ------------------------------
(***************************************************************************)
(* Judges recorded executions of Map / RbTree / Entry against CertMap.     *)
(* One event per call: the call with its arguments and everything that     *)
(* came back.  An event that the specification does not allow has no       *)
(* successor; the run is accepted when every event was consumed.           *)
(* `Judge' selects what is judged: ret (results of operations), obs (reads),*)
(* root (hash and tree), shape, wit, krs, vrs, keys, label (C09), reload,  *)
(* steps (C04), own (C19).                                                *)
(***************************************************************************)
EXTENDS CertMap, HashBytes, Ownership, Steps, Conform

VARIABLES l, m, aux, own
vars == <<l, m, aux, own>>

Old(k) == IF Has(m, k) THEN m[k] ELSE 0
DefaultId == 99

RECURSIVE PutAll(_, _)
PutAll(f, items) == IF items = <<>> THEN f
                    ELSE PutAll(Put(f, items[1][1], items[1][2]), Tail(items))

(* The contents that a list of pairs stands for (ascending lists of all    *)
(* keys up to some point, which can be long, are read off).                *)
FromItems(items) ==
  LET n == Len(items) IN
  IF n > 100 /\ \A i \in 1..n : items[i][1] = 2 * i
  THEN [k \in {2 * i : i \in 1..n} |-> items[k \div 2][2]]
  ELSE PutAll(NoMap, items)

(* The contents after an operation. *)
Effect(e) ==
  LET k == e.k
      ifhas(f) == IF Has(m, k) THEN f ELSE m
  IN CASE e.op = "ins" -> Put(m, k, e.v)
       [] e.op = "insw" -> Put(m, k, e.w)
       [] e.op \in {"rem", "reme", "erem", "ereme"} -> Del(m, k)
       [] e.op \in {"mod", "gmw", "egmw", "eimw"} -> ifhas(Put(m, k, e.v))
       [] e.op \in {"eoi", "eoiw", "eoik", "eod"} ->
            LET d == IF e.op = "eod" THEN DefaultId ELSE e.v IN
            IF e.w # 0 THEN Put(m, k, e.w) ELSE IF Has(m, k) THEN m ELSE Put(m, k, d)
       [] e.op = "eam" -> IF Has(m, k) THEN Put(m, k, e.v)
                          ELSE IF e.w # 0 THEN Put(m, k, e.w) ELSE m
       [] e.op = "evi" -> IF Has(m, k) THEN m ELSE Put(m, k, IF e.w # 0 THEN e.w ELSE e.v)
       [] e.op = "eget" -> m

(* What an operation returns. *)
RetOK(e) ==
  LET k == e.k IN
  CASE e.op \in {"ins", "rem", "erem", "mod", "gmw", "eimw"} -> e.ret = Old(k)
    [] e.op = "insw" -> e.ret = Old(k) /\ e.seen = e.v
    [] e.op \in {"reme", "ereme"} -> e.ret = (IF Has(m, k) THEN <<k, m[k]>> ELSE <<0, 0>>)
    [] e.op \in {"eoi", "eoiw", "eoik"} -> /\ e.seen = (IF Has(m, k) THEN m[k] ELSE e.v)
                                            /\ e.called = (IF e.op = "eoi" \/ Has(m, k) THEN 0 ELSE 1)
    [] e.op = "eod" -> e.seen = (IF Has(m, k) THEN m[k] ELSE DefaultId)
    [] e.op = "eam" -> e.called = (IF Has(m, k) THEN 1 ELSE 0) /\ e.ret = Old(k) /\ e.seen = (IF e.w = 0 THEN 0 ELSE IF Has(m, k) THEN e.v ELSE e.w)
    [] e.op = "egmw" -> e.ret = Old(k) /\ e.seen = (IF Has(m, k) THEN e.v ELSE 0)
    [] e.op = "evi" -> e.seen = (IF Has(m, k) THEN 0 ELSE e.v)
    [] e.op = "eget" -> /\ e.occ = (IF Has(m, k) THEN 1 ELSE 0)
                        /\ e.key = k /\ e.into = k /\ e.ret = Old(k)

KeyOps == {"ins", "insw", "rem", "reme", "mod", "gmw", "eoi", "eoiw", "eoik", "eod",
           "eam", "erem", "ereme", "eget", "egmw", "eimw", "evi"}

-----------------------------------------------------------------------------
ObsOK(e) ==
  LET n == Cardinality(DOMAIN m)  ps == Pairs(m) IN
  /\ Chk("len", e.len = n)
  /\ Chk("is_empty", e.empty = (n = 0))
  /\ Chk("iteration", e.items = ps)
  /\ Chk("for_each", e.fe = ps)
  /\ ("shown" \in DOMAIN e => Chk("debug output", e.shown = ps))
  /\ Chk("size_hint", e.hints = [i \in 1..(n + 1) |-> n + 1 - i])
  /\ Chk("get", \A i \in 1..Len(e.gets) :
        e.gets[i][2] = Old(e.gets[i][1]) /\ e.gets[i][3] = Old(e.gets[i][1]))

RootOK(e) ==
  /\ Chk("root hash is the hash of the exported tree", e.own)
  /\ Chk("reconstruct of the exported tree", e.rec)
  /\ Chk("exported tree lists the contents", e.full = (IF Cardinality(DOMAIN m) > 300 THEN Pairs(m) ELSE Full(m)))

(* Reads made while another read is under way: r[i] is where, the length,  *)
(* the contents, a point with its value and its witness, and whether the   *)
(* hashes agreed.                                                          *)
InsideOK(e) ==
  /\ Chk("the outer read", e.ok /\ e.items = Pairs(m) /\ e.fe = Pairs(m))
  /\ \A i \in 1..Len(e.r) : LET x == e.r[i] IN
       Chk("a read during " \o x[1],
           /\ x[2] = Cardinality(DOMAIN m) /\ x[3] = Pairs(m) /\ x[8] = Pairs(m) /\ x[7]
           /\ x[5] = Old(x[4]) /\ x[6] = Witness(m, x[4]))

WitOK(name, ok, toks, exp) ==
  /\ Chk(name \o ": reconstructs to the root hash", ok)
  /\ Chk(name \o ": discloses exactly what it should", toks = exp)

-----------------------------------------------------------------------------
(* Balance.  The exported tree of a node is                                *)
(*   both children: Fork(l, Fork(data, r));  left only: Fork(l, data);     *)
(*   right only: Fork(data, r);  none: data.                               *)
(* Readings(s) is the set of <<shortest, longest>> path lengths over all   *)
(* ways to read s (an entry is <<rank>>, a fork <<left, right>>).          *)
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
RECURSIVE Readings(_)
Readings(s) ==
  IF Len(s) = 0 THEN { <<0, 0>> }
  ELSE IF Len(s) = 1 THEN { <<1, 1>> }
  ELSE LET a == s[1]  b == s[2] IN
     (IF Len(b) = 1 THEN { <<1, 1 + p[2]>> : p \in Readings(a) } ELSE {})
     \cup (IF Len(a) = 1 THEN { <<1, 1 + p[2]>> : p \in Readings(b) } ELSE {})
     \cup (IF Len(b) = 2 /\ Len(b[1]) = 1
           THEN { <<1 + Least(p[1], q[1]), 1 + Most(p[2], q[2])>>
                  : p \in Readings(a), q \in Readings(b[2]) } ELSE {})

ShapeOK(e) ==
  LET n == Cardinality(DOMAIN m)  h == 2 * (Log2(n + 1) + 1) IN   \* h >= height
  /\ Chk("some path is more than twice as long as another",
         "tree" \in DOMAIN e => \E p \in Readings(e.tree) : p[2] <= 2 * p[1])
  /\ Chk("depth of the exported tree", e.depth <= 2 * h)
  /\ Chk("depth of a single-key witness", e.wdepth <= 2 * h)

(* Comparisons and labels taken by one operation on a map of n entries. *)
StepsOK(e) ==
  LET n == Cardinality(DOMAIN m) + 1 IN
  /\ Chk("number of comparisons is not logarithmic", FewComparisons(e.cmps, n))
  /\ Chk("number of hashes is not logarithmic", FewLabels(e.labs, n))
CostOK(e) ==
  LET n == Cardinality(DOMAIN m) IN \A i \in 1..Len(e.r) :
    /\ Chk("number of comparisons of a read is not logarithmic: " \o e.r[i][2], FewComparisons(e.r[i][3], n))
    /\ Chk("number of hashes of a read is not logarithmic: " \o e.r[i][2], FewLabels(e.r[i][4], n))

-----------------------------------------------------------------------------
(* C09: the labels by the certificate rules.  aux.labels[k] is the byte    *)
(* string of key k; aux.known is the rule of a known finding, "" for none. *)
LabelLT(p, q) == BytesLess(aux.labels[p], aux.labels[q], 1)

(* Pairs of keys p < q that a known finding puts in the wrong order. *)
KnownInversion(p, q) ==
  LET a == aux.labels[p]  b == aux.labels[q] IN
  CASE aux.known = "sign"   -> a[1] >= 128 /\ b[1] < 128
    [] aux.known = "length" -> Len(a) < Len(b)
    [] aux.known = "address" -> TRUE
    [] OTHER -> FALSE
LabelsAscend(toks) ==
  LET n == Len(toks)
      bad == {x \in (1..n) \X (1..n) : x[1] < x[2] /\ toks[x[1]] # Gap /\ toks[x[2]] # Gap
                                     /\ ~LabelLT(toks[x[1]][1], toks[x[2]][1])}
  IN Chk("labels are not strictly increasing",
         \A x \in bad : KnownInversion(toks[x[1]][1], toks[x[2]][1]))
(* A verifier looking any key up in the witness learns nothing false. On   *)
(* kinds with a known finding the order of the keys stands in.             *)
SoundOK(toks) ==
  /\ Chk("unknown label", \A i \in 1..Len(toks) : toks[i] = Gap \/ toks[i][1] \in DOMAIN aux.labels)
  /\ LabelsAscend(toks)
  /\ LET Less(p, q) == IF aux.known = "" THEN LabelLT(p, q) ELSE p < q IN
     Chk("a verifier concludes something false",
       \A q \in DOMAIN aux.labels :
         LET r == Lookup(toks, q, Less) IN
           CASE r[1] = "found"  -> Has(m, q) /\ (r[2] = Hidden \/ r[2] = m[q])
             [] r[1] = "absent" -> ~Has(m, q)
             [] OTHER           -> TRUE)
Inverted == \E p, q \in DOMAIN m : p < q /\ ~LabelLT(p, q)
SoundAll(e) ==
  CASE e.op = "root" -> SoundOK(e.full)
    [] e.op = "keys" -> SoundOK(e.toks)
    [] e.op = "wits" -> \A i \in 1..Len(e.r) : SoundOK(e.r[i][3])
    [] e.op \in {"krs", "vrs"} -> \A i \in 1..Len(e.r) : SoundOK(e.r[i][4])
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
Init == l = 1 /\ m = NoMap /\ own = << >> /\ aux = [known |-> "", labels |-> <<>>, seenKnown |-> TRUE, kt |-> ""]

New(e) ==
  /\ m' = NoMap
  /\ aux' = [known |-> IF "known" \in DOMAIN e THEN e.known ELSE "",
             labels |-> IF "labels" \in DOMAIN e
                        THEN [k \in {e.labels[i][1] : i \in 1..Len(e.labels)} |->
                                e.labels[CHOOSE i \in 1..Len(e.labels) : e.labels[i][1] = k][2]]
                        ELSE <<>>,
             seenKnown |-> FALSE, kt |-> e.kt]

Change(e) ==
  /\ UNCHANGED aux
  /\ CASE e.op \in KeyOps ->
            /\ IF "ret" \in Judge THEN Chk("result of " \o e.op, RetOK(e)) ELSE TRUE
            /\ IF "steps" \in Judge /\ "cmps" \in DOMAIN e THEN StepsOK(e) ELSE TRUE
            /\ m' = Effect(e)
       [] e.op \in {"clear", "drop"} -> m' = NoMap
       [] e.op = "fromiter" -> m' = FromItems(e.items)
       [] e.op = "extend" -> m' = PutAll(m, e.items)
       [] e.op = "reload" -> /\ IF "reload" \in Judge
                                THEN /\ Chk("decoding what was encoded", e.res = "ok")
                                     /\ Chk("interchangeable with plain data", e.inter)
                                ELSE TRUE
                             /\ m' = m
       [] e.op = "decode" -> /\ IF "reload" \in Judge THEN Chk("decoding plain data", e.res = "ok") ELSE TRUE
                             /\ m' = FromItems(e.items)

(* Report the known finding once per history. *)
SayKnown ==
  IF aux.known # "" /\ ~aux.seenKnown /\ Inverted
  THEN PrintT(<<"KNOWN", aux.kt, aux.known>>) /\ aux' = [aux EXCEPT !.seenKnown = TRUE]
  ELSE UNCHANGED aux

Read(e) ==
  /\ UNCHANGED m
  /\ CASE e.op = "obs" -> IF "obs" \in Judge THEN ObsOK(e) ELSE TRUE
       [] e.op = "root" -> IF "root" \in Judge THEN RootOK(e) ELSE TRUE
       [] e.op = "sha" ->
            IF "root" \in Judge THEN Chk("the root hash byte by byte", e.hash = HashBytes(e.tree) /\ Len(Labels(e.tree)) >= Cardinality(DOMAIN m)) ELSE TRUE
       [] e.op = "badcodec" -> IF "reload" \in Judge THEN Chk("broken input is refused", e.refused) ELSE TRUE
       [] e.op = "shape" -> IF "shape" \in Judge THEN ShapeOK(e) ELSE TRUE
       [] e.op = "inside" -> IF "inside" \in Judge THEN InsideOK(e) ELSE TRUE
       [] e.op = "cost" -> IF "steps" \in Judge THEN CostOK(e) ELSE TRUE
       [] e.op = "keys" -> IF "keys" \in Judge THEN WitOK("all-keys witness", e.ok, e.toks, AllKeys(m)) ELSE TRUE
       [] e.op = "wits" -> \A i \in 1..Len(e.r) :
            LET q == e.r[i][1] IN
            IF (IF Has(m, q) THEN "wit" ELSE "awit") \in Judge
            THEN WitOK(IF Has(m, q) THEN "witness" ELSE "absence witness", e.r[i][2], e.r[i][3], Witness(m, q))
            ELSE TRUE
       [] e.op = "krs" -> IF "krs" \in Judge THEN \A i \in 1..Len(e.r) :
            WitOK("key-range witness", e.r[i][3], e.r[i][4], KeyRange(m, e.r[i][1], e.r[i][2])) ELSE TRUE
       [] e.op = "vrs" -> IF "vrs" \in Judge THEN \A i \in 1..Len(e.r) :
            WitOK("value-range witness", e.r[i][3], e.r[i][4], ValueRange(m, e.r[i][1], e.r[i][2])) ELSE TRUE
  /\ IF "label" \in Judge THEN SoundAll(e) /\ SayKnown ELSE UNCHANGED aux

(***************************************************************************)
(* C19: the instances that exist, those that are stored, and those that    *)
(* the operation handed back.                                              *)
(***************************************************************************)
OwnStep(e) ==
  LET h == e.own.held
      new == [k \in {h[i][1] : i \in 1..Len(h)} |-> LET i == CHOOSE j \in 1..Len(h) : h[j][1] = k IN <<h[i][2], h[i][3]>>]
      k == IF "k" \in DOMAIN e THEN e.k ELSE 0
      w == IF "w" \in DOMAIN e THEN e.w ELSE 0
  IN /\ Chk("released twice, or used after it was released", ~e.own.fault)
     /\ Chk("what is stored is not what the contents call for", DOMAIN new = DOMAIN m' /\ Len(h) = Cardinality(DOMAIN m'))
     /\ Chk("an instance is stored twice", Once(new))
     /\ Chk("an instance was lost (neither stored nor returned nor released)", Members(e.own.live) \subseteq IdsOf(new))
     /\ Chk("an instance was released too early", IdsOf(new) \subseteq Members(e.own.live))
     /\ Chk("an instance was exchanged for another", OwnOK(own, new, e.op, k, w))
     /\ Chk("what was handed back is not what was stored",
            k \in DOMAIN own => LET x == Handed(own, e.op, k) IN x = SubSeq(e.own.saw, 1, Len(x)))
     /\ own' = new
Owning(e) == IF "own" \in Judge /\ "own" \in DOMAIN e THEN OwnStep(e) ELSE UNCHANGED own

ReadOps == {"inside", "cost", "obs", "root", "shape", "keys", "wits", "krs", "vrs", "badcodec", "sha"}

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     /\ NoFailure(e)
     /\ CASE e.op = "new" -> New(e)
          [] e.op \in ReadOps -> Read(e)
          [] OTHER -> Change(e)
     /\ IF e.op = "new" THEN own' = << >> ELSE Owning(e)
Spec == Init /\ [][Next]_vars
=============================================================================
