----------------------------- MODULE TracePaged -----------------------------
(***************************************************************************)
(* Judges recorded executions on paged maps.  A page number that was asked *)
(* for is given in base 65536, most significant digit first.               *)
(* Judge: page, last, pwit, lwit, root, reload, label, own (C19), steps.    *)
(***************************************************************************)
EXTENDS Pages, Ownership, Steps, Conform

VARIABLES l, m, S, aux, own
vars == <<l, m, S, aux, own>>

Init == l = 1 /\ own = << >> /\ m = NoMap /\ S = 1 /\ aux = [known |-> "", labels |-> <<>>, kt |-> "", seen |-> TRUE]

PageNum(d) ==
  LET n == Len(d) IN
  IF \/ \E i \in 1..(n - 2) : d[i] # 0
     \/ n >= 2 /\ d[n - 1] >= 15
  THEN BigPage ELSE (IF n >= 2 THEN d[n - 1] * 65536 ELSE 0) + d[n]

(* C04: every page is an entry of the tree. *)
Pagesin(x) == FoldSet(LAMBDA k, a : a + NPages(x[k], S), 0, DOMAIN x)
CostOK(e) ==
  LET n == Pagesin(m) IN \A i \in 1..Len(e.r) :
    /\ Chk("number of comparisons is not logarithmic: " \o e.r[i][2], FewComparisons(e.r[i][3], n))
    /\ Chk("number of hashes is not logarithmic: " \o e.r[i][2], FewLabels(e.r[i][4], n))
StepsOK(e) ==
  LET n == Pagesin(m) + 1 IN
    /\ Chk("number of comparisons of an insertion is not logarithmic", FewComparisons(e.cmps, n))
    /\ Chk("number of hashes of an insertion is not logarithmic", FewLabels(e.labs, n))

Many(e) == [i \in 1..e.n |-> 1 + ((e.x + i) % 9)]
Change(e) ==
  CASE e.op = "ins" -> /\ IF "steps" \in Judge /\ "cmps" \in DOMAIN e THEN StepsOK(e) ELSE TRUE
                       /\ m' = AddItem(m, e.k, e.x)
    [] e.op = "drop" -> m' = NoMap
    [] e.op = "bulk" -> m' = IF e.n = 0 THEN m ELSE Put(m, e.k, ItemsOf(m, e.k) \o Many(e))
    [] e.op = "reload" -> /\ IF "reload" \in Judge THEN
                                /\ Chk("decoding what was encoded", e.res = "ok")
                                /\ Chk("interchangeable with plain data", e.inter)
                             ELSE TRUE
                          /\ m' = m

(* A witness: <<hashes to the root, tokens, every shown page hash is that of the page>> *)
WitOK(name, r, exp) ==
  /\ Chk(name \o ": reconstructs to the root hash", r[1])
  /\ Chk(name \o ": shows exactly what it should", r[2] = exp)
  /\ Chk(name \o ": shows the hash of the page", r[3])

GetOK(r) ==
  LET p == PageNum(r[2]) IN
  IF HasPage(m, r[1], p, S)
  THEN /\ Chk("page", r[3] = <<Page(m[r[1]], p, S)>>)
       /\ Chk("page hash is the chain over its items", r[4])
  ELSE Chk("a page that does not exist", r[3] = <<>>)
LastOK(r) == Chk("last page number", r[2] = IF Has(m, r[1]) THEN <<LastPage(m[r[1]], S)>> ELSE <<>>)
(* All pages of some keys: <<key, <<page 0, page 1, ...>>>> *)
AllOK(r) == Chk("pages of a key",
  LET s == ItemsOf(m, r[1]) IN r[2] = [i \in 1..NPages(s, S) |-> Page(s, i - 1, S)])

-----------------------------------------------------------------------------
(* C09: labels by the certificate rules; the label of a page is that of    *)
(* the key and four bytes of page number.                                  *)
LabelOf(c) == aux.labels[KeyOf(c)] \o <<0, PageOf(c) \div 65536, (PageOf(c) \div 256) % 256, PageOf(c) % 256>>
LabelLT(p, q) == BytesLess(LabelOf(p), LabelOf(q), 1)
Extends(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
KnownPair(p, q) == aux.known = "paged" /\ Extends(aux.labels[KeyOf(p)], aux.labels[KeyOf(q)])
Known(a) == \A i \in 1..Len(a) : a[i] = Gap \/ KeyOf(a[i][1]) \in DOMAIN aux.labels
SoundOK(toks) ==
  /\ Chk("unknown label", Known(toks))
  \* it is enough to compare neighbours, unless some pairs are excused
  /\ LET ent == SelectSeq(toks, LAMBDA x : x # Gap)
         n == Len(ent)
     IN Chk("labels are not strictly increasing",
         IF aux.known = "" THEN \A i \in 1..(n - 1) : LabelLT(ent[i][1], ent[i + 1][1])
         ELSE \A i \in 1..n : \A j \in (i + 1)..n : LabelLT(ent[i][1], ent[j][1]) \/ KnownPair(ent[i][1], ent[j][1]))
  \* long lists (whole trees of large maps) are compared with the contents elsewhere
  /\ LET Less(p, q) == IF aux.known = "" THEN LabelLT(p, q) ELSE p < q
         around == {1} \cup UNION {{KeyOf(toks[i][1]) - 1, KeyOf(toks[i][1]), KeyOf(toks[i][1]) + 1} :
                                     i \in {j \in 1..Len(toks) : toks[j] # Gap}}
     IN
     Len(toks) > 24 \/ Chk("a verifier concludes something false",
       \A k \in around \cap DOMAIN aux.labels : LET np == NPages(ItemsOf(m, k), S) IN
         \A p \in {x \in {0, 1, np - 2, np - 1, np, np + 1, 256, 65536} : x >= 0} :
           LET r == Lookup(toks, Comp(k, p), Less) IN
             CASE r[1] = "found"  -> HasPage(m, k, p, S)
               [] r[1] = "absent" -> ~HasPage(m, k, p, S)
               [] OTHER           -> TRUE)
(* Is there a pair of pages that the finding puts in the wrong order? *)
Inverted == \E j, k \in DOMAIN m : j < k /\ Extends(aux.labels[j], aux.labels[k])
              /\ \E p \in {0, LastPage(m[j], S)} : ~LabelLT(Comp(j, p), Comp(k, 0))
SoundAll(e) ==
  CASE e.op = "root" -> SoundOK(e.full)
    [] e.op = "pwit" -> \A i \in 1..Len(e.r) : SoundOK(e.r[i][4])
    [] e.op = "lwit" -> \A i \in 1..Len(e.r) : SoundOK(e.r[i][3])
    [] OTHER -> TRUE
SayKnown ==
  IF aux.known # "" /\ ~aux.seen /\ Inverted
  THEN PrintT(<<"KNOWN", aux.kt, aux.known>>) /\ aux' = [aux EXCEPT !.seen = TRUE]
  ELSE UNCHANGED aux

-----------------------------------------------------------------------------
Read(e) ==
  /\ CASE e.op = "cost" -> IF "steps" \in Judge THEN CostOK(e) ELSE TRUE
       [] e.op = "get" -> IF "page" \in Judge THEN \A i \in 1..Len(e.r) : GetOK(e.r[i]) ELSE TRUE
       [] e.op = "badcodec" -> IF "reload" \in Judge THEN Chk("broken input is refused", e.refused) ELSE TRUE
       [] e.op = "all" -> IF "page" \in Judge THEN \A i \in 1..Len(e.r) : AllOK(e.r[i]) ELSE TRUE
       [] e.op = "last" -> IF "last" \in Judge THEN \A i \in 1..Len(e.r) : LastOK(e.r[i]) ELSE TRUE
       [] e.op = "pwit" -> IF "pwit" \in Judge THEN \A i \in 1..Len(e.r) : LET r == e.r[i] IN
            WitOK("page witness", <<r[3], r[4], r[5]>>, PageWitness(m, r[1], PageNum(r[2]), S)) ELSE TRUE
       [] e.op = "lwit" -> IF "lwit" \in Judge THEN \A i \in 1..Len(e.r) : LET r == e.r[i] IN
            WitOK("last-page witness", <<r[2], r[3], r[4]>>, LastWitness(m, r[1], S)) ELSE TRUE
       [] e.op = "root" -> IF "root" \in Judge THEN
            /\ Chk("root hash is the hash of the exported tree", e.own)
            /\ Chk("reconstruct of the exported tree", e.rec)
            /\ Chk("exported tree lists the pages", e.full = AllPages(m, S))
            /\ Chk("exported tree shows the hashes of the pages", e.ph)
          ELSE TRUE
  /\ IF "label" \in Judge THEN SoundAll(e) /\ SayKnown ELSE UNCHANGED aux

(***************************************************************************)
(* C19: the instances of the items by key and page.  Every page stores one *)
(* instance of its key, which no access shows; they are counted.           *)
(***************************************************************************)
RECURSIVE Concat(_)
Concat(ps) == IF ps = <<>> THEN <<>> ELSE ps[1] \o Concat(Tail(ps))
Items(o) == UNION {Members(o[k]) : k \in DOMAIN o}
OwnStep(e) ==
  LET h == e.own.held
      new == [k \in {h[i][1] : i \in 1..Len(h)} |-> Concat(h[CHOOSE j \in 1..Len(h) : h[j][1] = k][2])]
      live == Members(e.own.live)
      pages == FoldSet(LAMBDA k, a : a + NPages(m'[k], S), 0, DOMAIN m')
      count == FoldSet(LAMBDA k, a : a + Len(new[k]), 0, DOMAIN new)
  IN /\ Chk("released twice, or used after it was released", ~e.own.fault)
     /\ Chk("what is stored is not what the contents call for",
            DOMAIN new = DOMAIN m' /\ \A k \in DOMAIN new : Len(new[k]) = Len(m'[k]))
     /\ Chk("an instance is stored twice", Cardinality(Items(new)) = count)
     /\ Chk("an instance was released too early", Items(new) \subseteq live)
     /\ Chk("a key was lost or released too early", Cardinality(live) = count + pages)
     /\ Chk("an instance was exchanged for another",
            IF e.op = "reload" THEN Items(new) \cap Items(own) = {}
            ELSE e.op = "drop" \/ \A k \in DOMAIN m' :
                   IF e.op \in {"ins", "bulk"} /\ k = e.k
                   THEN Grows(IF k \in DOMAIN own THEN own[k] ELSE <<>>, new[k], Items(own))
                   ELSE new[k] = own[k])
     /\ own' = new
Owning(e) == IF "own" \in Judge /\ "own" \in DOMAIN e THEN OwnStep(e) ELSE UNCHANGED own

ReadOps == {"cost", "get", "all", "last", "pwit", "lwit", "root", "badcodec"}

New(e) ==
  /\ m' = NoMap /\ S' = e.S
  /\ aux' = [known |-> IF "known" \in DOMAIN e THEN e.known ELSE "", kt |-> e.kt, seen |-> FALSE,
             labels |-> IF "labels" \in DOMAIN e
                        THEN [k \in {e.labels[i][1] : i \in 1..Len(e.labels)} |->
                                e.labels[CHOOSE i \in 1..Len(e.labels) : e.labels[i][1] = k][2]]
                        ELSE <<>>]

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     /\ NoFailure(e)
     /\ CASE e.op = "new" -> New(e)
          [] e.op \in ReadOps -> Read(e) /\ UNCHANGED <<m, S>>
          [] OTHER -> Change(e) /\ UNCHANGED <<S, aux>>
     /\ IF e.op = "new" THEN own' = << >> ELSE Owning(e)
Spec == Init /\ [][Next]_vars
=============================================================================
