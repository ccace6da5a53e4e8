----------------------------- MODULE TraceWork ------------------------------
(***************************************************************************)
(* Judges how much work recorded operations took (C21).  An event carries  *)
(* the comparisons (cmps) and labels (labs) asked of the keys and the      *)
(* hashes (items) asked of the items during the call.                      *)
(* The contents matter only by their sizes:                                *)
(*   seq: a number;  paged, map-seq: key -> number of items;               *)
(*   map: set of keys;                                                     *)
(*   map-map: key -> set of inner keys;  map-map-seq: key -> key -> number *)
(***************************************************************************)
EXTENDS CertMap, Steps, Conform

VARIABLES l, kt, c
vars == <<l, kt, c>>

Init == l = 1 /\ kt = "" /\ c = 0

IsPaged == kt \in {"paged1", "paged8", "paged300"}
PSize == CASE kt = "paged1" -> 1 [] kt = "paged8" -> 8 [] OTHER -> 300
Flat == kt \in {"map", "rb"}
MapMap == kt \in {"map-map", "rb-rb"}

NPg(n) == (n + PSize - 1) \div PSize
(* Entries of the outer tree, of the largest inner one. *)
Outer(x) == IF IsPaged THEN FoldSet(LAMBDA k, a : a + NPg(x[k]), 0, DOMAIN x)
            ELSE IF kt = "seq" THEN 0 ELSE IF Flat THEN Cardinality(x) ELSE Cardinality(DOMAIN x)
Inner(x) == IF MapMap THEN Max({0} \cup {Cardinality(x[k]) : k \in DOMAIN x})
            ELSE IF kt = "map-map-seq" THEN Max({0} \cup {Cardinality(DOMAIN x[k]) : k \in DOMAIN x}) ELSE 0

Num(x, k) == IF Has(x, k) THEN x[k] ELSE 0
(* What is changed inside the collection under k: only entries make a missing one. *)
Makes(e) == Has(c, e.k) \/ e.how \in {"or_default", "insert", "and_modify", "deep"}
Effect(e) ==
  IF kt = "seq" THEN
    CASE e.op = "app" -> c + 1
      [] e.op = "ext" -> c + e.n
      [] e.op \in {"make", "decode"} -> e.n
      [] e.op = "clear" -> 0
      [] OTHER -> c
  ELSE IF Flat THEN
    CASE e.op = "put" -> IF e.k \in c \/ e.how \in {"or_default", "insert", "and_modify"} THEN c \cup {e.k} ELSE c
      [] e.op = "rem" -> c \ {e.k}
      [] OTHER -> c
  ELSE CASE e.op = "ins" -> Put(c, e.k, Num(c, e.k) + 1)
    [] e.op = "fill" -> IF e.n = 0 THEN c ELSE Put(c, e.k, Num(c, e.k) + e.n)
    [] e.op = "app" /\ kt = "map-map-seq" ->
         IF ~Makes(e) THEN c ELSE
         LET x == IF Has(c, e.k) THEN c[e.k] ELSE NoMap IN Put(c, e.k, Put(x, e.j, Num(x, e.j) + 1))
    [] e.op = "app" -> IF Makes(e) THEN Put(c, e.k, Num(c, e.k) + 1) ELSE c
    [] e.op = "ext" -> IF Makes(e) THEN Put(c, e.k, Num(c, e.k) + e.n) ELSE c
    [] e.op = "put" -> IF Makes(e) THEN Put(c, e.k, (IF Has(c, e.k) THEN c[e.k] ELSE {}) \cup {e.j}) ELSE c
    [] e.op = "del" -> IF Makes(e) THEN Put(c, e.k, (IF Has(c, e.k) THEN c[e.k] ELSE {}) \ {e.j}) ELSE c
    [] e.op = "rem" -> Del(c, e.k)
    [] OTHER -> c

(* Items that have to be hashed. *)
Need(e) == CASE e.op \in {"app", "ins"} -> 1
             [] e.op \in {"ext", "make", "decode", "fill"} -> e.n
             [] OTHER -> 0
(* Operations on one key that the event stands for. *)
Times(e) == IF e.op = "fill" THEN e.n ELSE 1

WorkOK(e) ==
  LET n == Max({Outer(c), Outer(c')})
      i == Max({Inner(c), Inner(c')})
      t == Times(e)
  IN /\ Chk("items were hashed that did not change: " \o e.op,
            IF Flat THEN e.items <= t * 40 * (Log2(n + 1) + 2)
            ELSE IF MapMap THEN e.items <= 40 * (Log2(i + 1) + 2) ELSE FewItems(e.items, Need(e)))
     /\ Chk("labels were asked of keys off the path: " \o e.op,
            IF kt = "seq" THEN e.labs = 0 ELSE e.labs <= t * 40 * (Log2(n + 1) + Log2(i + 1) + 4))
     /\ Chk("keys were compared off the path: " \o e.op,
            IF kt = "seq" THEN e.cmps = 0 ELSE e.cmps <= t * 20 * (Log2(n + 1) + Log2(i + 1) + 4))

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     /\ NoFailure(e)
     /\ IF e.op = "new" THEN /\ kt' = e.kt
                             /\ c' = CASE e.kt = "seq" -> 0 [] e.kt \in {"map", "rb"} -> {} [] OTHER -> NoMap
        ELSE /\ UNCHANGED kt
             /\ c' = Effect(e)
             /\ WorkOK(e)
Spec == Init /\ [][Next]_vars
=============================================================================
