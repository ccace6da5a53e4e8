------------------------------- MODULE MC_LLRB -------------------------------
(***************************************************************************)
(* All behaviours of the tree over a bounded key set, checked against the  *)
(* abstract map: `m' is the history's ordinary dictionary, advanced by the *)
(* abstract operations in lock step (refinement with the mapping           *)
(* Contents(t) = m).                                                       *)
(***************************************************************************)
EXTENDS LLRB, CSV

CONSTANTS N,         \* number of keys
          NV,        \* number of values
          Lending,   \* include lent references
          CheckWit,  \* evaluate the witness invariants
          RefreshOn, \* FALSE: the tree before the repair of lent references
          OutFile    \* transitions for the replay, "" for none

VARIABLES t, lent, len, m
vars == <<t, lent, len, m>>

Keys == {2 * i : i \in 1..N}
Vals == 1..NV
Points == 1..(2*N + 1)

Cur == IF RefreshOn THEN Refresh(t, lent) ELSE t   \* what every operation works on

Init == t = Null /\ lent = 0 /\ len = 0 /\ m = NoMap

(* One line per transition: source, operation, target. *)
RECURSIVE Enc(_)
Enc(x) == IF x = Null THEN "" ELSE
  "(" \o Enc(L(x)) \o ToString(K(x)) \o (IF x[5] THEN "r" ELSE "b") \o
  (IF NV > 1 THEN ToString(Vl(x)) ELSE "") \o Enc(R(x)) \o ")"
EncS(x, n) == Enc(x) \o "." \o ToString(n)
Emit(op, k, v, w) ==
  IF OutFile = "" THEN TRUE
  ELSE CSVWrite("%1$s#%2$s#%3$s#%4$s#%5$s#%6$s", <<EncS(t, lent), op, k, v, w, EncS(t', lent')>>, OutFile)

Insert(k, v) ==
  /\ t' = TreeInsert(Cur, k, v)
  /\ len' = IF Present(t, k) THEN len ELSE len + 1
  /\ lent' = IF Lending THEN k ELSE 0
  /\ m' = Put(m, k, v)
  /\ Emit("ins", k, v, 0)
InsertWrite(k, v, w) ==     \* and write through the reference insert returns
  /\ Lending
  /\ t' = RawWrite(TreeInsert(Cur, k, v), k, w)
  /\ len' = IF Present(t, k) THEN len ELSE len + 1
  /\ lent' = k /\ m' = Put(m, k, w)
  /\ Emit("insw", k, v, w)
Delete(k) ==
  /\ t' = IF Present(t, k) THEN TreeDelete(Cur, k) ELSE Cur
  /\ len' = IF Present(t, k) THEN len - 1 ELSE len
  /\ lent' = 0
  /\ m' = Del(m, k)
  /\ Emit("rem", k, 0, 0)
Modify(k, v) ==
  /\ NV > 1
  /\ t' = TreeModify(Cur, k, v)
  /\ lent' = 0 /\ UNCHANGED len
  /\ m' = IF Has(m, k) THEN Put(m, k, v) ELSE m
  /\ Emit("mod", k, v, 0)
GetMutWrite(k, v) ==
  /\ Lending
  /\ t' = IF Present(t, k) THEN RawWrite(Cur, k, v) ELSE Cur
  /\ lent' = IF Present(t, k) THEN k ELSE 0
  /\ m' = IF Has(m, k) THEN Put(m, k, v) ELSE m
  /\ UNCHANGED len
  /\ Emit("gmw", k, v, 0)
Clear ==
  /\ t' = Null /\ lent' = 0 /\ len' = 0 /\ m' = NoMap
  /\ Emit("clear", 0, 0, 0)
Observe ==                  \* any read that uses the hashes
  /\ lent # 0 /\ t' = Cur /\ lent' = 0 /\ UNCHANGED <<len, m>>
  /\ Emit("read", 0, 0, 0)

Next == \/ \E k \in Keys : Delete(k) \/ \E v \in Vals : Insert(k, v) \/ Modify(k, v) \/ GetMutWrite(k, v)
        \/ \E k \in Keys, v, w \in Vals : InsertWrite(k, v, w)
        \/ Observe \/ Clear
Spec == Init /\ [][Next]_vars

Refines     == Contents(t) = m /\ len = Cardinality(DOMAIN m)
Structure   == Ordered(t) /\ RedBlack(t)
BalanceInv  == Balanced(t)
HashCurrent == TrackHash => /\ CacheOK(Cur)
                            /\ RootHash(Cur) = Reconstruct(FullWitness(Cur, TRUE))
WitnessInv ==
  CheckWit =>
    LET rt == RootHash(Cur)
        Good(w, exp) == Reconstruct(w) = rt /\ Tokens(w) = exp
    IN /\ Good(FullWitness(Cur, TRUE), Full(m))
       /\ Good(FullWitness(Cur, FALSE), AllKeys(m))
       /\ \A q \in Points : Good(TreeWitness(Cur, q), Witness(m, q))
       /\ \A a \in Points : \A b \in a..(2*N + 1) :
             /\ Good(TreeKeyRange(Cur, a, b), KeyRange(m, a, b))
             /\ Good(TreeValueRange(Cur, a, b), ValueRange(m, a, b))
(* The meaning of the abstract witnesses for a verifier. *)
SoundInv ==
  CheckWit =>
    /\ \A S \in SUBSET DOMAIN m : LET f == [k \in S |-> m[k]] IN ShowFew(m, f) = ShowAll(m, f)
    /\ LET Check(w) == WellFormed(w, LT) /\ \A q \in Points : Sound(w, m, q) IN
       /\ Check(Full(m)) /\ Check(AllKeys(m))
       /\ \A q \in Points : LET w == Witness(m, q) IN
            Check(w) /\ IF Has(m, q) THEN ProvesEntry(w, m, q) ELSE ProvesAbsent(w, q)
       /\ \A a \in Points : \A b \in a..(2*N + 1) :
            LET kw == KeyRange(m, a, b)  vw == ValueRange(m, a, b) IN
              /\ Check(kw) /\ Check(vw) /\ Decides(kw, a, b) /\ Decides(vw, a, b)
              /\ \A q \in InRange(m, a, b) : ProvesEntry(vw, m, q)
=============================================================================
