----------------------------- MODULE TraceGroup -----------------------------
(***************************************************************************)
(* Judges recorded executions on groups and their builders.                *)
(* Judge: build, member, root (C14), wit (C15).                            *)
(* A recorded tree: <<0>> empty, <<1, l, r>> fork, <<2, label, t>>,        *)
(* <<3, value>> leaf, <<4>> pruned.                                        *)
(***************************************************************************)
EXTENDS Groups, Pages, Conform

VARIABLES l,
          mem          \* type -> [path, kind, c]
vars == <<l, mem>>

Init == l = 1 /\ mem = NoMap

PathsOf(g) == {g[t].path : t \in DOMAIN g}
AtPath(g, p) == g[CHOOSE t \in DOMAIN g : g[t].path = p]

(***************************************************************************)
(* Members: their contents by kind, and what they show.                    *)
(***************************************************************************)
PS == 2                                   \* page size
Label4(k) == 1000 + k                     \* labels of 32-bit keys
Shift(m) == [x \in {Label4(k) : k \in DOMAIN m} |-> m[x - 1000]]
TextLeaf(v) == 100000 + v
UnitLeaf == 7777
HidAll(toks) == [i \in 1..Len(toks) |-> IF toks[i] = Gap THEN VGap ELSE VLab(toks[i][1], HiddenView)]
FromPairs(ps) == [k \in {ps[i][1] : i \in 1..Len(ps)} |->
                    ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k /\ \A j \in (i + 1)..Len(ps) : ps[j][1] # k][2]]

InnerPaths == {<<2, 1>>, <<3>>}           \* the members of a group in a group
RECURSIVE FullView(_, _)
FullView(kind, c) ==
  CASE kind = "num" -> <<VLeaf(c)>>
    [] kind = "text" -> <<VLeaf(TextLeaf(c))>>
    [] kind = "unit" -> <<VLeaf(UnitLeaf)>>
    [] kind = "map" -> MapView(Full(Shift(c)))
    [] kind = "seq" -> HiddenView
    [] kind = "paged" -> HidAll(AllPages(c, PS))
    [] kind = "group" -> GroupView(InnerPaths, [p \in InnerPaths |->
                            IF p = <<3>> THEN FullView("map", c[2]) ELSE FullView("num", c[1])])
RECURSIVE PartView(_, _, _)
PartView(kind, c, h) ==
  CASE h.t = "pruned" -> HiddenView
    [] h.t = "whole" -> FullView(kind, c)
    [] kind = "map" ->
         (CASE h.t = "wit" -> MapView(Witness(Shift(c), Label4(h.a)))
            [] h.t = "kr" -> MapView(KeyRange(Shift(c), Label4(h.a), Label4(h.b)))
            [] h.t = "vr" -> MapView(ValueRange(Shift(c), Label4(h.a), Label4(h.b)))
            [] h.t = "keys" -> MapView(AllKeys(Shift(c))))
    [] kind = "paged" -> HidAll(IF h.t = "page" THEN PageWitness(c, h.a, h.b, PS) ELSE LastWitness(c, h.a, PS))
    [] kind = "group" ->
         LET shown == [p \in {q \in InnerPaths : (q = <<3>> /\ "m" \in DOMAIN h) \/ (q = <<2, 1>> /\ "n" \in DOMAIN h)} |->
                          IF p = <<3>> THEN PartView("map", c[2], h.m) ELSE PartView("num", c[1], h.n)]
         IN GroupView(InnerPaths, shown)

Fresh(kind, x) ==
  CASE kind \in {"num", "text"} -> x
    [] kind = "unit" -> 0
    [] kind = "map" -> FromPairs(x)
    [] kind = "seq" -> x
    [] kind = "paged" -> NoMap
    [] kind = "group" -> <<x, NoMap>>

(* A change of a member through get_mut. *)
ActOn(kind, c, e) ==
  CASE e.act = "set" -> IF kind = "group" THEN <<e.v, c[2]>> ELSE e.v
    [] e.act = "ins" -> IF kind = "group" THEN <<c[1], Put(c[2], e.k, e.v)>>
                        ELSE IF kind = "paged" THEN AddItem(c, e.k, e.v) ELSE Put(c, e.k, e.v)
    [] e.act = "rem" -> IF kind = "group" THEN <<c[1], Del(c[2], e.k)>> ELSE Del(c, e.k)
    [] e.act = "app" -> Append(c, e.v)
    [] e.act = "clear" -> IF kind = "seq" THEN <<>> ELSE NoMap
    [] e.act = "none" -> c

Dump(kind, c) ==
  CASE kind = "map" -> Pairs(c)
    [] kind = "group" -> <<c[1], Pairs(c[2])>>
    [] kind = "paged" -> LET ks == SortedKeys(c) IN
         [i \in 1..Len(ks) |-> <<ks[i], [p \in 1..NPages(c[ks[i]], PS) |-> Page(c[ks[i]], p - 1, PS)]>>]
    [] OTHER -> c

-----------------------------------------------------------------------------
(* Recorded trees. *)
RECURSIVE RView(_)
RView(t) ==
  CASE t[1] = 0 -> <<>>
    [] t[1] = 1 -> JoinView(RView(t[2]), RView(t[3]))
    [] t[1] = 2 -> <<VLab(t[2], RView(t[3]))>>
    [] t[1] = 3 -> <<VLeaf(t[2])>>
    [] t[1] = 4 -> <<VGap>>
RECURSIVE ROpaque(_, _)
ROpaque(t, pre) ==
  CASE t[1] = 1 -> ~(t[2] = <<4>> /\ t[3] = <<4>>) /\ ROpaque(t[2], pre) /\ ROpaque(t[3], pre)
    [] t[1] = 2 -> Append(pre, t[2]) \in PathsOf(mem) \/ ROpaque(t[3], Append(pre, t[2]))
    [] OTHER -> TRUE

(* The requests: a list of <<type, how>>; the last one for a member counts. *)
Asked(e) == {e.reqs[i][1] : i \in 1..Len(e.reqs)}
How(e, t) == LET n == Max({i \in 1..Len(e.reqs) : e.reqs[i][1] = t}) IN e.reqs[n][2]
Shown(e) ==
  [p \in {mem[t].path : t \in Asked(e)} |->
     LET t == CHOOSE x \in DOMAIN mem : mem[x].path = p
     IN IF How(e, t).t = "full" THEN FullView(mem[t].kind, mem[t].c) ELSE PartView(mem[t].kind, mem[t].c, How(e, t))]
AllView == GroupView(PathsOf(mem), [p \in PathsOf(mem) |-> LET x == AtPath(mem, p) IN FullView(x.kind, x.c)])

-----------------------------------------------------------------------------
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     /\ NoFailure(e)
     /\ CASE e.op = "new" -> mem' = NoMap
          [] e.op = "add" ->
               LET no == e.ty \in DOMAIN mem \/ Refused(PathsOf(mem), e.path) IN
               /\ "build" \in Judge => Chk("adding a member", e.res = IF no THEN "refused" ELSE "ok")
               /\ mem' = IF no THEN mem
                         ELSE Put(mem, e.ty, [path |-> e.path, kind |-> e.kind, c |-> Fresh(e.kind, e.x)])
          [] e.op = "act" -> mem' = [mem EXCEPT ![e.ty].c = ActOn(mem[e.ty].kind, mem[e.ty].c, e)]
          [] OTHER ->
               /\ UNCHANGED mem
               /\ CASE e.op = "build" -> TRUE
                    [] e.op = "get" -> ("member" \in Judge =>
                         Chk("member found by its type", e.r = Dump(mem[e.ty].kind, mem[e.ty].c)))
                    [] e.op = "root" -> ("root" \in Judge =>
                         /\ Chk("root hash is the hash of the exported tree", e.own)
                         /\ Chk("reconstruct of the exported tree", e.rec)
                         /\ Chk("exported tree shows the members", RView(e.full) = AllView))
                    [] e.op = "perm" -> ("root" \in Judge =>
                         Chk("the order of adding does not matter", e.same))
                    [] e.op = "wit" -> ("wit" \in Judge =>
                         /\ Chk("witness: reconstructs to the root hash", e.ok)
                         /\ Chk("witness: shows exactly what it should", RView(e.tree) = GroupView(PathsOf(mem), Shown(e)))
                         /\ Chk("witness: one hash per hidden subtree", ROpaque(e.tree, <<>>)))
Spec == Init /\ [][Next]_vars
=============================================================================
