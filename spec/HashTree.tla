------------------------------ MODULE HashTree ------------------------------
(***************************************************************************)
(* The algebra of certificate hash trees (src/hashtree.rs).                *)
(*                                                                         *)
(* A tree is one of                                                        *)
(*   <<"E">>          empty                                                *)
(*   <<"F", l, r>>    fork                                                 *)
(*   <<"L", k, t>>    subtree t labelled k                                 *)
(*   <<"V", v>>       leaf                                                 *)
(*   <<"P", h>>       pruned subtree with hash h                           *)
(* A hash is symbolic: the hash of a tree IS the unpruned tree, so hashing *)
(* is injective by construction (the usual symbolic model of SHA-256 with  *)
(* domain separation).  The sequence hash chain adds <<"Z">> (32 zero      *)
(* bytes) and <<"S", previous, item>>.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Empty        == <<"E">>
Fork(l, r)   == <<"F", l, r>>
Labeled(k,t) == <<"L", k, t>>
Leaf(v)      == <<"V", v>>
Pruned(h)    == <<"P", h>>

IsEmpty(t)  == t[1] = "E"
IsPruned(t) == t[1] = "P"

RECURSIVE Reconstruct(_)
Reconstruct(t) ==
  CASE t[1] = "F" -> <<"F", Reconstruct(t[2]), Reconstruct(t[3])>>
    [] t[1] = "L" -> <<"L", t[2], Reconstruct(t[3])>>
    [] t[1] = "P" -> t[2]
    [] OTHER      -> t

(* Labels and leaves from left to right: get_labels, get_leaf_values. *)
RECURSIVE Labels(_)
Labels(t) ==
  CASE t[1] = "F" -> Labels(t[2]) \o Labels(t[3])
    [] t[1] = "L" -> <<t[2]>> \o Labels(t[3])
    [] OTHER      -> <<>>

RECURSIVE Leaves(_)
Leaves(t) ==
  CASE t[1] = "F" -> Leaves(t[2]) \o Leaves(t[3])
    [] t[1] = "L" -> Leaves(t[3])
    [] t[1] = "V" -> <<t[2]>>
    [] OTHER      -> <<>>

(* The wire format: the CBOR data item as nested arrays with the node tag. *)
RECURSIVE Wire(_)
Wire(t) ==
  CASE t[1] = "E" -> <<0>>
    [] t[1] = "F" -> <<1, Wire(t[2]), Wire(t[3])>>
    [] t[1] = "L" -> <<2, t[2], Wire(t[3])>>
    [] t[1] = "V" -> <<3, t[2]>>
    [] t[1] = "P" -> <<4, t[2]>>

(***************************************************************************)
(* The same trees down to the bytes: labels and leaves are byte strings.   *)
(* The bytes that are hashed: the separator with its length in front, then *)
(* the parts.                                                              *)
(***************************************************************************)
SepEmpty   == <<17>> \o <<105,99,45,104,97,115,104,116,114,101,101,45,101,109,112,116,121>>              \* ic-hashtree-empty
SepFork    == <<16>> \o <<105,99,45,104,97,115,104,116,114,101,101,45,102,111,114,107>>                  \* ic-hashtree-fork
SepLabeled == <<19>> \o <<105,99,45,104,97,115,104,116,114,101,101,45,108,97,98,101,108,101,100>>        \* ic-hashtree-labeled
SepLeaf    == <<16>> \o <<105,99,45,104,97,115,104,116,114,101,101,45,108,101,97,102>>                   \* ic-hashtree-leaf
PreEmpty         == SepEmpty
PreFork(l, r)    == SepFork \o l \o r
PreLabeled(k, t) == SepLabeled \o k \o t
PreLeaf(v)       == SepLeaf \o v

(* The CBOR bytes of the wire format, hashes of pruned subtrees being bytes. *)
CborHead(major, n) ==
  CASE n < 24 -> <<32 * major + n>>
    [] n >= 24 /\ n < 256 -> <<32 * major + 24, n>>
    [] n >= 256 /\ n < 65536 -> <<32 * major + 25, n \div 256, n % 256>>
    [] n >= 65536 -> <<32 * major + 26, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
CborBytes(bs) == CborHead(2, Len(bs)) \o bs
RECURSIVE Cbor(_)
Cbor(t) ==
  CASE t[1] = "E" -> CborHead(4, 1) \o <<0>>
    [] t[1] = "F" -> CborHead(4, 3) \o <<1>> \o Cbor(t[2]) \o Cbor(t[3])
    [] t[1] = "L" -> CborHead(4, 3) \o <<2>> \o CborBytes(t[2]) \o Cbor(t[3])
    [] t[1] = "V" -> CborHead(4, 2) \o <<3>> \o CborBytes(t[2])
    [] t[1] = "P" -> CborHead(4, 2) \o <<4>> \o CborBytes(t[2])

(***************************************************************************)
(* What a verifier sees: forks are flattened, what remains is a sequence   *)
(* of disclosed entries and gaps, a gap standing for one or more hidden    *)
(* entries.  Tokens: Gap, or <<label, what>> where what is Hidden (the     *)
(* labelled subtree is pruned), a value (it is a leaf) or, for nested      *)
(* trees, the token sequence of the subtree.                               *)
(***************************************************************************)
Gap    == <<0, 0>>
Hidden == -1

JoinTokens(a, b) ==
  IF a # <<>> /\ b # <<>> /\ a[Len(a)] = Gap /\ b[1] = Gap
  THEN a \o Tail(b) ELSE a \o b

(* One-level view: the value of an entry is a leaf or pruned. *)
RECURSIVE Tokens(_)
Tokens(t) ==
  CASE t[1] = "E" -> <<>>
    [] t[1] = "F" -> JoinTokens(Tokens(t[2]), Tokens(t[3]))
    [] t[1] = "P" -> <<Gap>>
    [] t[1] = "L" -> << <<t[2], IF IsPruned(t[3]) THEN Hidden ELSE t[3][2]>> >>

(* The view of a tree of trees, d levels deep; a hidden subtree is HiddenSub. *)
HiddenSub == << <<-1, -1>> >>
RECURSIVE NTokens(_, _)
NTokens(t, d) ==
  CASE t[1] = "E" -> <<>>
    [] t[1] = "F" -> JoinTokens(NTokens(t[2], d), NTokens(t[3], d))
    [] t[1] = "P" -> <<Gap>>
    [] t[1] = "L" -> IF d = 1 THEN Tokens(t)
                     ELSE << <<t[2], IF IsPruned(t[3]) THEN HiddenSub ELSE NTokens(t[3], d - 1)>> >>

(***************************************************************************)
(* Label lookup by the certificate rules, on the flattened tree.           *)
(* Less(_,_) is the order of the labels (bytewise).                        *)
(***************************************************************************)
Lookup(toks, q, Less(_, _)) ==
  LET n == Len(toks)
      hit == {i \in 1..n : toks[i] # Gap /\ toks[i][1] = q}
      lab(i) == i >= 1 /\ i <= n /\ toks[i] # Gap
  IN IF hit # {} THEN <<"found", toks[CHOOSE i \in hit : TRUE][2]>>
     ELSE IF n = 0 THEN <<"absent">>
     ELSE IF \/ \E i \in 1..(n-1) : lab(i) /\ lab(i+1)
                    /\ Less(toks[i][1], q) /\ Less(q, toks[i+1][1])
             \/ lab(1) /\ Less(q, toks[1][1])
             \/ lab(n) /\ Less(toks[n][1], q)
     THEN <<"absent">> ELSE <<"unknown">>

(* The order of byte strings. *)
RECURSIVE BytesLess(_, _, _)
BytesLess(a, b, i) ==
  CASE i > Len(b) -> FALSE
    [] i > Len(a) -> TRUE
    [] a[i] # b[i] -> a[i] < b[i]
    [] OTHER -> BytesLess(a, b, i + 1)

(* Well-formedness demanded of every certificate: strictly rising labels. *)
WellFormed(toks, Less(_, _)) ==
  \A i, j \in 1..Len(toks) :
     i < j /\ toks[i] # Gap /\ toks[j] # Gap => Less(toks[i][1], toks[j][1])
=============================================================================
