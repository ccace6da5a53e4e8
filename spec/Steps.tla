------------------------------- MODULE Steps -------------------------------
(***************************************************************************)
(* How much work an operation may take (C04, C21), in terms of what it     *)
(* asks of the user's types: comparisons of keys, labels of keys (one or   *)
(* two for every node that is hashed), hashes of items.                    *)
(* The height of a tree of n entries is at most 2 * (Log2(n) + 1); the     *)
(* factors leave room for an implementation that walks the path several    *)
(* times.                                                                  *)
(***************************************************************************)
EXTENDS Integers

RECURSIVE Log2(_)      \* floor
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

FewComparisons(c, n) == c <= 20 * (Log2(n + 1) + 2)
FewLabels(b, n) == b <= 40 * (Log2(n + 1) + 2)

(* Items that have to be hashed are hashed a few times, and no others are. *)
FewItems(i, need) == i <= 3 * need + 3

(* What an operation takes on a large collection, given what it takes on a small one:   *)
(* the logarithm of the sizes grows by less than a factor of three.  Processor time is  *)
(* the least of several measurements, in ns; the constants are for cold caches.  What   *)
(* visits every entry takes at least a hundred times as long.                           *)
GrowsSlowly(small, large) == large <= 8 * small + 30000
TakesLittle(small, large) == large <= 4 * small + 4096
=============================================================================
