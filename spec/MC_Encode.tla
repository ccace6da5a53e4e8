----------------------------- MODULE MC_Encode -----------------------------
(***************************************************************************)
(* The encodings are injective: for every value of some finite domains     *)
(* decoding gives the value back.  One value per state.                    *)
(***************************************************************************)
EXTENDS Encodings

CONSTANTS Kind,      \* int, float, text, nat
          W,         \* bytes of a number; length of texts
          Signed

VARIABLE x           \* the value, as a TLC number or a sequence of numbers

RECURSIVE Dec(_)     \* decimal digits of a TLC number
Dec(n) == IF n < 10 THEN <<n>> ELSE Append(Dec(n \div 10), n % 10)
Alphabet == {0, 1, 65, 127, 128, 2047, 2048, 55295, 57344, 65535, 65536, 1114111}

Domain ==
  CASE Kind = "int" -> IF Signed THEN (-Pow2(8 * W - 1))..(Pow2(8 * W - 1) - 1) ELSE 0..(Pow2(8 * W) - 1)
    [] Kind = "nat" -> 0..70000
    [] Kind = "float" -> 0..(Pow2(8 * W) - 1)         \* the bits of the number
    [] Kind = "text" -> UNION {[1..n -> Alphabet] : n \in 0..W}

Num(n) == IF n < 0 THEN <<1, Dec(-n)>> ELSE <<0, Dec(n)>>
FromBytes(bs) == FoldLeft(LAMBDA a, b : 256 * a + b, 0, bs)
FromBits(bs) == FoldLeft(LAMBDA a, b : 2 * a + b, 0, bs)
IntBack(bs) == LET n == FromBytes(bs) IN
  IF Signed /\ bs[1] >= 128 THEN n - Pow2(8 * Len(bs)) ELSE n

(* The value of small floats, read off the bits. *)
We == IF W = 1 THEN 4 ELSE 5
Wf == 8 * W - 1 - We
Value(n) ==
  LET bs == PadLeft(BinInt(n), 8 * W)
      e == FromBits(SubSeq(bs, 2, 1 + We))  f == FromBits(SubSeq(bs, 2 + We, 8 * W))
      bias == Pow2(We - 1) - 1
  IN CASE e = Pow2(We) - 1 /\ f = 0 -> <<bs[1], 1, <<0>>, 0>>
       [] e = Pow2(We) - 1 -> <<bs[1], 2, Dec(f), 0>>
       [] e = 0 -> <<bs[1], 0, Dec(f), 1 - bias - Wf>>
       [] OTHER -> <<bs[1], 0, Dec(f + Pow2(Wf)), e - bias - Wf>>

(* Reading UTF-8, the longest first byte first. *)
RECURSIVE Utf8Back(_)
Utf8Back(bs) ==
  IF bs = <<>> THEN <<>>
  ELSE LET b == bs[1]
           n == CASE b < 128 -> 1 [] b >= 240 -> 4 [] b >= 224 -> 3 [] b >= 192 -> 2
           rest(i) == bs[i] - 128
           c == CASE n = 1 -> b
                  [] n = 2 -> (b - 192) * 64 + rest(2)
                  [] n = 3 -> (b - 224) * 4096 + rest(2) * 64 + rest(3)
                  [] n = 4 -> (b - 240) * 262144 + rest(2) * 4096 + rest(3) * 64 + rest(4)
       IN <<c>> \o Utf8Back(SubSeq(bs, n + 1, Len(bs)))

IsBytes(bs) == \A i \in 1..Len(bs) : bs[i] \in 0..255

Good ==
  CASE Kind = "int" -> LET b == Whole(Num(x), W) IN Len(b) = W /\ IsBytes(b) /\ IntBack(b) = x
    [] Kind = "nat" -> LET b == Natural(Num(x)) IN IsBytes(b) /\ FromBytes(b) = x /\ (Len(b) = 1 \/ b[1] # 0)
    [] Kind = "float" -> FromBits(FloatBits(Value(x), We, Wf)) = x
    [] Kind = "text" -> LET b == Utf8(x) IN IsBytes(b) /\ Utf8Back(b) = x

Init == x \in Domain
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
