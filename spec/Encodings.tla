----------------------------- MODULE Encodings -----------------------------
(***************************************************************************)
(* The canonical encoding of every supported value, computed from the      *)
(* value as a mathematical object:                                         *)
(*   whole numbers  <<sign, decimal digits>>     (sign 1: negative)        *)
(*   floats         <<sign, kind, digits, e>>    kind 0: digits * 2^e,     *)
(*                                  1: infinity, 2: NaN with that payload  *)
(*   booleans       0 or 1                                                 *)
(*   strings        sequences of Unicode scalar values                     *)
(*   byte strings, arrays, principals: sequences of bytes                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

(* Decimal digits divided by a small number: <<quotient, remainder>>, no leading zeros. *)
DivBy(ds, b) ==
  FoldLeft(LAMBDA acc, d : LET x == acc[2] * 10 + d  q == x \div b IN
             <<IF acc[1] = <<>> /\ q = 0 THEN <<>> ELSE Append(acc[1], q), x % b>>,
           <<(<<>>), 0>>, ds)
Strip(ds) == DivBy(ds, 1)[1]

RECURSIVE Pred(_)            \* one less, for numbers > 0
Pred(ds) == LET n == Len(ds) IN
  IF ds[n] > 0 THEN [ds EXCEPT ![n] = @ - 1] ELSE Append(Pred(SubSeq(ds, 1, n - 1)), 9)

(* The w lowest bytes, most significant first. *)
RECURSIVE Bytes(_, _)
Bytes(ds, w) == IF w = 0 THEN <<>> ELSE LET r == DivBy(ds, 256) IN Append(Bytes(r[1], w - 1), r[2])
RECURSIVE AllBytes(_)        \* as many as it takes, none for zero
AllBytes(ds) == IF Strip(ds) = <<>> THEN <<>> ELSE LET r == DivBy(ds, 256) IN Append(AllBytes(r[1]), r[2])

Invert(bs) == [i \in 1..Len(bs) |-> 255 - bs[i]]
(* Big-endian two's complement. *)
Whole(v, w) == IF v[1] = 1 THEN Invert(Bytes(Pred(v[2]), w)) ELSE Bytes(v[2], w)
Natural(v) == IF Strip(v[2]) = <<>> THEN <<0>> ELSE AllBytes(v[2])

RECURSIVE Bits(_)            \* of a number, most significant first, none for zero
Bits(ds) == IF Strip(ds) = <<>> THEN <<>> ELSE LET r == DivBy(ds, 2) IN Append(Bits(r[1]), r[2])
Zeros(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> 1]
PadLeft(bs, n) == Zeros(n - Len(bs)) \o bs
PadRight(bs, n) == bs \o Zeros(n - Len(bs))
RECURSIVE BinInt(_)          \* a TLC number as bits
BinInt(n) == IF n = 0 THEN <<>> ELSE Append(BinInt(n \div 2), n % 2)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Group8(bs) == [i \in 1..(Len(bs) \div 8) |->
  FoldLeft(LAMBDA a, b : 2 * a + b, 0, SubSeq(bs, 8 * i - 7, 8 * i))]

(* IEEE 754 with we exponent bits and wf fraction bits, as bits. *)
FloatBits(v, we, wf) ==
  LET bias == Pow2(we - 1) - 1
      m == Bits(v[3])
      E == v[4] + Len(m) - 1                 \* exponent of the leading bit
      body ==
        CASE v[2] = 1 -> Ones(we) \o Zeros(wf)
          [] v[2] = 2 -> Ones(we) \o PadLeft(m, wf)
          [] m = <<>> -> Zeros(we + wf)
          [] E >= 1 - bias -> PadLeft(BinInt(E + bias), we) \o PadRight(Tail(m), wf)
          [] OTHER -> Zeros(we) \o PadLeft(m \o Zeros(v[4] - (1 - bias - wf)), wf)
  IN <<v[1]>> \o body
Float(v, we, wf) == Group8(FloatBits(v, we, wf))

Utf8Char(c) ==
  CASE c < 128 -> <<c>>
    [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
    [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(s) == IF \A i \in 1..Len(s) : s[i] < 128 THEN s ELSE FlattenSeq([i \in 1..Len(s) |-> Utf8Char(s[i])])

Widths == [u8 |-> 1, u16 |-> 2, u32 |-> 4, u64 |-> 8, u128 |-> 16, usize |-> 8,
           i8 |-> 1, i16 |-> 2, i32 |-> 4, i64 |-> 8, i128 |-> 16, isize |-> 8]

Canonical(ty, v) ==
  CASE ty \in DOMAIN Widths -> Whole(v, Widths[ty])
    [] ty = "nat" -> Natural(v)
    [] ty = "f32" -> Float(v, 8, 23)
    [] ty = "f64" -> Float(v, 11, 52)
    [] ty = "bool" -> <<v>>
    [] ty \in {"string", "str"} -> Utf8(v)
    [] ty \in {"bytes", "slice", "boxslice", "array", "principal"} -> v

(* The types that can be keys. *)
KeyTypes == DOMAIN Widths \cup {"bool", "string", "bytes", "boxslice", "array", "principal"}
ValueTypes == DOMAIN Widths \cup {"bool", "string", "bytes", "array", "principal", "nat", "f32", "f64", "str", "slice"}
=============================================================================
