------------------------------- MODULE Sha256 -------------------------------
(***************************************************************************)
(* SHA-256 (FIPS 180-4) on sequences of bytes, so that the specification   *)
(* itself says what the certified root is, down to the bytes.              *)
(* A 32-bit word is <<high half, low half>>: TLC computes with 32-bit      *)
(* signed integers.                                                        *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE Bitwise

LOCAL P16 == 65536
LOCAL RoundConst ==
  << <<17034,12184>>, <<28983,17553>>, <<46528,64463>>, <<59829,56229>>,
     <<14678,49755>>, <<23025,4593>>, <<37439,33444>>, <<43804,24277>>,
     <<55303,43672>>, <<4739,23297>>, <<9265,34238>>, <<21772,32195>>,
     <<29374,23924>>, <<32990,45566>>, <<39900,1703>>, <<49563,61812>>,
     <<58523,27073>>, <<61374,18310>>, <<4033,40390>>, <<9228,41420>>,
     <<11753,11375>>, <<19060,33962>>, <<23728,43484>>, <<30457,35034>>,
     <<38974,20818>>, <<43057,50797>>, <<45059,10184>>, <<48985,32711>>,
     <<50912,3059>>, <<54695,37191>>, <<1738,25425>>, <<5161,10599>>,
     <<10167,2693>>, <<11803,8504>>, <<19756,28156>>, <<21304,3347>>,
     <<25866,29524>>, <<30314,2747>>, <<33218,51502>>, <<37490,11397>>,
     <<41663,59553>>, <<43034,26187>>, <<49739,35696>>, <<51052,20899>>,
     <<53650,59417>>, <<54937,1572>>, <<62478,13701>>, <<4202,41072>>,
     <<6564,49430>>, <<7735,27656>>, <<10056,30540>>, <<13488,48309>>,
     <<14620,3251>>, <<20184,43594>>, <<23452,51791>>, <<26670,28659>>,
     <<29839,33518>>, <<30885,25455>>, <<33992,30740>>, <<36039,520>>,
     <<37054,65530>>, <<42064,27883>>, <<48889,41975>>, <<50801,30962>> >>
LOCAL Start ==
  << <<27145,58983>>, <<47975,44677>>, <<15470,62322>>, <<42319,62778>>,
     <<20750,21119>>, <<39685,26764>>, <<8067,55723>>, <<23520,52505>> >>

LOCAL XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
LOCAL AndW(a, b) == <<a[1] & b[1], a[2] & b[2]>>
LOCAL NotW(a) == <<65535 - a[1], 65535 - a[2]>>
LOCAL AddW(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + lo \div P16) % P16, lo % P16>>
(* Rotation and shift to the right by n, p = 2^(n mod 16). *)
LOCAL Pow == <<2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
LOCAL RotS(a, n) ==                     \* n < 16
  LET p == Pow[n]  q == P16 \div p IN
  <<a[1] \div p + (a[2] % p) * q, a[2] \div p + (a[1] % p) * q>>
LOCAL Rot(a, n) == IF n < 16 THEN RotS(a, n) ELSE RotS(<<a[2], a[1]>>, n - 16)
LOCAL Shr(a, n) ==                      \* n < 16
  LET p == Pow[n]  q == P16 \div p IN <<a[1] \div p, a[2] \div p + (a[1] % p) * q>>

LOCAL Big0(x) == XorW(Rot(x, 2), XorW(Rot(x, 13), Rot(x, 22)))
LOCAL Big1(x) == XorW(Rot(x, 6), XorW(Rot(x, 11), Rot(x, 25)))
LOCAL Small0(x) == XorW(Rot(x, 7), XorW(Rot(x, 18), Shr(x, 3)))
LOCAL Small1(x) == XorW(Rot(x, 17), XorW(Rot(x, 19), Shr(x, 10)))
LOCAL Ch(x, y, z) == XorW(AndW(x, y), AndW(NotW(x), z))
LOCAL Maj(x, y, z) == XorW(AndW(x, y), XorW(AndW(x, z), AndW(y, z)))

LOCAL Extend(w, t) == Append(w, AddW(AddW(Small1(w[t - 2]), w[t - 7]), AddW(Small0(w[t - 15]), w[t - 16])))
LOCAL Round(s, w, t) ==
  LET t1 == AddW(AddW(s[8], Big1(s[5])), AddW(Ch(s[5], s[6], s[7]), AddW(RoundConst[t], w[t])))
      t2 == AddW(Big0(s[1]), Maj(s[1], s[2], s[3]))
  IN <<AddW(t1, t2), s[1], s[2], s[3], AddW(s[4], t1), s[5], s[6], s[7]>>
LOCAL Numbers == [t \in 1..64 |-> t]
LOCAL Compress(h, bs) ==                \* one block of 64 bytes
  LET w16 == [i \in 1..16 |-> <<256 * bs[4 * i - 3] + bs[4 * i - 2], 256 * bs[4 * i - 1] + bs[4 * i]>>]
      w == FoldLeft(Extend, w16, SubSeq(Numbers, 17, 64))
      s == FoldLeft(LAMBDA a, t : Round(a, w, t), h, Numbers)
  IN [i \in 1..8 |-> AddW(h[i], s[i])]

LOCAL Pad(bs) ==
  LET n == Len(bs)
      z == (119 - (n % 64)) % 64
  IN bs \o <<128>> \o [i \in 1..z |-> 0]
     \o <<0, 0, 0, 0, (n \div 2097152) % 256, (n \div 8192) % 256, (n \div 32) % 256, ((n % 32) * 8)>>

Sha256(bs) ==
  LET p == Pad(bs)
      h == FoldLeft(LAMBDA a, i : Compress(a, SubSeq(p, 64 * i - 63, 64 * i)), Start, [i \in 1..(Len(p) \div 64) |-> i])
  IN [i \in 1..32 |-> LET w == h[(i + 3) \div 4]  k == (i - 1) % 4 IN
       CASE k = 0 -> w[1] \div 256 [] k = 1 -> w[1] % 256 [] k = 2 -> w[2] \div 256 [] k = 3 -> w[2] % 256]
=============================================================================
