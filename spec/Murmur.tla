------------------------------- MODULE Murmur -------------------------------
(* MurmurHash3 x86 32-bit, seed 0, on a sequence of bytes.  A 32-bit word is *)
(* <<b0, b1, b2, b3>>, least significant byte first, so that every product   *)
(* fits TLC's 32-bit integers.                                               *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Bitwise
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

LOCAL Norm(r0, r1, r2, r3) ==
  LET c1 == r1 + (r0 \div 256)
      c2 == r2 + (c1 \div 256)
      c3 == r3 + (c2 \div 256)
  IN  <<r0 % 256, c1 % 256, c2 % 256, c3 % 256>>
Mul32(a, b) ==
  TLCEval(Norm(a[1]*b[1],
       a[1]*b[2] + a[2]*b[1],
       a[1]*b[3] + a[2]*b[2] + a[3]*b[1],
       a[1]*b[4] + a[2]*b[3] + a[3]*b[2] + a[4]*b[1]))
Add32(a, b) == Norm(a[1]+b[1], a[2]+b[2], a[3]+b[3], a[4]+b[4])
Xor32(a, b) == TLCEval([i \in 1..4 |-> a[i] ^^ b[i]])
LOCAL Rol16(a) == <<a[3], a[4], a[1], a[2]>>
(* rotate right by s < 8 bits *)
LOCAL Ror(a, s) ==
  LET p == 2^s  q == 2^(8 - s)
      B(lo, hi) == (lo \div p) + (hi % p) * q
  IN  <<B(a[1], a[2]), B(a[2], a[3]), B(a[3], a[4]), B(a[4], a[1])>>
LOCAL Shr(a, s) ==    \* logical shift right by s < 8 bits
  LET p == 2^s  q == 2^(8 - s)
      B(lo, hi) == (lo \div p) + (hi % p) * q
  IN  <<B(a[1], a[2]), B(a[2], a[3]), B(a[3], a[4]), a[4] \div p>>
Rotl15(a) == Ror(Rol16(a), 1)
Rotl13(a) == Ror(Rol16(a), 3)
Shr16(a) == <<a[3], a[4], 0, 0>>
Shr13(a) == Shr(<<a[2], a[3], a[4], 0>>, 5)

C1 == <<81, 45, 158, 204>>        \* 0xCC9E2D51
C2 == <<147, 53, 135, 27>>        \* 0x1B873593
C5 == <<5, 0, 0, 0>>
CE == <<100, 107, 84, 230>>       \* 0xE6546B64
M1 == <<107, 202, 235, 133>>      \* 0x85EBCA6B
M2 == <<53, 174, 178, 194>>       \* 0xC2B2AE35

Mix(k) == Mul32(Rotl15(Mul32(k, C1)), C2)
Fmix(h0) ==
  LET h1 == Mul32(Xor32(h0, Shr16(h0)), M1)
      h2 == Mul32(Xor32(h1, Shr13(h1)), M2)
  IN  Xor32(h2, Shr16(h2))
Body(key) ==
  LET nb == Len(key) \div 4
      Step(h, b) == TLCEval(Add32(Mul32(Rotl13(Xor32(h, Mix(SubSeq(key, 4*b - 3, 4*b)))), C5), CE))
  IN  FoldLeft(Step, <<0, 0, 0, 0>>, [b \in 1..nb |-> b])
Hash32(key) ==
  LET n == Len(key)
      t == n % 4
      o == n - t
      tail == [i \in 1..4 |-> IF i <= t THEN key[o + i] ELSE 0]
      h == IF t = 0 THEN Body(key) ELSE Xor32(Body(key), Mix(tail))
  IN  Fmix(Xor32(h, <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, 0>>))

IsNegative(h) == h[4] >= 128
(* |h| mod m for the signed reading of h, 1 <= m < 2^31                     *)
AbsMod(h, m) ==
  LET Val(b) == b[1] + 256*b[2] + 65536*b[3] + 16777216*b[4]
      neg == Norm(255 - h[1] + 1, 255 - h[2], 255 - h[3], 255 - h[4])
  IN  IF ~IsNegative(h) THEN Val(h) % m
      ELSE IF h = <<0, 0, 0, 128>> THEN ((2147483647 % m) + 1) % m
      ELSE Val(neg) % m
=============================================================================
