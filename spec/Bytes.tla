------------------------------- MODULE Bytes -------------------------------
(* Fixed-width two's complement integers as big-endian byte sequences.       *)
(* TLC integers are 32 bit, protospec integers go up to 128, so arithmetic   *)
(* is schoolbook arithmetic on bytes, with a native path for small values.   *)
(* Arithmetic operators return <<>> where the generated code traps           *)
(* (overflow, division by zero, shift by at least the width).                *)
EXTENDS Integers, Sequences, Bitwise, TLC

Trap == <<>>

Zeros(n)  == TLCEval([i \in 1..n |-> 0])
Fill(n,x) == TLCEval([i \in 1..n |-> x])
RevSeq(s) == TLCEval([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])

RECURSIVE OfNat(_, _)
OfNat(n, w) == IF w = 0 THEN <<>> ELSE OfNat(n \div 256, w - 1) \o <<n % 256>>

RECURSIVE NatFrom(_, _, _)
NatFrom(b, i, acc) == IF i > Len(b) THEN acc ELSE NatFrom(b, i + 1, acc * 256 + b[i])

\* the unsigned value fits a native TLC integer with room for multiplication by 256
IsSmall(b) == \A i \in 1..Len(b) : i + 3 <= Len(b) => b[i] = 0
ToNat(b) == IF Len(b) <= 3 THEN NatFrom(b, 1, 0) ELSE NatFrom(b, Len(b) - 2, 0)
\* saturating: anything that is not small is "huge"
Huge == 16777216
NatOr(b) == IF IsSmall(b) THEN ToNat(b) ELSE Huge

IsZero(b) == \A i \in 1..Len(b) : b[i] = 0
Neg1(b)   == b[1] >= 128       \* sign bit

RECURSIVE AddC(_, _, _, _, _)
AddC(a, b, i, c, acc) ==
  IF i = 0 THEN <<c, acc>>
  ELSE LET s == a[i] + b[i] + c IN AddC(a, b, i - 1, s \div 256, <<s % 256>> \o acc)
RawAdd(a, b) == AddC(a, b, Len(a), 0, <<>>)

RECURSIVE SubC(_, _, _, _, _)
SubC(a, b, i, c, acc) ==
  IF i = 0 THEN <<c, acc>>
  ELSE LET s == a[i] - b[i] - c IN SubC(a, b, i - 1, IF s < 0 THEN 1 ELSE 0, <<(s + 256) % 256>> \o acc)
RawSub(a, b) == SubC(a, b, Len(a), 0, <<>>)

NotB(a)  == TLCEval([i \in 1..Len(a) |-> 255 - a[i]])
Inc(a)  == RawAdd(a, OfNat(1, Len(a)))[2]
NegB(a) == Inc(NotB(a))

\* unsigned comparison
RECURSIVE CmpU(_, _, _)
CmpU(a, b, i) == IF i > Len(a) THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpU(a, b, i + 1)
Cmp(sg, a, b) ==
  IF sg /\ Neg1(a) /= Neg1(b) THEN (IF Neg1(a) THEN -1 ELSE 1) ELSE CmpU(a, b, 1)

Map2(Op(_, _), a, b) == TLCEval([i \in 1..Len(a) |-> Op(a[i], b[i])])
AndB(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] & b[i]])
OrB(a, b)  == TLCEval([i \in 1..Len(a) |-> a[i] | b[i]])
XorB(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>    \* Pow2[k+1] = 2^k
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 2 * Pow(k - 1)

\* logical shifts by n bits, 0 <= n < 8*Len(a)
ShlB(a, n) ==
  LET w == Len(a)  q == n \div 8  r == n % 8
      at(i) == IF i + q <= w THEN a[i + q] ELSE 0
  IN TLCEval([i \in 1..w |-> ((at(i) * Pow2[r + 1]) % 256) + (at(i + 1) \div Pow2[9 - r])])
ShrF(a, n, f) ==
  LET w == Len(a)  q == n \div 8  r == n % 8
      at(i) == IF i - q >= 1 THEN a[i - q] ELSE f
  IN TLCEval([i \in 1..w |-> (at(i) \div Pow2[r + 1]) + ((at(i - 1) * Pow2[9 - r]) % 256)])
ShrB(sg, a, n) == ShrF(a, n, IF sg /\ Neg1(a) THEN 255 ELSE 0)

\* full product (2w bytes) of unsigned a and b: accumulate byte rows
RECURSIVE MulByte(_, _, _, _, _)
MulByte(a, d, i, c, acc) ==     \* a * d, w+1 bytes
  IF i = 0 THEN <<c>> \o acc
  ELSE LET s == a[i] * d + c IN MulByte(a, d, i - 1, s \div 256, <<s % 256>> \o acc)
RECURSIVE MulR(_, _, _, _)
MulR(a, b, j, acc) ==           \* Horner over b's bytes from the most significant
  IF j > Len(b) THEN acc
  ELSE LET w  == Len(a)
           sh == Tail(acc) \o <<0>>
           row == Zeros(w - 1) \o MulByte(a, b[j], w, 0, <<>>)
       IN MulR(a, b, j + 1, RawAdd(sh, row)[2])
MulU(a, b) == MulR(a, b, 1, Zeros(2 * Len(a)))

Hi(p) == SubSeq(p, 1, Len(p) \div 2)
Lo(p) == SubSeq(p, Len(p) \div 2 + 1, Len(p))

Abs(sg, a) == IF sg /\ Neg1(a) THEN NegB(a) ELSE a
IsMin(a) == a[1] = 128 /\ IsZero(Tail(a))

\* unsigned long division, bit by bit: <<quotient, remainder>>
RECURSIVE DivBits(_, _, _, _, _)
DivBits(a, b, i, q, r) ==
  IF i = 8 * Len(a) THEN <<q, r>>
  ELSE LET bit == (a[i \div 8 + 1] \div Pow2[8 - (i % 8)]) % 2
           top == r[1] >= 128
           r1  == LET s == ShlB(r, 1) IN [s EXCEPT ![Len(s)] = @ + bit]
           ge  == top \/ CmpU(r1, b, 1) >= 0
           r2  == IF ge THEN RawSub(r1, b)[2] ELSE r1
           q1  == LET s == ShlB(q, 1) IN IF ge THEN [s EXCEPT ![Len(s)] = @ + 1] ELSE s
       IN DivBits(a, b, i + 1, q1, r2)
\* byte by byte for a divisor small enough to work natively
RECURSIVE DivBytes(_, _, _, _, _)
DivBytes(a, d, i, q, r) ==
  IF i > Len(a) THEN <<q, OfNat(r, Len(a))>>
  ELSE LET x == r * 256 + a[i] IN DivBytes(a, d, i + 1, Append(q, x \div d), x % d)
DivU(a, b) ==
  IF IsSmall(a) /\ IsSmall(b)
  THEN <<OfNat(ToNat(a) \div ToNat(b), Len(a)), OfNat(ToNat(a) % ToNat(b), Len(a))>>
  ELSE IF IsSmall(b) /\ ToNat(b) < 4194304 THEN DivBytes(a, ToNat(b), 1, <<>>, 0)
  ELSE DivBits(a, b, 0, Zeros(Len(a)), Zeros(Len(a)))

---------------------------------------------------------------------------
\* checked arithmetic, sg = signed
Add(sg, a, b) ==
  LET r == RawAdd(a, b) IN
  IF sg THEN (IF Neg1(a) = Neg1(b) /\ Neg1(r[2]) /= Neg1(a) THEN Trap ELSE r[2])
        ELSE (IF r[1] # 0 THEN Trap ELSE r[2])
Sub(sg, a, b) ==
  LET r == RawSub(a, b) IN
  IF sg THEN (IF Neg1(a) /= Neg1(b) /\ Neg1(r[2]) /= Neg1(a) THEN Trap ELSE r[2])
        ELSE (IF r[1] # 0 THEN Trap ELSE r[2])
Mul(sg, a, b) ==
  LET p   == MulU(Abs(sg, a), Abs(sg, b))
      neg == sg /\ Neg1(a) /= Neg1(b)
      lo  == Lo(p)
  IN IF ~IsZero(Hi(p)) THEN Trap
     ELSE IF ~sg THEN lo
     ELSE IF neg THEN (IF Neg1(lo) /\ ~IsMin(lo) THEN Trap ELSE NegB(lo))
     ELSE IF Neg1(lo) THEN Trap ELSE lo
Div(sg, a, b) ==
  IF IsZero(b) THEN Trap
  ELSE IF sg /\ IsMin(a) /\ b = Fill(Len(b), 255) THEN Trap
  ELSE LET q == DivU(Abs(sg, a), Abs(sg, b))[1]
       IN IF sg /\ Neg1(a) /= Neg1(b) THEN NegB(q) ELSE q
Rem(sg, a, b) ==
  IF IsZero(b) THEN Trap
  ELSE IF sg /\ IsMin(a) /\ b = Fill(Len(b), 255) THEN Trap
  ELSE LET r == DivU(Abs(sg, a), Abs(sg, b))[2]
       IN IF sg /\ Neg1(a) THEN NegB(r) ELSE r
ShAmt(sg, b, w) == IF (sg /\ Neg1(b)) \/ NatOr(b) >= 8 * w THEN -1 ELSE NatOr(b)
Shl(sg, a, b) == LET n == ShAmt(sg, b, Len(a)) IN IF n < 0 THEN Trap ELSE ShlB(a, n)
Shr(sg, a, b) == LET n == ShAmt(sg, b, Len(a)) IN IF n < 0 THEN Trap ELSE ShrB(sg, a, n)
NegC(a) == IF IsMin(a) THEN Trap ELSE NegB(a)

\* resize from a (signed iff sg) to w bytes
Resize(sg, a, w) ==
  IF Len(a) >= w THEN SubSeq(a, Len(a) - w + 1, Len(a))
  ELSE Fill(w - Len(a), IF sg /\ Neg1(a) THEN 255 ELSE 0) \o a

RECURSIVE PopByte(_)
PopByte(x) == IF x = 0 THEN 0 ELSE (x % 2) + PopByte(x \div 2)
RECURSIVE PopCount(_)
PopCount(a) == IF a = <<>> THEN 0 ELSE PopByte(Head(a)) + PopCount(Tail(a))

---------------------------------------------------------------------------
\* UTF-8 / UTF-16 (strings are carried as their UTF-8 bytes)
Cont8(x) == x >= 128 /\ x <= 191
RECURSIVE Utf8From(_, _, _)
\* code points, or <<-1>> if ill-formed
Utf8From(b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE LET x == b[i]
           c(k) == IF i + k <= Len(b) THEN b[i + k] ELSE 0
           ok1 == Cont8(c(1))  ok2 == ok1 /\ Cont8(c(2))  ok3 == ok2 /\ Cont8(c(3))
       IN IF x < 128 THEN Utf8From(b, i + 1, Append(acc, x))
          ELSE IF x >= 194 /\ x <= 223 /\ ok1
            THEN Utf8From(b, i + 2, Append(acc, (x - 192) * 64 + (c(1) - 128)))
          ELSE IF x >= 224 /\ x <= 239 /\ ok2 /\ (x = 224 => c(1) >= 160) /\ (x = 237 => c(1) <= 159)
            THEN Utf8From(b, i + 3, Append(acc, (x - 224) * 4096 + (c(1) - 128) * 64 + (c(2) - 128)))
          ELSE IF x >= 240 /\ x <= 244 /\ ok3 /\ (x = 240 => c(1) >= 144) /\ (x = 244 => c(1) <= 143)
            THEN Utf8From(b, i + 4, Append(acc, (x - 240) * 262144 + (c(1) - 128) * 4096 + (c(2) - 128) * 64 + (c(3) - 128)))
          ELSE <<-1>>
CodePoints(b) == Utf8From(b, 1, <<>>)
Utf8Ok(b) == CodePoints(b) # <<-1>>

EncCp(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Utf8Of(_)
Utf8Of(cps) == IF cps = <<>> THEN <<>> ELSE EncCp(Head(cps)) \o Utf8Of(Tail(cps))

Unit(c) == <<c \div 256, c % 256>>
EncCp16(c) == IF c < 65536 THEN Unit(c)
              ELSE LET d == c - 65536 IN Unit(55296 + d \div 1024) \o Unit(56320 + (d % 1024))
RECURSIVE Utf16Of(_)
Utf16Of(cps) == IF cps = <<>> THEN <<>> ELSE EncCp16(Head(cps)) \o Utf16Of(Tail(cps))
RECURSIVE Utf16From(_, _, _)
Utf16From(b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE LET u == b[i] * 256 + b[i + 1]
           v == IF i + 3 <= Len(b) THEN b[i + 2] * 256 + b[i + 3] ELSE 0
       IN IF u < 55296 \/ u > 57343 THEN Utf16From(b, i + 2, Append(acc, u))
          ELSE IF u <= 56319 /\ v >= 56320 /\ v <= 57343
            THEN Utf16From(b, i + 4, Append(acc, 65536 + (u - 55296) * 1024 + (v - 56320)))
          ELSE <<-1>>
Units16(b) == Len(Utf16Of(CodePoints(b))) \div 2
=============================================================================
