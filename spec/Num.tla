-------------------------------- MODULE Num --------------------------------
(* 64-bit words. TLC's integers are 32 bits wide, so a word is a tuple of    *)
(* eight bytes, least significant first; narrower values are shorter tuples. *)
EXTENDS Naturals, Integers, Sequences, Bitwise

Byte == 0..255
Zeros(n) == [i \in 1..n |-> 0]
U0 == <<0,0,0,0,0,0,0,0>>
U1 == <<1,0,0,0,0,0,0,0>>

\* the word holding the natural number n < 2^31
OfNat(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>

Bool(b) == IF b THEN U1 ELSE U0

IsZero(a) == a = U0

\* the number of the (little-endian) byte string a, or Big if it is not below Big
Big == 1073741824
RECURSIVE NatRec(_, _)
NatRec(a, i) == IF i > Len(a) THEN 0
                ELSE LET hi == NatRec(a, i + 1) IN
                     IF hi >= 4194304 THEN Big ELSE hi * 256 + a[i]
ToNat(a) == LET n == NatRec(a, 1) IN IF n > Big THEN Big ELSE n

\* unsigned order on words of the same size
RECURSIVE LtRec(_, _, _)
LtRec(a, b, i) == IF i = 0 THEN FALSE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i]
                  ELSE LtRec(a, b, i - 1)
ULt(a, b) == LtRec(a, b, Len(a))
ULe(a, b) == ~ULt(b, a)

\* two's complement order on words of the same size
Flip(a) == [a EXCEPT ![Len(a)] = (@ + 128) % 256]
SLt(a, b) == ULt(Flip(a), Flip(b))
SLe(a, b) == ~SLt(b, a)
IsNeg(a) == a[Len(a)] >= 128

\* normalise a tuple of (possibly large) column sums into bytes
Carry8(s1, s2, s3, s4, s5, s6, s7, s8) ==
  LET t2 == s2 + (s1 \div 256)
      t3 == s3 + (t2 \div 256)
      t4 == s4 + (t3 \div 256)
      t5 == s5 + (t4 \div 256)
      t6 == s6 + (t5 \div 256)
      t7 == s7 + (t6 \div 256)
      t8 == s8 + (t7 \div 256)
  IN <<s1 % 256, t2 % 256, t3 % 256, t4 % 256, t5 % 256, t6 % 256, t7 % 256, t8 % 256>>

UAdd(a, b) == Carry8(a[1]+b[1], a[2]+b[2], a[3]+b[3], a[4]+b[4], a[5]+b[5], a[6]+b[6], a[7]+b[7], a[8]+b[8])
UNot(a) == [i \in 1..Len(a) |-> 255 - a[i]]
UNotW(a) == <<255-a[1], 255-a[2], 255-a[3], 255-a[4], 255-a[5], 255-a[6], 255-a[7], 255-a[8]>>
UNeg(a) == UAdd(UNotW(a), U1)
USub(a, b) == UAdd(a, UNeg(b))
UMul(a, b) ==
  Carry8(a[1]*b[1],
         a[1]*b[2]+a[2]*b[1],
         a[1]*b[3]+a[2]*b[2]+a[3]*b[1],
         a[1]*b[4]+a[2]*b[3]+a[3]*b[2]+a[4]*b[1],
         a[1]*b[5]+a[2]*b[4]+a[3]*b[3]+a[4]*b[2]+a[5]*b[1],
         a[1]*b[6]+a[2]*b[5]+a[3]*b[4]+a[4]*b[3]+a[5]*b[2]+a[6]*b[1],
         a[1]*b[7]+a[2]*b[6]+a[3]*b[5]+a[4]*b[4]+a[5]*b[3]+a[6]*b[2]+a[7]*b[1],
         a[1]*b[8]+a[2]*b[7]+a[3]*b[6]+a[4]*b[5]+a[5]*b[4]+a[6]*b[3]+a[7]*b[2]+a[8]*b[1])

UAnd(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4], a[5] & b[5], a[6] & b[6], a[7] & b[7], a[8] & b[8]>>
UOr(a, b) == <<a[1] | b[1], a[2] | b[2], a[3] | b[3], a[4] | b[4], a[5] | b[5], a[6] | b[6], a[7] | b[7], a[8] | b[8]>>
UXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4], a[5] ^^ b[5], a[6] ^^ b[6], a[7] ^^ b[7], a[8] ^^ b[8]>>

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>

\* bit i (0-based) of a byte string
Bit(a, i) == (a[(i \div 8) + 1] \div Pow2[(i % 8) + 1]) % 2

\* the word whose bit i is f[i], for i in 0..63
OfBits(F(_)) == [j \in 1..8 |->
   LET o == 8 * (j - 1) IN
   F(o) + 2*F(o+1) + 4*F(o+2) + 8*F(o+3) + 16*F(o+4) + 32*F(o+5) + 64*F(o+6) + 128*F(o+7)]

UShlN(a, n) == OfBits(LAMBDA i : IF i >= n THEN Bit(a, i - n) ELSE 0)
UShrN(a, n) == OfBits(LAMBDA i : IF i + n < 64 THEN Bit(a, i + n) ELSE 0)
\* shifts by a word; 64 places or more leave nothing
UShl(a, b) == IF ToNat(b) >= 64 THEN U0 ELSE UShlN(a, ToNat(b))
UShr(a, b) == IF ToNat(b) >= 64 THEN U0 ELSE UShrN(a, ToNat(b))

\* schoolbook division, one bit at a time from the top: <<quotient, remainder>>
Double(a, bit) == Carry8(2*a[1] + bit, 2*a[2], 2*a[3], 2*a[4], 2*a[5], 2*a[6], 2*a[7], 2*a[8])
RECURSIVE DivRec(_, _, _, _, _)
DivRec(a, b, i, q, r) ==
  IF i < 0 THEN <<q, r>>
  ELSE LET over == r[8] >= 128           \* doubling the remainder leaves the word
           r2 == Double(r, Bit(a, i))
           ge == over \/ ~ULt(r2, b)
       IN DivRec(a, b, i - 1, Double(q, IF ge THEN 1 ELSE 0), IF ge THEN USub(r2, b) ELSE r2)
Small(a) == a[5] = 0 /\ a[6] = 0 /\ a[7] = 0 /\ a[8] = 0 /\ a[4] < 128
SmallNat(a) == a[1] + 256 * a[2] + 65536 * a[3] + 16777216 * a[4]
UDivMod(a, b) == IF Small(a) /\ Small(b)
                 THEN <<OfNat(SmallNat(a) \div SmallNat(b)), OfNat(SmallNat(a) % SmallNat(b))>>
                 ELSE DivRec(a, b, 63, U0, U0)
UDiv(a, b) == UDivMod(a, b)[1]
UMod(a, b) == UDivMod(a, b)[2]

SAbs(a) == IF IsNeg(a) THEN UNeg(a) ELSE a
\* signed division, truncating towards zero
SDiv(a, b) == LET q == UDiv(SAbs(a), SAbs(b)) IN IF IsNeg(a) # IsNeg(b) THEN UNeg(q) ELSE q

\* widen a byte string to a word, narrow a word to n bytes
ZExt(a) == [i \in 1..8 |-> IF i <= Len(a) THEN a[i] ELSE 0]
SExt(a) == [i \in 1..8 |-> IF i <= Len(a) THEN a[i] ELSE IF IsNeg(a) THEN 255 ELSE 0]
Low(a, n) == SubSeq(a, 1, n)
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* the low w bits of a word, and its value read as a w-bit two's complement number
LowBits(a, w) == OfBits(LAMBDA i : IF i < w THEN Bit(a, i) ELSE 0)
SignBits(a, w) == OfBits(LAMBDA i : IF i < w THEN Bit(a, i) ELSE Bit(a, w - 1))
=============================================================================
