-------------------------------- MODULE Crc --------------------------------
EXTENDS Words

(* Check sums, bit by bit from their definition: the register is a sequence  *)
(* of bits, most significant first.                                          *)

BitsMSB(v) == LET n == Len(v) IN [i \in 1..8*n |-> Bit(v, 8*n - i)]          \* of a byte string
BytesOf(b) == LET n == Len(b) \div 8 IN
  [j \in 1..n |-> LET o == Len(b) - 8*(j-1) IN
     b[o] + 2*b[o-1] + 4*b[o-2] + 8*b[o-3] + 16*b[o-4] + 32*b[o-5] + 64*b[o-6] + 128*b[o-7]]
XorBits(a, b) == [i \in 1..Len(a) |-> IF a[i] = b[i] THEN 0 ELSE 1]
ShiftIn(reg, poly, bit) ==
  LET n == Len(reg)
      sh == [i \in 1..n |-> IF i < n THEN reg[i+1] ELSE 0] IN
  IF reg[1] = bit THEN sh ELSE XorBits(sh, poly)
RECURSIVE CrcByte(_, _, _, _, _)
CrcByte(reg, poly, byte, refin, j) ==
  IF j = 8 THEN reg
  ELSE CrcByte(ShiftIn(reg, poly, (byte \div Pow2[(IF refin THEN j ELSE 7 - j) + 1]) % 2), poly, byte, refin, j + 1)
RECURSIVE CrcRec(_, _, _, _, _, _)
CrcRec(reg, poly, data, refin, i, n) ==
  IF i > n THEN reg ELSE CrcRec(CrcByte(reg, poly, data[i], refin, 0), poly, data, refin, i + 1, n)
\* CRC of data[1..n]; poly, init and xor are byte strings of the width of the CRC
CrcDef(data, n, poly, init, xor, refin, refout) ==
  LET reg == CrcRec(BitsMSB(init), BitsMSB(poly), data, refin, 1, n)
  IN BytesOf(XorBits(IF refout THEN Reverse(reg) ELSE reg, BitsMSB(xor)))
=============================================================================
