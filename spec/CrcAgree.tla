------------------------------ MODULE CrcAgree ------------------------------
(* CrcFast computes CrcDef, on messages and parameters chosen at random and  *)
(* on the published check values (of the message "123456789").               *)
EXTENDS Crc, Fast, TLC, IOUtils

Bytes(n) == [i \in 1..n |-> RandomElement(0..255)]
Flag == RandomElement({TRUE, FALSE})
Same(w, len, k) == LET d == Bytes(len)  p == Bytes(w)  s == Bytes(w)  x == Bytes(w)  ri == Flag  ro == Flag IN
  CrcFast(d, len, p, s, x, ri, ro) = CrcDef(d, len, p, s, x, ri, ro)
Digits == <<49, 50, 51, 52, 53, 54, 55, 56, 57>>
Z2 == <<0, 0>>  F2 == <<255, 255>>  F4 == <<255, 255, 255, 255>>
Check(poly, init, xor, ri, ro, sum) == CrcDef(Digits, 9, poly, init, xor, ri, ro) = sum
VARIABLE x
ASSUME /\ Check(<<33, 16>>, F2, Z2, FALSE, FALSE, <<177, 41>>)             \* CRC-16/CCITT-FALSE: 29B1
       /\ Check(<<33, 16>>, Z2, Z2, TRUE, TRUE, <<137, 33>>)               \* CRC-16/KERMIT: 2189
       /\ Check(<<5, 128>>, Z2, Z2, TRUE, TRUE, <<61, 187>>)               \* CRC-16/ARC: BB3D
       /\ Check(<<183, 29, 193, 4>>, F4, F4, TRUE, TRUE, <<38, 57, 244, 203>>)  \* CRC-32: CBF43926
       /\ Check(<<183, 29, 193, 4>>, F4, F4, FALSE, FALSE, <<24, 25, 137, 252>>)  \* CRC-32/BZIP2: FC891918
ASSUME \A w \in {2, 4}, len \in 0..12, k \in 1..10 : Same(w, len, k)
Init == x = 0
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
