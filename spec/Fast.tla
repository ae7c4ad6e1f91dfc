-------------------------------- MODULE Fast --------------------------------
(* CrcFast is evaluated by the class Fast (java/Fast.java). It has to be the *)
(* same function as Crc!CrcDef, which is its definition; module CrcAgree     *)
(* compares the two.                                                         *)
LOCAL INSTANCE Naturals
CrcFast(data, n, poly, init, xor, refin, refout) == CHOOSE x \in {} : TRUE
=============================================================================
