-------------------------------- MODULE Flt --------------------------------
(* IEEE-754 double precision. A double is the word (see Num) with its bits.  *)
(* The operators below are evaluated by the class Flt (java/Flt.java), which *)
(* maps each of them to the one Java operation named in the comment; they    *)
(* are the only primitives of the specification not defined in TLA+.         *)
LOCAL INSTANCE Naturals

FAdd(a, b) == CHOOSE x \in {} : TRUE      \* a + b
FSub(a, b) == CHOOSE x \in {} : TRUE      \* a - b
FMul(a, b) == CHOOSE x \in {} : TRUE      \* a * b
FDiv(a, b) == CHOOSE x \in {} : TRUE      \* a / b
FNeg(a) == CHOOSE x \in {} : TRUE         \* -a
FAbs(a) == CHOOSE x \in {} : TRUE         \* |a|
FSqrt(a) == CHOOSE x \in {} : TRUE        \* correctly rounded square root
FFloor(a) == CHOOSE x \in {} : TRUE       \* largest integral double not above a
FTrunc(a) == CHOOSE x \in {} : TRUE       \* integral part of a
FEq(a, b) == CHOOSE x \in {} : TRUE       \* a = b (false on NaN)
FLt(a, b) == CHOOSE x \in {} : TRUE       \* a < b
FLe(a, b) == CHOOSE x \in {} : TRUE       \* a <= b
FIsNaN(a) == CHOOSE x \in {} : TRUE
I2F(a) == CHOOSE x \in {} : TRUE          \* nearest double to the signed word a
U2F(a) == CHOOSE x \in {} : TRUE          \* nearest double to the unsigned word a
F2I(a) == CHOOSE x \in {} : TRUE          \* a, integral part, as signed word (|a| < 2^63)
F2U(a) == CHOOSE x \in {} : TRUE          \* a >= 0, integral part, as unsigned word (a < 2^64)
FPow2(n) == CHOOSE x \in {} : TRUE        \* 2^n
F64of32(a) == CHOOSE x \in {} : TRUE      \* the double equal to the 4-byte single a
F32of64(a) == CHOOSE x \in {} : TRUE      \* the 4-byte single nearest to a
FSub32(a, b) == CHOOSE x \in {} : TRUE    \* a - b in single precision, on 4-byte singles
FOfRatio(n, d) == CHOOSE x \in {} : TRUE  \* the double nearest to n/d, for integers n, d
FOfDec(s) == CHOOSE x \in {} : TRUE       \* the double nearest to the decimal number written in string s
FSin(a) == CHOOSE x \in {} : TRUE
FCos(a) == CHOOSE x \in {} : TRUE
FTan(a) == CHOOSE x \in {} : TRUE
FLog(a) == CHOOSE x \in {} : TRUE
FPow(a, b) == CHOOSE x \in {} : TRUE
FClose(a, b) == CHOOSE x \in {} : TRUE    \* equal, both NaN, or within 1e-12 of each other relatively
=============================================================================
