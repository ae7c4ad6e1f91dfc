------------------------------- MODULE Words -------------------------------
(* Operations on the words an expression computes with, by name. An operand  *)
(* is a word (8 bytes), or a word with a ninth component 1: the result of a  *)
(* library function, which is only known approximately. A result may also be *)
(* <<>>, an arithmetic error, or Unknown: what it is depends on digits that  *)
(* are not specified.                                                        *)
EXTENDS Num, Flt

W(v) == SubSeq(v, 1, 8)
Exact(v) == Len(v) = 8
Approx(v) == W(v) \o <<1>>
Unknown == <<9>>
ArithErr == <<>>

IsIntegral(b) == FEq(FFloor(b), b)
PowDomain(a, b) == ~(FLt(a, U0) /\ ~IsIntegral(b)) /\ ~(FEq(a, U0) /\ FLe(b, U0))

IntBin(op, a, b) ==
  CASE op = "add" -> UAdd(a, b)
    [] op = "sub" -> USub(a, b)
    [] op = "mul" -> UMul(a, b)
    [] op = "div" -> IF b = U0 THEN ArithErr ELSE UDiv(a, b)
    [] op = "mod" -> IF b = U0 THEN ArithErr ELSE UMod(a, b)
    [] op = "eq" -> Bool(a = b)
    [] op = "ne" -> Bool(a # b)
    [] op = "gt" -> Bool(ULt(b, a))
    [] op = "lt" -> Bool(ULt(a, b))
    [] op = "ge" -> Bool(ULe(b, a))
    [] op = "le" -> Bool(ULe(a, b))
    [] op = "land" -> Bool(a # U0 /\ b # U0)
    [] op = "lor" -> Bool(a # U0 \/ b # U0)
    [] op = "and" -> UAnd(a, b)
    [] op = "or" -> UOr(a, b)
    [] op = "xor" -> UXor(a, b)
    [] op = "shl" -> UShl(a, b)
    [] op = "shr" -> UShr(a, b)

FltBin(op, a, b) ==
  CASE op = "fadd" -> FAdd(a, b)
    [] op = "fsub" -> FSub(a, b)
    [] op = "fmul" -> FMul(a, b)
    [] op = "fdiv" -> IF FEq(b, U0) THEN ArithErr ELSE FDiv(a, b)
    [] op = "pow" -> IF PowDomain(a, b) THEN Approx(FPow(a, b)) ELSE ArithErr
    [] op = "feq" -> Bool(FEq(a, b))
    [] op = "fne" -> Bool(~FEq(a, b))
    [] op = "fgt" -> Bool(FLt(b, a))
    [] op = "flt" -> Bool(FLt(a, b))
    [] op = "fge" -> Bool(FLe(b, a))
    [] op = "fle" -> Bool(FLe(a, b))
FloatOps == {"fadd", "fsub", "fmul", "fdiv", "pow", "feq", "fne", "fgt", "flt", "fge", "fle"}

\* of the operations on approximate operands, those whose result is still known well enough
ApproxBin(op, a, b) ==
  LET x == W(a)  y == W(b) IN
  CASE op = "fmul" -> Approx(FMul(x, y))
    [] op = "fdiv" -> IF FEq(y, U0) THEN IF Exact(b) THEN ArithErr ELSE Unknown ELSE Approx(FDiv(x, y))
    [] op \in {"fadd", "fsub"} ->      \* unless the leading digits cancel out
         LET r == FltBin(op, x, y) IN
         IF FLe(FMul(FAdd(FAbs(x), FAbs(y)), FPow2(-8)), FAbs(r)) THEN Approx(r) ELSE Unknown
    [] op \in {"feq", "fne", "fgt", "flt", "fge", "fle"} -> IF FClose(x, y) THEN Unknown ELSE FltBin(op, x, y)
    [] OTHER -> Unknown

Bin2(op, a, b) ==
  IF Exact(a) /\ Exact(b) THEN IF op \in FloatOps THEN FltBin(op, a, b) ELSE IntBin(op, a, b)
  ELSE ApproxBin(op, a, b)

FitsWord(a) == FLe(FNeg(FPow2(63)), a) /\ FLt(a, FPow2(63))
Un1Exact(op, a) ==
  CASE op = "neg" -> UNeg(a)
    [] op = "lnot" -> Bool(a = U0)
    [] op = "not" -> UNotW(a)
    [] op = "fneg" -> FNeg(a)
    [] op = "sin" -> Approx(FSin(a))
    [] op = "cos" -> Approx(FCos(a))
    [] op = "tan" -> Approx(FTan(a))
    [] op = "sqrt" -> IF FLt(a, U0) THEN ArithErr ELSE FSqrt(a)
    [] op = "log" -> IF FLe(a, U0) THEN ArithErr ELSE Approx(FLog(a))
    [] op = "abs" -> FAbs(a)
    [] op = "itof" -> I2F(a)
    [] op = "ftoi" -> IF FitsWord(a) THEN F2I(a) ELSE ArithErr
Wider(x) == FAdd(x, FMul(x, FPow2(-38)))
Narrower(x) == FSub(x, FMul(x, FPow2(-38)))
ApproxUn(op, x) ==
  CASE op = "fneg" -> Approx(FNeg(x))
    [] op = "abs" -> Approx(FAbs(x))
    [] op = "sqrt" -> IF FLt(x, U0) THEN ArithErr ELSE Approx(FSqrt(x))
    [] op = "ftoi" -> IF FitsWord(Wider(x)) # FitsWord(Narrower(x)) THEN Unknown
                      ELSE IF ~FitsWord(x) THEN ArithErr
                      ELSE IF F2I(Wider(x)) = F2I(Narrower(x)) THEN F2I(x) ELSE Unknown
    [] OTHER -> Unknown
Un1(op, a) == IF Exact(a) THEN Un1Exact(op, a) ELSE ApproxUn(op, W(a))
=============================================================================
