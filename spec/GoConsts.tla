------------------------------ MODULE GoConsts ------------------------------
(* The names the bindings have for the operation codes, results and modes,  *)
(* and the numbers these have in the specification. A record gives the       *)
(* numbers found in one place (src) as a function from names to numbers.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)

Errors == [
  ErrOk |-> 0, ErrOOB |-> 1, ErrInvalidOp |-> 2, ErrValidation |-> 3,
  ErrCallback |-> 4, ErrStackOverflow |-> 5, ErrStackUnderflow |-> 6, ErrCRCMismatch |-> 7,
  ErrArithmetic |-> 8]
Modes == [
  ModeEncode |-> 0, ModeDecode |-> 1]
Transforms == [
  TransNone |-> 0, TransScaleF64 |-> 1, TransAddI64 |-> 2, TransSubI64 |-> 3,
  TransMulI64 |-> 4, TransDivI64 |-> 5, TransPoly |-> 6, TransSpline |-> 7]
Codes == [
  OpNoop |-> 0, OpSetEndianLe |-> 1, OpSetEndianBe |-> 2, OpEnterStruct |-> 3,
  OpExitStruct |-> 4, OpMetaVersion |-> 5, OpCtxQuery |-> 6, OpMetaName |-> 7,
  OpIoU8 |-> 16, OpIoU16 |-> 17, OpIoU32 |-> 18, OpIoU64 |-> 19,
  OpIoI8 |-> 20, OpIoI16 |-> 21, OpIoI32 |-> 22, OpIoI64 |-> 23,
  OpIoF32 |-> 24, OpIoF64 |-> 25, OpIoBool |-> 26, OpIoBitU |-> 32,
  OpIoBitI |-> 33, OpIoBitBool |-> 34, OpAlignPad |-> 35, OpAlignFill |-> 36,
  OpEnterBitMode |-> 37, OpExitBitMode |-> 38, OpStrNull |-> 48, OpStrPreU8 |-> 49,
  OpStrPreU16 |-> 50, OpStrPreU32 |-> 51, OpArrFixed |-> 52, OpArrPreU8 |-> 53,
  OpArrPreU16 |-> 54, OpArrPreU32 |-> 55, OpArrEnd |-> 56, OpRawBytes |-> 57,
  OpArrEof |-> 58, OpArrDynamic |-> 59, OpConstCheck |-> 64, OpConstWrite |-> 65,
  OpRangeCheck |-> 66, OpScaleLin |-> 67, OpCRC16 |-> 68, OpTransAdd |-> 69,
  OpTransSub |-> 70, OpTransMul |-> 71, OpTransDiv |-> 72, OpCRC32 |-> 73,
  OpMarkOptional |-> 74, OpEnumCheck |-> 75, OpTransPoly |-> 76, OpTransSpline |-> 77,
  OpJumpIfNot |-> 80, OpSwitch |-> 81, OpJump |-> 82, OpSwitchTable |-> 83,
  OpLoadCtx |-> 96, OpStoreCtx |-> 120, OpPushImm |-> 97, OpPop |-> 98,
  OpSwap |-> 99, OpDup |-> 100, OpEmit |-> 101, OpAdd |-> 114,
  OpSub |-> 115, OpMul |-> 116, OpDiv |-> 117, OpMod |-> 118,
  OpNeg |-> 119, OpFadd |-> 128, OpFsub |-> 129, OpFmul |-> 130,
  OpFdiv |-> 131, OpFneg |-> 132, OpSin |-> 133, OpCos |-> 134,
  OpTan |-> 135, OpSqrt |-> 136, OpPow |-> 137, OpLog |-> 138,
  OpAbs |-> 139, OpItof |-> 144, OpFtoi |-> 145, OpEqF |-> 146,
  OpNeqF |-> 147, OpGtF |-> 148, OpLtF |-> 149, OpGteF |-> 150,
  OpLteF |-> 151, OpBitAnd |-> 160, OpBitOr |-> 161, OpBitXor |-> 162,
  OpBitNot |-> 163, OpShl |-> 164, OpShr |-> 165, OpEq |-> 105,
  OpNeq |-> 106, OpGt |-> 107, OpLt |-> 108, OpGte |-> 109,
  OpLte |-> 110, OpLogAnd |-> 111, OpLogOr |-> 112, OpLogNot |-> 113]
Orders == [
  Le |-> 0, Be |-> 1]
Known == Errors @@ Modes @@ Transforms @@ Codes
\* no two codes share a number
ASSUME \A a, b \in DOMAIN Codes : a # b => Codes[a] # Codes[b]
ASSUME \A a, b \in DOMAIN Errors : a # b => Errors[a] # Errors[b]

Want(src) == IF src \in {"binding", "go"} THEN Known @@ Orders ELSE Known
Verdict(x) ==
  LET w == Want(x.src)
      absent == {n \in DOMAIN w : n \notin DOMAIN x.c}
      wrong == {n \in DOMAIN w \cap DOMAIN x.c : x.c[n] # w[n]} IN
  IF absent # {} THEN "no " \o (CHOOSE n \in absent : TRUE)
  ELSE IF wrong # {} THEN LET n == CHOOSE n \in wrong : TRUE IN n \o " is " \o ToString(x.c[n]) \o " instead of " \o ToString(w[n])
  ELSE ""

VARIABLE i, done
Init == i \in 1..Len(Runs) /\ done = 0
Next == /\ done = 0 /\ done' = 1 /\ i' = i
        /\ LET v == Verdict(Runs[i]) IN PrintT(IF v = "" THEN "OK " \o ToString(i) ELSE "BAD " \o ToString(i) \o " " \o v)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
