------------------------------ MODULE Inspect ------------------------------
(* What `cnd inspect` tells about a program image: the header, the names     *)
(* with their numbers and the listing of the bytecode. A line of the listing *)
(* is an instruction: where it is, its name and its operands, each with a    *)
(* label and a list of values. A value is a number (sign and magnitude), a   *)
(* double, or the name of a type.                                            *)
EXTENDS Image, Verifier

OpName == [x \in 0..255 |->
  CASE x = 0 -> "NOOP" [] x = 1 -> "SET_ENDIAN_LE" [] x = 2 -> "SET_ENDIAN_BE" [] x = 3 -> "ENTER_STRUCT"
    [] x = 4 -> "EXIT_STRUCT" [] x = 5 -> "META_VERSION" [] x = 7 -> "META_NAME"
    [] x = 16 -> "IO_U8" [] x = 17 -> "IO_U16" [] x = 18 -> "IO_U32" [] x = 19 -> "IO_U64"
    [] x = 20 -> "IO_I8" [] x = 21 -> "IO_I16" [] x = 22 -> "IO_I32" [] x = 23 -> "IO_I64"
    [] x = 24 -> "IO_F32" [] x = 25 -> "IO_F64" [] x = 26 -> "IO_BOOL"
    [] x = 32 -> "IO_BIT_U" [] x = 33 -> "IO_BIT_I" [] x = 34 -> "IO_BIT_BOOL"
    [] x = 35 -> "ALIGN_PAD" [] x = 36 -> "ALIGN_FILL" [] x = 37 -> "ENTER_BIT_MODE" [] x = 38 -> "EXIT_BIT_MODE"
    [] x = 48 -> "STR_NULL" [] x = 49 -> "STR_PRE_U8" [] x = 50 -> "STR_PRE_U16" [] x = 51 -> "STR_PRE_U32"
    [] x = 52 -> "ARR_FIXED" [] x = 53 -> "ARR_PRE_U8" [] x = 54 -> "ARR_PRE_U16" [] x = 55 -> "ARR_PRE_U32"
    [] x = 56 -> "ARR_END" [] x = 57 -> "RAW_BYTES" [] x = 58 -> "ARR_EOF" [] x = 59 -> "ARR_DYNAMIC"
    [] x = 64 -> "CONST_CHECK" [] x = 65 -> "CONST_WRITE" [] x = 66 -> "RANGE_CHECK" [] x = 67 -> "SCALE_LIN"
    [] x = 68 -> "CRC_16" [] x = 69 -> "TRANS_ADD" [] x = 70 -> "TRANS_SUB" [] x = 71 -> "TRANS_MUL"
    [] x = 72 -> "TRANS_DIV" [] x = 73 -> "CRC_32" [] x = 74 -> "MARK_OPTIONAL" [] x = 75 -> "ENUM_CHECK"
    [] x = 76 -> "TRANS_POLY" [] x = 77 -> "TRANS_SPLINE"
    [] x = 80 -> "JUMP_IF_NOT" [] x = 81 -> "SWITCH" [] x = 82 -> "JUMP" [] x = 83 -> "SWITCH_TABLE"
    [] x = 96 -> "LOAD_CTX" [] x = 97 -> "PUSH_IMM" [] x = 98 -> "POP" [] x = 99 -> "SWAP" [] x = 100 -> "DUP"
    [] x = 101 -> "EMIT" [] x = 105 -> "EQ" [] x = 106 -> "NEQ" [] x = 107 -> "GT" [] x = 108 -> "LT"
    [] x = 109 -> "GTE" [] x = 110 -> "LTE" [] x = 111 -> "LOG_AND" [] x = 112 -> "LOG_OR" [] x = 113 -> "LOG_NOT"
    [] x = 114 -> "ADD" [] x = 115 -> "SUB" [] x = 116 -> "MUL" [] x = 117 -> "DIV" [] x = 118 -> "MOD"
    [] x = 119 -> "NEG" [] x = 120 -> "STORE_CTX"
    [] x = 128 -> "FADD" [] x = 129 -> "FSUB" [] x = 130 -> "FMUL" [] x = 131 -> "FDIV" [] x = 132 -> "FNEG"
    [] x = 133 -> "SIN" [] x = 134 -> "COS" [] x = 135 -> "TAN" [] x = 136 -> "SQRT" [] x = 137 -> "POW"
    [] x = 138 -> "LOG" [] x = 139 -> "ABS" [] x = 144 -> "ITOF" [] x = 145 -> "FTOI"
    [] x = 146 -> "EQ_F" [] x = 147 -> "NEQ_F" [] x = 148 -> "GT_F" [] x = 149 -> "LT_F" [] x = 150 -> "GTE_F"
    [] x = 151 -> "LTE_F" [] x = 160 -> "BIT_AND" [] x = 161 -> "BIT_OR" [] x = 162 -> "BIT_XOR"
    [] x = 163 -> "BIT_NOT" [] x = 164 -> "SHL" [] x = 165 -> "SHR" [] OTHER -> ""]

Unsigned(w) == [t |-> "n", neg |-> 0, w |-> ZExt(w), s |-> ""]
Signed(w) == LET x == SExt(w) IN [t |-> "n", neg |-> IF IsNeg(x) THEN 1 ELSE 0, w |-> SAbs(x), s |-> ""]
Double8(w) == [t |-> "f", neg |-> 0, w |-> w, s |-> ""]
TypeVal(x) == [t |-> "s", neg |-> 0, w |-> U0, s |-> OpName[x]]
\* a value of type code x
Typed(x, w) == IF x \in 16..19 THEN Unsigned(w) ELSE IF x \in 20..23 THEN Signed(w)
               ELSE IF x = 24 THEN Double8(F64of32(w)) ELSE IF x = 25 THEN Double8(w) ELSE Unsigned(w)
O(l, v) == [l |-> l, v |-> v]

Operands(p, i) ==
  LET op == At(p, i)
      R(o, n) == Rd(p, i + o, n)
      N(l, o, n) == O(l, <<Unsigned(R(o, n))>>)
      key == N("KeyID", 1, 2)
      List(o, n, x, sz) == [j \in 1..n |-> Typed(x, R(o + sz * (j - 1), sz))] IN
  CASE op \in {7, 3} \union (16..26) \union {34, 49, 50, 51, 53, 54, 55, 58, 96, 120} -> <<key>>
    [] op = 5 -> <<N("Ver", 1, 1)>>
    [] op \in {32, 33} -> <<key, N("Bits", 3, 1)>>
    [] op \in {35, 36} -> <<N("Align", 1, 1)>>
    [] op = 48 -> <<key, N("MaxLen", 3, 2)>>
    [] op \in {52, 57} -> <<key, N("Count", 3, 4)>>
    [] op = 59 -> <<key, N("RefKeyID", 3, 2)>>
    [] op = 64 -> LET x == At(p, i + 3) IN <<key, O("Type", <<TypeVal(x)>>), O("Val", <<Typed(x, R(4, SizeOfCode(x)))>>)>>
    [] op = 65 -> LET x == At(p, i + 1) IN <<O("Type", <<TypeVal(x)>>), O("Val", <<Typed(x, R(2, SizeOfCode(x)))>>)>>
    [] op = 66 -> LET x == At(p, i + 1) IN <<O("Type", <<TypeVal(x)>>), O("Range", List(2, 2, x, SizeOfCode(x)))>>
    [] op = 67 -> <<O("Factor", <<Double8(R(1, 8))>>), O("Offset", <<Double8(R(9, 8))>>)>>
    [] op = 68 -> <<N("Poly", 1, 2), N("Init", 3, 2), N("Xor", 5, 2), N("Flags", 7, 1)>>
    [] op = 73 -> <<N("Poly", 1, 4), N("Init", 5, 4), N("Xor", 9, 4), N("Flags", 13, 1)>>
    [] op \in 69..72 -> <<O("Val", <<Signed(R(1, 8))>>)>>
    [] op = 75 -> LET x == At(p, i + 1)  n == Key(R(2, 2)) IN
                  <<O("Type", <<TypeVal(x)>>), N("Count", 2, 2), O("Values", List(4, n, x, SizeOfCode(x)))>>
    [] op = 76 -> <<N("Count", 1, 1), O("Coeffs", List(2, At(p, i + 1), 25, 8))>>
    [] op = 77 -> <<N("Count", 1, 1), O("Points", List(2, 2 * At(p, i + 1), 25, 8))>>
    [] op \in {80, 82} -> <<O("Offset", <<Signed(R(1, 4))>>)>>
    [] op \in {81, 83} -> <<key, N("TableOff", 3, 4)>>
    [] op = 97 -> <<N("Val", 1, 8)>>
    [] op = 101 -> <<O("Type", <<TypeVal(At(p, i + 1))>>)>>
    [] OTHER -> <<>>

Line(p, i) == [at |-> i, name |-> OpName[At(p, i)], ops |-> Operands(p, i)]

\* doubles are printed with six digits behind the point
Near(a, b) == a = b \/ (FIsNaN(a) /\ FIsNaN(b)) \/ FClose(a, b) \/ FLe(FAbs(FSub(a, b)), FOfRatio(6, 10000000))
\* constants of signed types may be printed as the unsigned number with the same bits
BitsOf(v, n) == Low(IF v.neg = 1 THEN UNeg(v.w) ELSE v.w, n)
FitsIn(v, n) == \A j \in (n + 1)..8 : v.w[j] = 0
SameValue(want, got, width) ==
  IF want.t = "f" THEN (got.t = "f" /\ Near(want.w, got.w))
  ELSE IF want.t = "n" /\ width > 0 THEN got.t = "n" /\ FitsIn(got, width) /\ BitsOf(want, width) = BitsOf(got, width)
  ELSE want = got
SameOperand(want, got, width) ==
  want.l = got.l /\ Len(want.v) = Len(got.v) /\ \A j \in 1..Len(want.v) : SameValue(want.v[j], got.v[j], IF want.l = "Val" THEN width ELSE 0)
SameLine(p, i, got) ==
  LET want == Line(p, i)
      width == IF At(p, i) = 64 THEN SizeOfCode(At(p, i + 3)) ELSE 0 IN
  /\ want.at = got.at /\ want.name = got.name /\ Len(want.ops) = Len(got.ops)
  /\ \A j \in 1..Len(want.ops) : SameOperand(want.ops[j], got.ops[j], width)
=============================================================================
