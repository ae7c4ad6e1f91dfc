------------------------------ MODULE ConcordiaVM ------------------------------
(* The bytecode machine: Step(m) executes one instruction of Prog(m) on the  *)
(* machine state m (see Core). In addition to Core's components a machine    *)
(* here has                                                                  *)
(*   ip   number of program bytes before the next instruction                *)
(*   st   expression stack, top last                                         *)
(*   lp   stack of open arrays;  n  instructions executed                    *)
EXTENDS Core

CONSTANT Prog(_)      \* Prog(m): the bytecode, a sequence of bytes

MaxLoops == 8
MaxStack == 8

TypeName == [x \in 16..26 |-> CASE x = 16 -> "u8" [] x = 17 -> "u16" [] x = 18 -> "u32" [] x = 19 -> "u64"
                                [] x = 20 -> "i8" [] x = 21 -> "i16" [] x = 22 -> "i32" [] x = 23 -> "i64"
                                [] x = 24 -> "f32" [] x = 25 -> "f64" [] x = 26 -> "bool"]
IntCodes == 16..23

AlignOps == (16..31) \union (48..63) \union {64, 65, 68, 73} \union (75..79) \union {101}
\* instructions that use up an optional mark without being able to be missing
UnmarkOps == {3, 4, 35, 36, 52, 53, 54, 55, 56, 57, 58, 59, 64, 65, 68, 73, 101}

---------------------------------------------------------------------------
(* Operands. One that is cut off by the end of the program reads as zero and *)
(* is not stepped over.                                                      *)
HasN(m, n) == m.ip + n <= Len(Prog(m))
Op(m, n) == IF HasN(m, n) THEN SubSeq(Prog(m), m.ip + 1, m.ip + n) ELSE Zeros(n)
Skip(m, n) == IF HasN(m, n) THEN [m EXCEPT !.ip = @ + n] ELSE m

\* F(m1, v) with v the n-byte operand and m1 behind it
With1(m, n, F(_, _)) == F(Skip(m, n), Op(m, n))
With2(m, n1, n2, F(_, _, _)) == With1(m, n1, LAMBDA m1, a : With1(m1, n2, LAMBDA m2, b : F(m2, a, b)))
Key(b) == b[1] + 256 * b[2]

---------------------------------------------------------------------------
(* Static layout of instructions: length of the one starting at index i      *)
(* (0-based), 0 if it is not an instruction.                                 *)
Ones == {0, 1, 2, 4, 37, 38, 56, 74, 98, 99, 100} \union (114..119) \union (128..139) \union (144..151)
        \union (160..165) \union (105..113)
Threes == {3, 7} \union (16..26) \union {34, 49, 50, 51, 53, 54, 55, 58, 96, 120}
At(p, i) == p[i + 1]
SizeOfCode(x) == IF x \in 16..26 THEN TypeSize[TypeName[x]] ELSE 0
InstrLen(p, i) ==
  LET op == At(p, i)  av == Len(p) - i IN
  CASE op \in Ones -> 1
    [] op \in Threes -> 3
    [] op \in {5, 35, 36} -> 2
    [] op = 101 -> IF av < 2 \/ SizeOfCode(At(p, i + 1)) # 0 THEN 2 ELSE 0
    [] op \in {32, 33} -> 4
    [] op \in {48, 59, 80, 82} -> 5
    [] op \in {52, 57, 81, 83} -> 7
    [] op = 68 -> 8
    [] op = 73 -> 14
    [] op = 67 -> 17
    [] op \in {97, 69, 70, 71, 72} -> 9
    [] op = 76 -> IF av < 2 THEN 2 ELSE 2 + 8 * At(p, i + 1)
    [] op = 77 -> IF av < 2 THEN 2 ELSE 2 + 16 * At(p, i + 1)
    [] op = 65 -> IF av < 2 THEN 2 ELSE IF At(p, i + 1) \in 16..19 THEN 2 + SizeOfCode(At(p, i + 1)) ELSE 0
    [] op = 64 -> IF av < 4 THEN 4 ELSE IF At(p, i + 3) \in IntCodes THEN 4 + SizeOfCode(At(p, i + 3)) ELSE 0
    [] op = 66 -> IF av < 2 THEN 2 ELSE IF At(p, i + 1) \in 16..25 THEN 2 + 2 * SizeOfCode(At(p, i + 1)) ELSE 0
    [] op = 75 -> IF av < 4 THEN 4
                  ELSE IF At(p, i + 1) \in IntCodes
                       THEN 4 + SizeOfCode(At(p, i + 1)) * (At(p, i + 2) + 256 * At(p, i + 3)) ELSE 0
    [] OTHER -> 0

\* <<start, end>> of the jump table of the complete switch instruction at i, <<>> if it is not in the program
Rd(p, i, n) == SubSeq(p, i + 1, i + n)
SwitchTable(p, i) ==
  LET rel == ToNat(Rd(p, i + 3, 4))
      t == i + 7 + rel
      av == Len(p) - t IN
  IF At(p, i) = 81
  THEN IF av < 6 THEN <<>>
       ELSE LET sz == 6 + 12 * ToNat(Rd(p, t, 2)) IN IF sz > av THEN <<>> ELSE <<t, t + sz>>
  ELSE IF av < 20 THEN <<>>
       ELSE LET lo == Rd(p, t, 8)  hi == Rd(p, t + 8, 8) IN
            IF ULt(hi, lo) \/ ToNat(USub(hi, lo)) >= (av - 20) \div 4 THEN <<>>
            ELSE <<t, t + 20 + 4 * (ToNat(USub(hi, lo)) + 1)>>

\* where the body of an array ends: behind the matching end-of-array instruction
ArrOps == {52, 53, 54, 55, 58, 59}
RECURSIVE SkipBody(_, _, _)
SkipBody(p, i, depth) ==
  IF depth = 0 \/ i >= Len(p) THEN i
  ELSE LET n == InstrLen(p, i)  op == At(p, i)
           d == IF op \in ArrOps THEN depth + 1 ELSE IF op = 56 THEN depth - 1 ELSE depth IN
       IF n = 0 \/ n > Len(p) - i THEN Len(p)
       ELSE IF op \in {81, 83}
            THEN LET t == SwitchTable(p, i) IN IF t = <<>> THEN Len(p) ELSE SkipBody(p, t[2], d)
            ELSE SkipBody(p, i + n, d)

---------------------------------------------------------------------------
(* Jumps *)

\* the instruction pointer base + off, for a signed 4-byte offset; <<>> outside of the program
Target(m, base, off) ==
  LET neg == off[4] >= 128
      mag == ToNat(IF neg THEN Low(UNeg(SExt(off)), 4) ELSE off)
      t == IF neg THEN base - mag ELSE base + mag
  IN IF t < 0 \/ t > Len(Prog(m)) THEN <<>> ELSE <<t>>
Goto(m, base, off) == LET t == Target(m, base, off) IN
  IF t = <<>> THEN Fail(m, OOB) ELSE [m EXCEPT !.ip = t[1]]

---------------------------------------------------------------------------
(* Arrays *)

EnterLoop(m, count, F(_)) ==   \* count > 0
  IF Len(m.lp) >= MaxLoops THEN Fail(m, OOB)
  ELSE [m EXCEPT !.lp = Append(@, [s |-> m.ip, rem |-> count, eof |-> FALSE, it |-> 0])]

\* bodies of a single byte may be handed over as one block
IsByteBody(m) == LET p == Prog(m) IN
  m.ip + 3 < Len(p) /\ At(p, m.ip) \in {16, 20} /\ At(p, m.ip + 3) = 56

StartArray(m, count) ==
  IF count = 0 THEN [m EXCEPT !.ip = SkipBody(Prog(m), m.ip, 1)]
  ELSE IF IsByteBody(m) /\ Room(m, count)
  THEN WithPtr(m, "raw", Key(Rd(Prog(m), m.ip + 1, 2)), m.cur, <<>>,
         LAMBDA m1, v :
           LET m2 == [m1 EXCEPT !.cur = @ + count, !.ip = @ + 4] IN
           IF m.md = 0 THEN [m2 EXCEPT !.buf = PutRaw(@, m.cur, v)] ELSE m2,
         LAMBDA m1 : EnterLoop(m1, count, LAMBDA x : x))
  ELSE EnterLoop(m, count, LAMBDA x : x)

ArrPre(m0, n, k, t) ==
  IF m0.md = 0
  THEN WithEv(m0, t, k, <<>>, LAMBDA m, v :
         IF ~Room(m, n) THEN Fail(m, OOB) ELSE StartArray(Put(m, v), ToNat(v)))
  ELSE IF ~Room(m0, n) THEN Fail(m0, OOB)
  ELSE LET v == Get(m0, n) IN
       WithEv([m0 EXCEPT !.cur = @ + n], t, k, v, LAMBDA m, x : StartArray(m, ToNat(v)))

\* the host is shown the count (as "position") and may change it
ArrFixed(m0, k, count) ==
  WithPtr(m0, "arrf", k, ToNat(count), <<>>, LAMBDA m, v : StartArray(m, ToNat(v)), Refused)

ArrDyn(m0, k, ref) ==
  WithEv(m0, "query", ref, <<>>, LAMBDA m1, q :
    IF q[5] + q[6] + q[7] + q[8] > 0 THEN Fail(m1, ARITH)
    ELSE WithPtr(m1, "arrd", k, ToNat(q), <<>>, LAMBDA m2, v : StartArray(m2, ToNat(v)), Refused))

ArrEof(m) ==
  IF m.cur >= Len(m.buf) THEN [m EXCEPT !.ip = SkipBody(Prog(m), m.ip, 1)]
  ELSE IF Len(m.lp) >= MaxLoops THEN Fail(m, OVERFLOW)
  ELSE [m EXCEPT !.lp = Append(@, [s |-> m.ip, rem |-> 0, eof |-> TRUE, it |-> m.cur])]

ArrEnd(m) ==
  IF m.lp = <<>> THEN Fail(m, INVALID)
  ELSE LET d == Len(m.lp)  f == m.lp[d]
           finish == WithEv(m, "arre", 0, <<>>, LAMBDA m1, v : [m1 EXCEPT !.lp = SubSeq(@, 1, d - 1)]) IN
       IF f.eof
       THEN IF m.cur >= Len(m.buf) THEN finish
            ELSE IF m.cur = f.it THEN Fail(m, VALIDATION)
            ELSE [m EXCEPT !.lp[d].it = m.cur, !.ip = f.s]
       ELSE IF f.rem > 1 THEN [m EXCEPT !.lp[d].rem = @ - 1, !.ip = f.s]
       ELSE finish

---------------------------------------------------------------------------
(* Switches *)

\* Reading the table like operands: cut-off parts read as zero and are not stepped over
RECURSIVE CaseScan(_, _, _, _, _)
CaseScan(p, i, n, disc, found) ==
  IF n = 0 \/ found # <<>> THEN found
  ELSE IF i + 4 > Len(p) THEN IF disc = U0 THEN Zeros(4) ELSE <<>>
  ELSE LET has8 == i + 8 <= Len(p)
           val == IF has8 THEN Rd(p, i, 8) ELSE U0
           i1 == IF has8 THEN i + 8 ELSE i
           has4 == i1 + 4 <= Len(p)
           off == IF has4 THEN Rd(p, i1, 4) ELSE Zeros(4)
           i2 == IF has4 THEN i1 + 4 ELSE i1
       IN CaseScan(p, i2, n - 1, disc, IF found = <<>> /\ disc = val THEN off ELSE found)

Switch(m, k, rel) ==
  LET p == Prog(m)  t == m.ip + ToNat(rel) IN
  IF t > Len(p) THEN Fail(m, OOB)
  ELSE LET m1 == [m EXCEPT !.ip = t] IN
       With2(m1, 2, 4, LAMBDA m2, cnt, dflt :
         WithEv([m2 EXCEPT !.ip = m.ip], "query", k, <<>>, LAMBDA m3, q :
           LET hit == CaseScan(p, m2.ip, ToNat(cnt), q, <<>>) IN
           Goto(m3, m.ip, IF hit = <<>> THEN dflt ELSE hit)))

SwitchTab(m, k, rel) ==
  LET p == Prog(m)  t == m.ip + ToNat(rel) IN
  IF t + 20 > Len(p) THEN Fail(m, OOB)
  ELSE LET lo == Rd(p, t, 8)  hi == Rd(p, t + 8, 8)  dflt == Rd(p, t + 16, 4) IN
       WithEv(m, "query", k, <<>>, LAMBDA m1, q :
         IF ULe(lo, q) /\ ULe(q, hi)
         THEN LET x == ToNat(USub(q, lo)) IN
              IF x >= Len(p) \/ t + 20 + 4 * x + 4 > Len(p) THEN Fail(m1, OOB)
              ELSE Goto(m1, m.ip, Rd(p, t + 20 + 4 * x, 4))
         ELSE Goto(m1, m.ip, dflt))

---------------------------------------------------------------------------
(* Expression stack *)
Depth(m) == Len(m.st)
Push(m, v) == IF Depth(m) >= MaxStack THEN Fail(m, OVERFLOW) ELSE [m EXCEPT !.st = Append(@, v)]
Top(m) == m.st[Depth(m)]
Second(m) == m.st[Depth(m) - 1]
Pop(m, n) == [m EXCEPT !.st = SubSeq(@, 1, Depth(m) - n)]
PushResult(m, r) == IF r = ArithErr THEN Fail(m, ARITH) ELSE IF r = Unknown THEN Fail(m, ANY) ELSE Push(m, r)

\* If there is only one of two operands it is gone when the underflow is noticed.
Bin(m, op) == IF Depth(m) < 2 THEN Fail(Pop(m, Depth(m)), UNDERFLOW)
              ELSE PushResult(Pop(m, 2), Bin2(op, Second(m), Top(m)))
Un(m, op) == IF Depth(m) < 1 THEN Fail(m, UNDERFLOW) ELSE PushResult(Pop(m, 1), Un1(op, Top(m)))

BinOps == [x \in {105,106,107,108,109,110,111,112,114,115,116,117,118,128,129,130,131,137,146,147,148,149,150,151,160,161,162,164,165} |->
  CASE x = 105 -> "eq" [] x = 106 -> "ne" [] x = 107 -> "gt" [] x = 108 -> "lt" [] x = 109 -> "ge" [] x = 110 -> "le"
    [] x = 111 -> "land" [] x = 112 -> "lor" [] x = 114 -> "add" [] x = 115 -> "sub" [] x = 116 -> "mul" [] x = 117 -> "div"
    [] x = 118 -> "mod" [] x = 128 -> "fadd" [] x = 129 -> "fsub" [] x = 130 -> "fmul" [] x = 131 -> "fdiv" [] x = 137 -> "pow"
    [] x = 146 -> "feq" [] x = 147 -> "fne" [] x = 148 -> "fgt" [] x = 149 -> "flt" [] x = 150 -> "fge" [] x = 151 -> "fle"
    [] x = 160 -> "and" [] x = 161 -> "or" [] x = 162 -> "xor" [] x = 164 -> "shl" [] x = 165 -> "shr"]
UnOps == [x \in {113,119,132,133,134,135,136,138,139,144,145,163} |->
  CASE x = 113 -> "lnot" [] x = 119 -> "neg" [] x = 132 -> "fneg" [] x = 133 -> "sin" [] x = 134 -> "cos" [] x = 135 -> "tan"
    [] x = 136 -> "sqrt" [] x = 138 -> "log" [] x = 139 -> "abs" [] x = 144 -> "itof" [] x = 145 -> "ftoi" [] x = 163 -> "not"]
Alu(m, op) == IF op \in DOMAIN BinOps THEN Bin(m, BinOps[op])
              ELSE IF op \in DOMAIN UnOps THEN Un(m, UnOps[op]) ELSE m

\* an approximate result is fixed by what the host was told it is
Store(m0, k) ==
  IF Depth(m0) = 0 THEN Fail(m0, UNDERFLOW)
  ELSE LET v == Top(m0)  m == Pop(m0, 1) IN
       WithEv(m, "store", k, IF Exact(v) THEN v ELSE <<>>, LAMBDA m1, x :
         IF Exact(v) THEN m1
         ELSE IF ~FClose(W(v), x) THEN Bad(m1, "value " \o ToString(x) \o " stored for " \o ToString(k) \o " instead of about " \o ToString(W(v)))
         ELSE [m1 EXCEPT !.st = [i \in 1..Len(@) |-> IF @[i] = v THEN x ELSE @[i]]])

---------------------------------------------------------------------------
(* Raw bytes: count bytes of the message handed over in one block *)
RawBytes(m, k, n) ==
  IF ~Room(m, n) THEN Fail(m, OOB)
  ELSE WithPtr(m, "raw", k, m.cur, <<>>, LAMBDA m1, v :
         LET m2 == [m1 EXCEPT !.cur = @ + n] IN
         IF m.md = 0 THEN [m2 EXCEPT !.buf = PutRaw(@, m.cur, v)] ELSE m2, Refused)

\* sequences of n-byte operands
Chop(s, n) == [i \in 1..(Len(s) \div n) |-> SubSeq(s, (i - 1) * n + 1, i * n)]
Pairs(s) == [i \in 1..(Len(s) \div 16) |-> <<SubSeq(s, 16*i - 15, 16*i - 8), SubSeq(s, 16*i - 7, 16*i)>>]

\* a transform with b[1] coefficients of n bytes each
Coeffs(m, n, kind, F(_)) ==
  With1(m, 1, LAMBDA m1, b :
    LET sz == n * b[1] IN
    IF ~HasN(m1, sz) THEN Fail(m1, OOB)
    ELSE [Skip(m1, sz) EXCEPT !.tr = [k |-> kind, c |-> F(Op(m1, sz))]])

IntTrans(m, op) == With1(m, 8, LAMBDA m1, v : [m1 EXCEPT !.tr = [k |-> "int", op |-> op, v |-> v]])

Exec(m, op) ==
  IF op < 16 THEN
    CASE op = 0 -> m
      [] op = 1 -> [m EXCEPT !.en = 0]
      [] op = 2 -> [m EXCEPT !.en = 1]
      [] op = 3 -> With1(m, 2, LAMBDA m1, k : WithEv(m1, "enter", Key(k), <<>>, LAMBDA m2, v : m2))
      [] op = 4 -> WithEv(m, "exit", 0, <<>>, LAMBDA m2, v : m2)
      [] op = 5 -> Skip(m, 1)
      [] op = 7 -> Skip(m, 2)
      [] OTHER -> m
  ELSE IF op < 32 THEN
    IF op \in 16..26 THEN With1(m, 2, LAMBDA m1, k : Prim(m1, TypeName[op], Key(k))) ELSE m
  ELSE IF op < 48 THEN
    CASE op = 32 -> With2(m, 2, 1, LAMBDA m1, k, w : BitField(m1, "bitu", Key(k), w[1]))
      [] op = 33 -> With2(m, 2, 1, LAMBDA m1, k, w : BitField(m1, "biti", Key(k), w[1]))
      [] op = 34 -> With1(m, 2, LAMBDA m1, k : BitField(m1, "bitb", Key(k), 1))
      [] op = 35 -> With1(m, 1, LAMBDA m1, w : Pad(m1, w[1]))
      [] op = 36 -> With1(m, 1, LAMBDA m1, w : Fill(m1, w[1] # 0))
      [] op = 38 -> IF m.bit > 0 THEN Fail(m, VALIDATION) ELSE m
      [] OTHER -> m
  ELSE IF op < 64 THEN
    CASE op = 48 -> With2(m, 2, 2, LAMBDA m1, k, mx : StrNul(m1, ToNat(mx), Key(k)))
      [] op = 49 -> With1(m, 2, LAMBDA m1, k : StrPre(m1, 1, Key(k)))
      [] op = 50 -> With1(m, 2, LAMBDA m1, k : StrPre(m1, 2, Key(k)))
      [] op = 51 -> With1(m, 2, LAMBDA m1, k : StrPre(m1, 4, Key(k)))
      [] op = 52 -> With2(m, 2, 4, LAMBDA m1, k, n : ArrFixed(m1, Key(k), n))
      [] op = 53 -> With1(m, 2, LAMBDA m1, k : ArrPre(m1, 1, Key(k), "arr1"))
      [] op = 54 -> With1(m, 2, LAMBDA m1, k : ArrPre(m1, 2, Key(k), "arr2"))
      [] op = 55 -> With1(m, 2, LAMBDA m1, k : ArrPre(m1, 4, Key(k), "arr4"))
      [] op = 56 -> ArrEnd(m)
      [] op = 57 -> With2(m, 2, 4, LAMBDA m1, k, n : RawBytes(m1, Key(k), ToNat(n)))
      [] op = 58 -> With1(m, 2, LAMBDA m1, k : ArrEof(m1))
      [] op = 59 -> With2(m, 2, 2, LAMBDA m1, k, r : ArrDyn(m1, Key(k), Key(r)))
      [] OTHER -> m
  ELSE IF op < 80 THEN
    CASE op = 64 -> With2(m, 2, 1, LAMBDA m1, k, t :
                      IF t[1] \notin IntCodes THEN Fail(m1, INVALID)
                      ELSE With1(m1, SizeOfCode(t[1]), LAMBDA m2, v : ConstField(m2, TypeName[t[1]], Key(k), v)))
      [] op = 65 -> With1(m, 1, LAMBDA m1, t :
                      IF t[1] \notin 16..19 THEN Fail(m1, INVALID)
                      ELSE With1(m1, SizeOfCode(t[1]), LAMBDA m2, v : ConstWrite(m2, v)))
      [] op = 66 -> With1(m, 1, LAMBDA m1, t :
                      IF t[1] \notin 16..25 THEN Fail(m1, INVALID)
                      ELSE With2(m1, SizeOfCode(t[1]), SizeOfCode(t[1]), LAMBDA m2, lo, hi :
                             RangeCheck(m2, TypeName[t[1]], lo, hi)))
      [] op = 67 -> With2(m, 8, 8, LAMBDA m1, f, o : [m1 EXCEPT !.tr = [k |-> "scale", f |-> f, o |-> o]])
      [] op = 68 -> With2(m, 2, 2, LAMBDA m1, p, i : With2(m1, 2, 1, LAMBDA m2, x, fl :
                      CrcField(m2, p, i, x, fl[1] % 2 = 1, (fl[1] \div 2) % 2 = 1)))
      [] op = 73 -> With2(m, 4, 4, LAMBDA m1, p, i : With2(m1, 4, 1, LAMBDA m2, x, fl :
                      CrcField(m2, p, i, x, fl[1] % 2 = 1, (fl[1] \div 2) % 2 = 1)))
      [] op = 69 -> IntTrans(m, "add")
      [] op = 70 -> IntTrans(m, "sub")
      [] op = 71 -> IntTrans(m, "mul")
      [] op = 72 -> IntTrans(m, "div")
      [] op = 74 -> [m EXCEPT !.opt = TRUE]
      [] op = 75 -> With2(m, 1, 2, LAMBDA m1, t, n :
                      IF t[1] \notin IntCodes THEN Fail(m1, INVALID)
                      ELSE LET sz == SizeOfCode(t[1]) * ToNat(n) IN
                           IF ~HasN(m1, sz) THEN Fail(m1, OOB)
                           ELSE EnumCheck(Skip(m1, sz), TypeName[t[1]], Chop(Op(m1, sz), SizeOfCode(t[1]))))
      [] op = 76 -> Coeffs(m, 8, "poly", LAMBDA s : Chop(s, 8))
      [] op = 77 -> Coeffs(m, 16, "spline", Pairs)
      [] OTHER -> m
  ELSE IF op < 96 THEN
    CASE op = 80 -> With1(m, 4, LAMBDA m1, off :
                      IF Depth(m1) = 0 THEN Fail(m1, UNDERFLOW)
                      ELSE IF ~Exact(Top(m1)) THEN Fail(m1, ANY)
                      ELSE IF Top(m1) = U0 THEN Goto(Pop(m1, 1), m1.ip, off) ELSE Pop(m1, 1))
      [] op = 81 -> With2(m, 2, 4, LAMBDA m1, k, r : Switch(m1, Key(k), r))
      [] op = 82 -> With1(m, 4, LAMBDA m1, off : Goto(m1, m1.ip, off))
      [] op = 83 -> With2(m, 2, 4, LAMBDA m1, k, r : SwitchTab(m1, Key(k), r))
      [] OTHER -> m
  ELSE
    CASE op = 96 -> With1(m, 2, LAMBDA m1, k : WithEv(m1, "load", Key(k), <<>>, LAMBDA m2, v : Push(m2, v)))
      [] op = 97 -> With1(m, 8, LAMBDA m1, v : Push(m1, v))
      [] op = 98 -> IF Depth(m) = 0 THEN Fail(m, UNDERFLOW) ELSE Pop(m, 1)
      [] op = 99 -> IF Depth(m) < 2 THEN Fail(m, UNDERFLOW)
                    ELSE [m EXCEPT !.st = SubSeq(@, 1, Depth(m) - 2) \o <<Top(m), Second(m)>>]
      [] op = 100 -> IF Depth(m) = 0 THEN Fail(m, UNDERFLOW) ELSE Push(m, Top(m))
      [] op = 101 -> With1(m, 1, LAMBDA m1, t :
                       IF Depth(m1) = 0 THEN Fail(m1, UNDERFLOW)
                       ELSE IF t[1] \notin 16..26 THEN Fail(Pop(m1, 1), INVALID)
                       ELSE IF ~Exact(Top(m1)) THEN Fail(m1, ANY)
                       ELSE Emit(Pop(m1, 1), TypeName[t[1]], Top(m1)))
      [] op = 120 -> With1(m, 2, LAMBDA m1, k : Store(m1, Key(k)))
      [] OTHER -> Alu(m, op)

Step(m) ==
  IF m.ip >= Len(Prog(m)) THEN [m EXCEPT !.err = OK]
  ELSE LET op == Prog(m)[m.ip + 1]
           m1 == [m EXCEPT !.ip = @ + 1, !.n = @ + 1, !.miss = IF op \in {66, 75} THEN @ ELSE FALSE]
           m2 == IF op \in AlignOps THEN Align(m1) ELSE m1
           m3 == IF op \in UnmarkOps THEN [m2 EXCEPT !.opt = FALSE] ELSE m2
       IN Exec(m3, op)

Machine(c, md, buf) ==
  [c |-> c, md |-> md, buf |-> buf, cur |-> 0, bit |-> 0, en |-> 0, tr |-> NoTr, opt |-> FALSE, miss |-> FALSE,
   err |-> -1, l |-> 0, bad |-> "", ip |-> 0, st |-> <<>>, lp |-> <<>>, n |-> 0]
=============================================================================
