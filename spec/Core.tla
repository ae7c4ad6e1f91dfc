-------------------------------- MODULE Core --------------------------------
(* The state of one run of the Concordia virtual machine, and the effect of  *)
(* transferring one item (number, bit field, string, check sum, ...) on it.  *)
(* Both the instruction-level machine (ConcordiaVM) and the schema-level     *)
(* interpreter (ConcordiaLang) are built from these effects.                 *)
(*                                                                           *)
(* A machine m is a record with at least                                     *)
(*   c    which run this is (selects its environment)                        *)
(*   md   0 = encode, 1 = decode                                             *)
(*   buf  the message buffer, a sequence of bytes                            *)
(*   cur  bytes consumed or produced; bit: bits of the byte at cur in use    *)
(*   en   byte order in force, 0 = little endian, 1 = big endian             *)
(*   tr   pending value transform                                            *)
(*   opt  a pending optional mark;  miss: the last value was missing         *)
(*   err  -1 while running, else the result code (or ANY)                    *)
(*   l    number of host notifications made so far                           *)
(*   bad  "" or why the observed run cannot be a run of the specification    *)
EXTENDS Words, Fast, TLC

CONSTANT
  Host(_, _, _, _, _), \* Host(m, t, k, v, o): the record of notification number m.l + 1,
                      \* of type t about key k, where v is the value offered to the
                      \* host (<<>> if the host is asked for one) and o the position
                      \* in the message (or the number of elements) told to it
  Note(_, _),         \* Note(m, e): m, having recorded the notification e as it likes
  FinalBuf(_)         \* FinalBuf(m): the buffer when this run has ended

OK == 0  OOB == 1  INVALID == 2  VALIDATION == 3  CALLBACK == 4
OVERFLOW == 5  UNDERFLOW == 6  CRCERR == 7  ARITH == 8
ANY == 9   \* not specified: how the run goes on from here is up to the implementation

NoTr == [k |-> "none"]
Running(m) == m.err = -1 /\ m.bad = ""
Fail(m, code) == [m EXCEPT !.err = code]
Bad(m, why) == [m EXCEPT !.bad = why]

TypeSize == [u8 |-> 1, i8 |-> 1, bool |-> 1, u16 |-> 2, i16 |-> 2, u32 |-> 4, i32 |-> 4, f32 |-> 4,
             u64 |-> 8, i64 |-> 8, f64 |-> 8]
IsFloat(ty) == ty = "f32" \/ ty = "f64"
IsSigned(ty) == ty = "i8" \/ ty = "i16" \/ ty = "i32" \/ ty = "i64"

SameFloat(a, b) == IF a = b THEN TRUE ELSE IF Len(a) = 8 THEN FIsNaN(a) /\ FIsNaN(b)
                                            ELSE FIsNaN(F64of32(a)) /\ FIsNaN(F64of32(b))

---------------------------------------------------------------------------
(* Notifying the host. F(m1, v) continues with the machine after it and the  *)
(* value the host has supplied (encode) or acknowledged (decode).            *)

Match(t, want, got) ==
  \/ want = <<>>
  \/ want = got
  \/ t \in {"f64", "f32"} /\ Len(got) = Len(want) /\ SameFloat(want, got)

WithEv(m, t, k, want, F(_, _)) ==
  LET e == Host(m, t, k, want, -1)
      m1 == Note([m EXCEPT !.l = @ + 1], e) IN
  IF e.t # t THEN Bad(m, "notification " \o ToString(m.l + 1) \o " is " \o e.t \o " instead of " \o t)
  ELSE IF e.k # k THEN Bad(m, "notification " \o ToString(m.l + 1) \o " (" \o t \o ") about " \o ToString(e.k) \o " instead of " \o ToString(k))
  ELSE IF ~Match(t, want, e.v) THEN Bad(m, "notification " \o ToString(m.l + 1) \o " (" \o t \o ") with value " \o ToString(e.v) \o " instead of " \o ToString(want))
  ELSE IF e.r = 1 THEN Fail(m1, CALLBACK)
  ELSE F(m1, e.v)

(* As WithEv, for notifications that pass a position in the message (-1 for  *)
(* a place outside the message), where a refusal is up to R(m1).             *)
WithPtr(m, t, k, off, want, F(_, _), R(_)) ==
  LET e == Host(m, t, k, want, off)
      m1 == Note([m EXCEPT !.l = @ + 1], e) IN
  IF e.t # t THEN Bad(m, "notification " \o ToString(m.l + 1) \o " is " \o e.t \o " instead of " \o t)
  ELSE IF e.k # k THEN Bad(m, "notification " \o ToString(m.l + 1) \o " (" \o t \o ") about " \o ToString(e.k) \o " instead of " \o ToString(k))
  ELSE IF e.o # off THEN Bad(m, "notification " \o ToString(m.l + 1) \o " (" \o t \o ") at position " \o ToString(e.o) \o " instead of " \o ToString(off))
  ELSE IF ~Match(t, want, e.v) THEN Bad(m, "notification " \o ToString(m.l + 1) \o " (" \o t \o ") with value " \o ToString(e.v) \o " instead of " \o ToString(want))
  ELSE IF e.r = 1 THEN R(m1)
  ELSE F(m1, e.v)

Refused(m) == Fail(m, CALLBACK)

---------------------------------------------------------------------------
(* The message buffer *)

Room(m, n) == m.cur + n <= Len(m.buf)
InOrder(m, v) == IF m.en = 1 THEN Reverse(v) ELSE v
Get(m, n) == InOrder(m, SubSeq(m.buf, m.cur + 1, m.cur + n))
GetBack(m, n) == InOrder(m, SubSeq(m.buf, m.cur - n + 1, m.cur))
PutRaw(b, at, v) == [i \in 1..Len(b) |-> IF i > at /\ i <= at + Len(v) THEN v[i - at] ELSE b[i]]
\* write v at the cursor in the byte order in force, and step over it
Put(m, v) == [m EXCEPT !.buf = PutRaw(@, m.cur, InOrder(m, v)), !.cur = @ + Len(v)]

Align(m) == IF m.bit = 0 THEN m ELSE [m EXCEPT !.cur = @ + 1, !.bit = 0]

---------------------------------------------------------------------------
(* Value transforms *)

RECURSIVE PolyRec(_, _, _, _)
PolyRec(c, x, i, y) == IF i = 0 THEN y ELSE PolyRec(c, x, i - 1, FAdd(FMul(y, x), c[i]))
Poly(c, x) == IF Len(c) = 0 THEN U0 ELSE PolyRec(c, x, Len(c) - 1, c[Len(c)])

\* the first segment whose right end is not left of x, else the last one
RECURSIVE SegRec(_, _, _)
SegRec(p, x, i) == IF i = Len(p) - 1 \/ FLe(x, p[i + 1][1]) THEN i ELSE SegRec(p, x, i + 1)
Spline(p, x) ==
  IF Len(p) < 2 THEN U0
  ELSE LET i == SegRec(p, x, 1)
           x0 == p[i][1]  y0 == p[i][2]  x1 == p[i+1][1]  y1 == p[i+1][2]
       IN IF FEq(x1, x0) THEN y0 ELSE FAdd(y0, FDiv(FMul(FSub(x, x0), FSub(y1, y0)), FSub(x1, x0)))

FloatFwd(tr, x) == CASE tr.k = "scale" -> FAdd(FMul(x, tr.f), tr.o)
                     [] tr.k = "poly" -> Poly(tr.c, x)
                     [] tr.k = "spline" -> Spline(tr.c, x)

IntFwd(tr, x) == CASE tr.op = "add" -> UAdd(x, tr.v)
                   [] tr.op = "sub" -> USub(x, tr.v)
                   [] tr.op = "mul" -> UMul(x, tr.v)
                   [] tr.op = "div" -> IF tr.v = U0 THEN x ELSE SDiv(x, tr.v)
IntInv(tr, y) == CASE tr.op = "add" -> USub(y, tr.v)
                   [] tr.op = "sub" -> UAdd(y, tr.v)
                   [] tr.op = "mul" -> IF tr.v = U0 THEN y ELSE SDiv(y, tr.v)
                   [] tr.op = "div" -> UMul(y, tr.v)

Widen(ty, raw) == IF IsSigned(ty) THEN SExt(raw) ELSE ZExt(raw)
RawToF(ty, raw) == CASE ty = "f64" -> raw
                     [] ty = "f32" -> F64of32(raw)
                     [] IsSigned(ty) -> I2F(SExt(raw))
                     [] OTHER -> U2F(ZExt(raw))

\* does the word w, read as a signed number, fit into the type?
Fits(ty, w) == LET n == TypeSize[ty] IN
  n = 8 \/ (IF IsSigned(ty) THEN SExt(Low(w, n)) = w ELSE ZExt(Low(w, n)) = w)

\* nearest integer, halves away from zero
NegZero == <<0,0,0,0,0,0,0,128>>
FHalf == FOfRatio(1, 2)
FOne == FOfRatio(1, 1)
FRound(x) == IF ~FLt(FAbs(x), FPow2(52)) THEN x
             ELSE LET t == FTrunc(x) IN
                  IF FLe(FHalf, FSub(x, t)) THEN FAdd(t, FOne)
                  ELSE IF FLe(FSub(x, t), FNeg(FHalf)) THEN FSub(t, FOne)
                  ELSE t
FFits(ty, x) == LET n == 8 * TypeSize[ty] IN
  IF IsSigned(ty) THEN FLt(x, FPow2(n - 1)) /\ FLe(FNeg(FPow2(n - 1)), x)
  ELSE FLt(x, FPow2(n)) /\ FLe(U0, x)
FToRaw(ty, x) == Low(IF FLt(x, U0) THEN F2I(x) ELSE F2U(x), TypeSize[ty])

\* the stored value a linear scaling inverts to; <<>> if the type has none
ScaleRaw(ty, tr, y) ==
  LET q == FDiv(FSub(y, tr.o), tr.f) IN
  IF ty = "f64" THEN q
  ELSE IF ty = "f32" THEN F32of64(q)
  ELSE LET x == FRound(q) IN IF FFits(ty, x) THEN FToRaw(ty, x) ELSE <<>>

\* neighbouring raw values, for judging an inverse (<<>> at the end of the range)
Up(ty, raw) == LET w == UAdd(Widen(ty, raw), U1) IN
  IF (TypeSize[ty] = 8 /\ w = (IF IsSigned(ty) THEN Flip(U0) ELSE U0)) \/ ~Fits(ty, w) THEN <<>> ELSE Low(w, TypeSize[ty])
Down(ty, raw) == LET w == USub(Widen(ty, raw), U1) IN
  IF (TypeSize[ty] = 8 /\ Widen(ty, raw) = (IF IsSigned(ty) THEN Flip(U0) ELSE U0)) \/ ~Fits(ty, w) THEN <<>> ELSE Low(w, TypeSize[ty])
Dist(ty, tr, raw, y) == FAbs(FSub(FloatFwd(tr, RawToF(ty, raw)), y))
\* raw is the number nearest to what y is the transform of, or no neighbour of
\* raw is transformed to a value nearer to y (up to rounding noise)
Noise(y) == FMul(FAdd(FAbs(y), FOne), FPow2(-40))
Nearest(ty, tr, raw, y) ==
  LET d == Dist(ty, tr, raw, y) IN
  IF IsFloat(ty)
  THEN FLe(d, FMul(FAdd(FAbs(y), FOne), FPow2(IF ty = "f32" THEN -18 ELSE -30)))
  ELSE LET up == Up(ty, raw)  dn == Down(ty, raw)
           at == FloatFwd(tr, RawToF(ty, raw))
           stepUp == IF up = <<>> THEN U0 ELSE Dist(ty, tr, up, at)
           stepDn == IF dn = <<>> THEN U0 ELSE Dist(ty, tr, dn, at)
           lo == FloatFwd(tr, FSub(RawToF(ty, raw), FHalf))  hi == FloatFwd(tr, FAdd(RawToF(ty, raw), FHalf))
           Between(a, b) == FLe(FSub(a, Noise(y)), y) /\ FLe(y, FAdd(b, Noise(y)))
       IN /\ \/ Between(lo, hi) \/ Between(hi, lo)      \* nearest to the number whose transform is y
             \/ /\ up # <<>> => FLe(d, FAdd(Dist(ty, tr, up, y), Noise(y)))
                /\ dn # <<>> => FLe(d, FAdd(Dist(ty, tr, dn, y), Noise(y)))
          /\ FLe(d, FAdd(IF FLt(stepUp, stepDn) THEN stepDn ELSE stepUp, Noise(y)))

(* Curves whose inverse is determined: increasing polynomials on unsigned    *)
(* integers and straight lines; splines through strictly monotone points.    *)
MaxRaw(ty) == LET n == TypeSize[ty] IN [i \in 1..n |-> IF IsSigned(ty) /\ i = n THEN 127 ELSE 255]
MinRaw(ty) == LET n == TypeSize[ty] IN [i \in 1..n |-> IF IsSigned(ty) /\ i = n THEN 128 ELSE 0]
\* within the range where rounding noise stays small
Moderate(x) == FEq(x, U0) \/ (FLe(FPow2(-30), FAbs(x)) /\ FLe(FAbs(x), FPow2(30)))
Monotone(ty, tr) ==
  IF tr.k = "poly"
  THEN LET c == tr.c  n == Len(c) IN
       /\ n >= 2 /\ \A i \in 1..n : Moderate(c[i])
       /\ IF n = 2 THEN ~FEq(c[2], U0)
          ELSE /\ ~IsSigned(ty) /\ ~IsFloat(ty) /\ n <= 5 /\ FLt(U0, c[2])
               /\ \A i \in 3..n : FLe(U0, c[i])
  ELSE LET p == tr.c  n == Len(p) IN
       /\ n >= 2 /\ \A i \in 1..n : Moderate(p[i][1]) /\ Moderate(p[i][2])
       /\ \A i \in 1..n-1 : FLt(p[i][1], p[i+1][1])
       /\ \/ \A i \in 1..n-1 : FLt(p[i][2], p[i+1][2])
          \/ \A i \in 1..n-1 : FLt(p[i+1][2], p[i][2])
Invertible(ty, tr, y) ==
  /\ ~FIsNaN(y) /\ Monotone(ty, tr)
  /\ IF IsFloat(ty) THEN FLe(FAbs(y), FPow2(40))
     ELSE LET a == FloatFwd(tr, RawToF(ty, MinRaw(ty)))  b == FloatFwd(tr, RawToF(ty, MaxRaw(ty))) IN
          (FLe(a, y) /\ FLe(y, b)) \/ (FLe(b, y) /\ FLe(y, a))

---------------------------------------------------------------------------
(* Numbers *)

Clear(m) == [m EXCEPT !.tr = NoTr, !.opt = FALSE]

PrimMissing(m, ty, k) ==
  LET m1 == IF ty = "bool" THEN [m EXCEPT !.opt = FALSE]
            ELSE [m EXCEPT !.opt = FALSE, !.tr = NoTr, !.miss = TRUE]
  IN WithEv(m1, ty, k, Zeros(TypeSize[ty]), LAMBDA m2, v : m2)

PrimPlain(m, ty, k) ==
  LET n == TypeSize[ty] IN
  IF m.md = 0
  THEN WithEv(m, ty, k, <<>>, LAMBDA m1, v : Clear(Put(m1, v)))
  ELSE WithEv(m, ty, k, Get(m, n), LAMBDA m1, v : Clear([m1 EXCEPT !.cur = @ + n]))

PrimBool(m, k) ==
  IF m.md = 0
  THEN WithEv(m, "bool", k, <<>>, LAMBDA m1, v :
         IF v[1] > 1 THEN Fail(m1, VALIDATION) ELSE [Put(m1, v) EXCEPT !.opt = FALSE])
  ELSE IF m.buf[m.cur + 1] > 1 THEN Fail(m, VALIDATION)
  ELSE WithEv(m, "bool", k, Get(m, 1), LAMBDA m1, v : [m1 EXCEPT !.cur = @ + 1, !.opt = FALSE])

PrimTrans(m, ty, k) ==
  LET n == TypeSize[ty]  tr == m.tr IN
  IF tr.k = "int"
  THEN IF m.md = 0
       THEN WithEv(m, "i64", k, <<>>, LAMBDA m1, v :
              LET w == IntInv(tr, v) IN
              IF ty = "f64" THEN Clear(Put(m1, I2F(w)))
              ELSE IF ty = "f32" THEN Clear(Put(m1, F32of64(I2F(w))))
              ELSE IF Fits(ty, w) THEN Clear(Put(m1, Low(w, n))) ELSE Fail(m1, VALIDATION))
       ELSE LET raw == Get(m, n)  x == RawToF(ty, raw) IN
            IF IsFloat(ty) /\ ~(FLe(FNeg(FPow2(63)), x) /\ FLt(x, FPow2(63))) THEN Fail(m, ARITH)
            ELSE WithEv(m, "i64", k, IntFwd(tr, IF IsFloat(ty) THEN F2I(x) ELSE Widen(ty, raw)),
                        LAMBDA m1, v : Clear([m1 EXCEPT !.cur = @ + n]))
  ELSE IF m.md = 0
       THEN WithEv(m, "f64", k, <<>>, LAMBDA m1, v :
              IF tr.k = "scale"
              THEN LET raw == ScaleRaw(ty, tr, v) IN
                   IF raw = <<>> THEN Fail(m1, VALIDATION) ELSE Clear(Put(m1, raw))
              ELSE \* any stored value whose transform is nearest to v
                   LET raw == InOrder(m1, SubSeq(FinalBuf(m1), m1.cur + 1, m1.cur + n)) IN
                   IF ~Invertible(ty, tr, v) THEN Fail(m1, ANY)
                   ELSE IF Nearest(ty, tr, raw, v) THEN Clear(Put(m1, raw))
                   ELSE Bad(m1, "stored value " \o ToString(raw) \o " is not the nearest to the inverse of " \o ToString(v)))
       ELSE WithEv(m, "f64", k, FloatFwd(tr, RawToF(ty, Get(m, n))),
                   LAMBDA m1, v : Clear([m1 EXCEPT !.cur = @ + n]))

Prim(m0, ty, k) ==
  LET m == Align(m0) IN
  IF ~Room(m, TypeSize[ty])
  THEN IF m.opt /\ m.md = 1 THEN PrimMissing(m, ty, k) ELSE Fail(m, OOB)
  ELSE IF ty = "bool" THEN PrimBool(m, k)
  ELSE IF m.tr.k = "none" THEN PrimPlain(m, ty, k)
  ELSE PrimTrans(m, ty, k)

---------------------------------------------------------------------------
(* Bit fields: w bits from the current bit position on. In little-endian     *)
(* order the least significant bit comes first and fills bytes from bit 0 up,*)
(* in big-endian order the most significant one first, from bit 7 down.      *)

BitsRoom(m, w) == 8 * m.cur + m.bit + w <= 8 * Len(m.buf)
StepBits(m, w) == [m EXCEPT !.cur = @ + ((m.bit + w) \div 8), !.bit = (@ + w) % 8]
StreamBit(m, p) == (m.buf[(p \div 8) + 1] \div Pow2[(IF m.en = 1 THEN 7 - (p % 8) ELSE p % 8) + 1]) % 2
GetBits(m, w) == LET p == 8 * m.cur + m.bit IN
  OfBits(LAMBDA i : IF i >= w THEN 0 ELSE StreamBit(m, p + (IF m.en = 1 THEN w - 1 - i ELSE i)))
\* byte b with the bits of v that fall into byte index j (0-based) replaced
MixByte(m, v, w, j, b) ==
  LET p == 8 * m.cur + m.bit
      NewBit(x) ==   \* x-th stream position within the byte
        LET q == 8 * j + x  old == (b \div Pow2[(IF m.en = 1 THEN 7 - x ELSE x) + 1]) % 2 IN
        IF q < p \/ q >= p + w THEN old
        ELSE Bit(v, IF m.en = 1 THEN w - 1 - (q - p) ELSE q - p)
      Wt(x) == NewBit(x) * Pow2[(IF m.en = 1 THEN 7 - x ELSE x) + 1]
  IN Wt(0) + Wt(1) + Wt(2) + Wt(3) + Wt(4) + Wt(5) + Wt(6) + Wt(7)
PutBits(m, v, w) ==
  LET last == (8 * m.cur + m.bit + w - 1) \div 8 IN
  StepBits([m EXCEPT !.buf = [i \in 1..Len(@) |->
              IF i > m.cur /\ i <= last + 1 THEN MixByte(m, v, w, i - 1, @[i]) ELSE @[i]]], w)

\* t: "bitu", "biti" or "bitb"
BitField(m0, t, k, w) ==
  LET m == [m0 EXCEPT !.opt = FALSE]
      zero == IF t = "bitb" THEN <<0>> ELSE U0 IN
  IF w = 0 \/ w > 64 THEN Fail(m, INVALID)
  ELSE IF ~BitsRoom(m, w)
  THEN IF m0.opt /\ m.md = 1 THEN WithEv(m, t, k, zero, LAMBDA m1, v : m1) ELSE Fail(m, OOB)
  ELSE IF m.md = 0
  THEN WithEv(m, t, k, <<>>, LAMBDA m1, v :
         IF t = "bitb" /\ v[1] > 1 THEN Fail(m1, VALIDATION)
         ELSE PutBits(m1, ZExt(v), w))
  ELSE LET raw == GetBits(m, w)
           val == CASE t = "bitu" -> raw [] t = "biti" -> SignBits(raw, w) [] OTHER -> <<raw[1]>>
       IN WithEv(StepBits(m, w), t, k, val, LAMBDA m1, v : m1)

Pad(m0, w) ==
  LET m == [m0 EXCEPT !.opt = FALSE] IN
  IF ~BitsRoom(m, w) THEN Fail(m, OOB)
  ELSE IF m.md = 1 \/ w = 0 THEN StepBits(m, w)
  ELSE LET p == 8 * m.cur + m.bit
           last == (p + w - 1) \div 8
           keepLo(j) == IF 8 * j >= p THEN 0 ELSE p - 8 * j           \* stream bits kept at the front
           keepHi(j) == IF 8 * j + 8 <= p + w THEN 8 ELSE p + w - 8 * j \* stream bits from here on kept
           Kept(j, b) == LET Wt(x) == IF x >= keepLo(j) /\ x < keepHi(j) THEN 0
                                     ELSE LET s == IF m.en = 1 THEN 7 - x ELSE x IN ((b \div Pow2[s + 1]) % 2) * Pow2[s + 1]
                         IN Wt(0) + Wt(1) + Wt(2) + Wt(3) + Wt(4) + Wt(5) + Wt(6) + Wt(7)
       IN StepBits([m EXCEPT !.buf = [i \in 1..Len(@) |->
             IF i > m.cur /\ i <= last + 1 THEN Kept(i - 1, @[i]) ELSE @[i]]], w)

Fill(m0, one) ==
  LET m == [m0 EXCEPT !.opt = FALSE] IN
  IF m.bit = 0 THEN m
  ELSE IF m.md = 1 THEN StepBits(m, 8 - m.bit)
  ELSE PutBits(m, IF one THEN UNotW(U0) ELSE U0, 8 - m.bit)

---------------------------------------------------------------------------
(* Strings *)

\* longest prefix of v that a length prefix of n bytes can express
PreCap(n, len) == CASE n = 1 /\ len > 255 -> 255 [] n = 2 /\ len > 65535 -> 65535 [] OTHER -> len
StrType(n) == CASE n = 1 -> "str1" [] n = 2 -> "str2" [] n = 4 -> "str4"

StrPre(m0, n, k) ==
  LET m == Align(m0)  t == StrType(n) IN
  IF m.md = 0
  THEN WithPtr(m, t, k, -1, <<>>,
         LAMBDA m1, v :
           LET len == PreCap(n, Len(v))  s == SubSeq(v, 1, len) IN
           IF ~Room(m1, n + len) THEN Fail(m1, OOB)
           ELSE LET m2 == Put(m1, Low(OfNat(len), n)) IN
                [m2 EXCEPT !.buf = PutRaw(@, m2.cur, s), !.cur = @ + len, !.opt = FALSE],
         LAMBDA m1 : IF m.opt THEN [m1 EXCEPT !.opt = FALSE] ELSE Refused(m1))
  ELSE IF ~Room(m, n)
  THEN IF m.opt THEN WithPtr([m EXCEPT !.opt = FALSE], t, k, -1, Zeros(n), LAMBDA m1, v : m1, Refused) ELSE Fail(m, OOB)
  ELSE LET len == ToNat(Get(m, n)) IN
       IF ~Room(m, n + len) THEN Fail(m, OOB)
       ELSE WithPtr(m, t, k, m.cur + n, <<>>, LAMBDA m1, v : [m1 EXCEPT !.cur = @ + n + len, !.opt = FALSE], Refused)

RECURSIVE FindZero(_, _, _)
FindZero(b, i, n) == IF n = 0 \/ i > Len(b) \/ b[i] = 0 THEN i ELSE FindZero(b, i + 1, n - 1)

StrNul(m0, max, k) ==
  LET m == Align(m0) IN
  IF m.md = 0
  THEN WithPtr(m, "str0", k, -1, <<>>,
         LAMBDA m1, v :
           LET len == IF Len(v) > max THEN max ELSE Len(v) IN
           IF ~Room(m1, len + 1) THEN Fail(m1, OOB)
           ELSE [m1 EXCEPT !.buf = PutRaw(@, m1.cur, SubSeq(v, 1, len) \o <<0>>), !.cur = @ + len + 1, !.opt = FALSE],
         LAMBDA m1 : IF m.opt THEN [m1 EXCEPT !.opt = FALSE] ELSE Refused(m1))
  ELSE IF m.cur >= Len(m.buf) /\ m.opt
  THEN WithPtr([m EXCEPT !.opt = FALSE], "str0", k, -1, <<0>>, LAMBDA m1, v : m1, Refused)
  ELSE LET at == FindZero(m.buf, m.cur + 1, max) - 1 IN   \* position of the terminator, or max behind the start
       IF at >= Len(m.buf) THEN Fail(m, OOB)
       ELSE IF m.buf[at + 1] # 0 THEN Fail(m, VALIDATION)       \* longer than the maximum
       ELSE WithPtr(m, "str0", k, m.cur, <<>>, LAMBDA m1, v : [m1 EXCEPT !.cur = at + 1, !.opt = FALSE], Refused)

---------------------------------------------------------------------------
(* Constants and checks *)

ConstField(m0, ty, k, v) ==
  LET m == [Align(m0) EXCEPT !.opt = FALSE]  n == TypeSize[ty] IN
  IF ~Room(m, n) THEN Fail(m, OOB)
  ELSE IF m.md = 0 THEN Put(m, v)
  ELSE IF Get(m, n) # v THEN Fail(m, VALIDATION)
  ELSE WithEv(m, ty, k, v, LAMBDA m1, x : [m1 EXCEPT !.cur = @ + n])

ConstWrite(m0, v) ==
  LET m == [Align(m0) EXCEPT !.opt = FALSE] IN
  IF ~Room(m, Len(v)) THEN Fail(m, OOB) ELSE Put(m, v)

\* the value just transferred is one of the listed ones
EnumCheck(m0, ty, vals) ==
  LET m == Align(m0) IN
  IF m.miss THEN m
  ELSE IF m.cur < TypeSize[ty] THEN Fail(m, OOB)
  ELSE LET v == GetBack(m, TypeSize[ty]) IN
       IF \E i \in 1..Len(vals) : vals[i] = v THEN m ELSE Fail(m, VALIDATION)

RangeOk(ty, lo, hi, v) ==
  CASE ty = "f64" -> ~FLt(v, lo) /\ ~FLt(hi, v)
    [] ty = "f32" -> ~FLt(F64of32(v), F64of32(lo)) /\ ~FLt(F64of32(hi), F64of32(v))
    [] IsSigned(ty) -> SLe(lo, v) /\ SLe(v, hi)
    [] OTHER -> ULe(lo, v) /\ ULe(v, hi)
RangeCheck(m, ty, lo, hi) ==
  IF m.miss THEN m
  ELSE IF m.cur < TypeSize[ty] THEN Fail(m, OOB)
  ELSE IF RangeOk(ty, lo, hi, GetBack(m, TypeSize[ty])) THEN m ELSE Fail(m, VALIDATION)

---------------------------------------------------------------------------
(* Check sums *)

CrcField(m0, poly, init, xor, refin, refout) ==
  LET m == [Align(m0) EXCEPT !.opt = FALSE]  n == Len(poly) IN
  IF ~Room(m, n) THEN Fail(m, OOB)
  ELSE LET crc == CrcFast(m.buf, m.cur, poly, init, xor, refin, refout) IN
       IF m.md = 0 THEN Put(m, crc)
       ELSE IF Get(m, n) = crc THEN [m EXCEPT !.cur = @ + n] ELSE Fail(m, CRCERR)

---------------------------------------------------------------------------
(* A computed field: v is the word computed (a double for float types).      *)

Near32 == F64of32(F32of64(FDiv(FOne, FOfRatio(100000, 1))))
Near64 == FDiv(FOne, FOfRatio(10000000, 1))
EmitSame(ty, v, stored) ==
  CASE ty = "f64" -> FEq(v, stored) \/ (FIsNaN(v) /\ FIsNaN(stored)) \/ FLe(FAbs(FSub(v, stored)), Near64)
    [] ty = "f32" -> LET a == F32of64(v) IN
         \/ FEq(F64of32(a), F64of32(stored)) \/ (FIsNaN(v) /\ FIsNaN(F64of32(stored)))
         \/ FLe(FAbs(F64of32(FSub32(a, stored))), Near32)
    [] OTHER -> Low(v, TypeSize[ty]) = stored
Emit(m, ty, v) ==    \* m is aligned already
  LET n == TypeSize[ty] IN
  IF ty = "bool" /\ v # U0 /\ v # U1 THEN Fail(m, VALIDATION)
  ELSE IF ~Room(m, n) THEN Fail(m, OOB)
  ELSE IF m.md = 0 THEN Put(m, IF ty = "f32" THEN F32of64(v) ELSE Low(v, n))
  ELSE IF EmitSame(ty, v, Get(m, n)) THEN [m EXCEPT !.cur = @ + n] ELSE Fail(m, VALIDATION)
=============================================================================
