---------------------------- MODULE ConcordiaLang ----------------------------
(* The protocol a schema describes, executed item by item: Step(m) does the  *)
(* next item of the schema on the machine state m (see Core), whose further  *)
(* components are                                                            *)
(*   fr   the blocks, structs and arrays being worked on, innermost last     *)
(*   st   values of the operands of the expression being evaluated           *)
(*   n    steps done                                                         *)
(* Nothing here knows about bytecode.                                        *)
EXTENDS Core

CONSTANT
  Protocol(_)     \* Protocol(m): the elaborated schema of run m (see Schema!Elaborate)

MaxLoops == 8     \* limits of the implementation: arrays within arrays,
MaxStack == 8     \* and operands of an expression waiting for their operation

---------------------------------------------------------------------------
(* Expressions: the value of e is appended to m.st. px: the struct in which  *)
(* e is evaluated, as a prefix of the names in it.                           *)

RECURSIVE Kind(_)
Kind(e) ==     \* "int", "float" or "any" (a field's value, used as it is)
  CASE e.o = "int" -> "int"
    [] e.o = "flt" -> "float"
    [] e.o = "id" -> "any"
    [] e.o = "un" -> IF e.op = "-" /\ Kind(e.a) = "float" THEN "float" ELSE "int"
    [] e.o = "bin" -> IF e.op \in {"+", "-", "*", "/"} /\ (Kind(e.a) = "float" \/ Kind(e.b) = "float") THEN "float" ELSE "int"
    [] e.o = "fn" -> IF e.fn = "int" THEN "int" ELSE "float"

IntNames == ("+" :> "add") @@ ("-" :> "sub") @@ ("*" :> "mul") @@ ("/" :> "div") @@ ("%" :> "mod")
   @@ ("==" :> "eq") @@ ("!=" :> "ne") @@ (">" :> "gt") @@ ("<" :> "lt") @@ (">=" :> "ge") @@ ("<=" :> "le")
   @@ ("&&" :> "land") @@ ("||" :> "lor") @@ ("&" :> "and") @@ ("|" :> "or") @@ ("^" :> "xor") @@ ("<<" :> "shl") @@ (">>" :> "shr")
FltNames == ("+" :> "fadd") @@ ("-" :> "fsub") @@ ("*" :> "fmul") @@ ("/" :> "fdiv")
   @@ ("==" :> "feq") @@ ("!=" :> "fne") @@ (">" :> "fgt") @@ ("<" :> "flt") @@ (">=" :> "fge") @@ ("<=" :> "fle")

Depth(m) == Len(m.st)
Top(m) == m.st[Depth(m)]
Second(m) == m.st[Depth(m) - 1]
Drop(m, n) == [m EXCEPT !.st = SubSeq(@, 1, Depth(m) - n)]
Push(m, v) == IF Depth(m) >= MaxStack THEN Fail(m, OVERFLOW) ELSE [m EXCEPT !.st = Append(@, v)]
Result(m, n, r) == IF r = ArithErr THEN Fail(m, ARITH) ELSE IF r = Unknown THEN Fail(m, ANY)
                   ELSE [m EXCEPT !.st = Append(SubSeq(@, 1, Depth(m) - n), r)]
\* convert the operand at distance d from the top to a float
ToFloat(m, d) == LET i == Depth(m) - d  r == Un1("itof", m.st[i]) IN
  IF r = Unknown THEN Fail(m, ANY) ELSE [m EXCEPT !.st[i] = r]

RECURSIVE Eval(_, _, _)
Eval(m, e, px) ==
  CASE ~Running(m) -> m
    [] e.o \in {"int", "flt"} -> Push(m, e.v)
    [] e.o = "id" -> WithEv(m, "load", px \o e.k, <<>>, LAMBDA m1, v : Push(m1, v))
    [] e.o = "un" ->
         LET m1 == Eval(m, e.a, px) IN
         IF ~Running(m1) THEN m1
         ELSE Result(m1, 1, Un1(CASE e.op = "!" -> "lnot" [] e.op = "~" -> "not"
                                  [] e.op = "-" /\ Kind(e.a) = "float" -> "fneg" [] OTHER -> "neg", Top(m1)))
    [] e.o = "bin" ->
         LET m1 == Eval(Eval(m, e.a, px), e.b, px)
             flt == Kind(e.a) = "float" \/ Kind(e.b) = "float"
             \* an integer operand next to a float becomes a float
             m2 == IF ~Running(m1) \/ ~flt THEN m1
                   ELSE IF Kind(e.a) = "int" THEN ToFloat(m1, 1)
                   ELSE IF Kind(e.b) = "int" THEN ToFloat(m1, 0) ELSE m1
         IN IF ~Running(m2) THEN m2
            ELSE Result(m2, 2, Bin2(IF flt /\ e.op \in DOMAIN FltNames THEN FltNames[e.op] ELSE IntNames[e.op], Second(m2), Top(m2)))
    [] e.o = "fn" /\ e.fn = "pow" ->
         LET a == Eval(m, e.a, px)
             a1 == IF Running(a) /\ Kind(e.a) = "int" THEN ToFloat(a, 0) ELSE a
             b == Eval(a1, e.b, px)
             b1 == IF Running(b) /\ Kind(e.b) = "int" THEN ToFloat(b, 0) ELSE b
         IN IF ~Running(b1) THEN b1 ELSE Result(b1, 2, Bin2("pow", Second(b1), Top(b1)))
    [] e.o = "fn" ->
         LET m1 == Eval(m, e.a, px)
             m2 == IF Running(m1) /\ Kind(e.a) = "int" /\ e.fn \notin {"int", "float"} THEN ToFloat(m1, 0) ELSE m1
         IN IF ~Running(m2) THEN m2
            ELSE Result(m2, 1, Un1(CASE e.fn = "float" -> "itof" [] e.fn = "int" -> "ftoi" [] OTHER -> e.fn, Top(m2)))

---------------------------------------------------------------------------
(* Blocks under work. A frame: kind k ("blk", "str", "arr"), block b and the *)
(* number i of its next item, name prefix px, byte order en, un: a struct of *)
(* unaligned bytes; for arrays the field x, what remains (rem; eof: up to the*)
(* end of the message), where the element started (it), and ph: 0 if an      *)
(* element comes next, 1 if it has just been transferred.                    *)

Frame == [k |-> "blk", b |-> 0, i |-> 1, px |-> "", en |-> 0, un |-> 0, x |-> [t |-> ""], rem |-> 0, eof |-> FALSE, it |-> 0, ph |-> 0]
PushFrame(m, f) == [m EXCEPT !.fr = Append(@, f)]
PopFrame(m) == [m EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1)]
TopFrame(m) == m.fr[Len(m.fr)]
Enter(m, b) == LET f == TopFrame(m) IN PushFrame(m, [Frame EXCEPT !.b = b, !.px = f.px, !.en = f.en])
Loops(m) == Len(SelectSeq(m.fr, LAMBDA f : f.k = "arr"))

Checks(m, x) ==    \* what has to hold of a number just transferred
  LET m1 == IF Running(m) /\ "vals" \in DOMAIN x /\ x.vals # <<>> THEN EnumCheck(m, x.ty, x.vals[1]) ELSE m
  IN IF Running(m1) /\ x.rng # <<>> THEN RangeCheck(m1, x.ty, x.rng[1], x.rng[2]) ELSE m1

\* v is what the expression of a field of type ty has given: the word to be stored
Convert(m, e, ty) ==
  IF ~Running(m) THEN m
  ELSE IF Kind(e) = "int" /\ IsFloat(ty) THEN Result(m, 1, Un1("itof", Top(m)))
  ELSE IF Kind(e) = "float" /\ ~IsFloat(ty) THEN Result(m, 1, Un1("ftoi", Top(m)))
  ELSE m

Computed(m, x, px) ==
  LET m1 == Convert(Eval(m, x.e, px), x.e, x.ty) IN
  IF ~Running(m1) THEN m1
  ELSE LET v == Top(m1)  m2 == Drop(m1, 1) IN
       WithEv(m2, "store", px \o x.k, IF Exact(v) THEN v ELSE <<>>, LAMBDA m3, y :
         IF ~Exact(v) /\ ~FClose(W(v), y)
         THEN Bad(m3, "value " \o ToString(y) \o " computed for " \o x.k \o " instead of about " \o ToString(W(v)))
         ELSE LET m4 == Emit([Align(m3) EXCEPT !.opt = FALSE], x.ty, IF Exact(v) THEN v ELSE y) IN Checks(m4, x))

Struct(m, x, f) ==
  WithEv([m EXCEPT !.opt = FALSE], "enter", f.px \o x.k, <<>>, LAMBDA m1, v :
    PushFrame(m1, [Frame EXCEPT !.k = "str", !.b = x.b, !.px = f.px \o x.k \o ".", !.un = x.un,
                                !.en = IF x.un = 1 THEN 1 ELSE m.en]))

\* transfer field x, or one element of it, within frame f
Transfer(m0, x, f) ==
  LET m == [m0 EXCEPT !.en = IF x.ord >= 0 THEN x.ord ELSE f.en, !.opt = x.opt /\ x.arr.k = "no", !.tr = NoTr, !.miss = FALSE]
      key == f.px \o x.k IN
  CASE x.t = "num" -> Checks(Prim([m EXCEPT !.tr = x.tr], x.ty, key), x)
    [] x.t = "bits" -> BitField(m, x.bt, key, x.w)
    [] x.t = "str" -> IF x.n = 0 THEN StrNul(m, x.max, key) ELSE StrPre(m, x.n, key)
    [] x.t = "const" -> Checks(ConstField(m, x.ty, key, x.v), x)
    [] x.t = "crc" -> CrcField(m, x.poly, x.init, x.xor, x.refin, x.refout)
    [] x.t = "expr" -> Computed(m, x, f.px)
    [] x.t = "struct" -> Struct(m, x, f)

---------------------------------------------------------------------------
(* Arrays *)

PushArr(m, x, f, rem, eof) ==
  PushFrame(m, [Frame EXCEPT !.k = "arr", !.x = x, !.px = f.px, !.en = f.en, !.rem = rem, !.eof = eof, !.it = m.cur])
EnterLoop(m, x, f, count) == IF Loops(m) >= MaxLoops THEN Fail(m, OOB) ELSE PushArr(m, x, f, count, FALSE)
\* plain bytes may be handed over in one block
PlainBytes(x) == x.t = "num" /\ x.ty \in {"u8", "i8"} /\ x.tr.k = "none" /\ x.vals = <<>> /\ x.rng = <<>>
StartArray(m, x, f, count) ==
  IF count = 0 THEN m
  ELSE IF PlainBytes(x) /\ Room(m, count)
  THEN WithPtr(m, "raw", f.px \o x.k, m.cur, <<>>,
         LAMBDA m1, v : LET m2 == [m1 EXCEPT !.cur = @ + count] IN
                        IF m.md = 0 THEN [m2 EXCEPT !.buf = PutRaw(@, m.cur, v)] ELSE m2,
         LAMBDA m1 : EnterLoop(m1, x, f, count))
  ELSE EnterLoop(m, x, f, count)

ArrName(n) == CASE n = 1 -> "arr1" [] n = 2 -> "arr2" [] n = 4 -> "arr4"
Array(m0, x, f) ==
  LET m == [Align(m0) EXCEPT !.en = IF x.ord >= 0 THEN x.ord ELSE f.en, !.opt = FALSE]
      key == f.px \o x.k  a == x.arr IN
  CASE a.k = "fix" -> WithPtr(m, "arrf", key, ToNat(a.n), <<>>, LAMBDA m1, v : StartArray(m1, x, f, ToNat(v)), Refused)
    [] a.k = "pre" ->
         IF m.md = 0
         THEN WithEv(m, ArrName(a.n), key, <<>>, LAMBDA m1, v :
                IF ~Room(m1, a.n) THEN Fail(m1, OOB) ELSE StartArray(Put(m1, v), x, f, ToNat(v)))
         ELSE IF ~Room(m, a.n) THEN Fail(m, OOB)
         ELSE LET v == Get(m, a.n) IN
              WithEv([m EXCEPT !.cur = @ + a.n], ArrName(a.n), key, v, LAMBDA m1, y : StartArray(m1, x, f, ToNat(v)))
    [] a.k = "dyn" ->
         WithEv(m, "query", f.px \o a.ref, <<>>, LAMBDA m1, q :
           IF q[5] + q[6] + q[7] + q[8] > 0 THEN Fail(m1, ARITH)
           ELSE WithPtr(m1, "arrd", key, ToNat(q), <<>>, LAMBDA m2, v : StartArray(m2, x, f, ToNat(v)), Refused))
    [] a.k = "eof" -> IF m.cur >= Len(m.buf) THEN m
                      ELSE IF Loops(m) >= MaxLoops THEN Fail(m, OVERFLOW)
                      ELSE PushArr(m, x, f, 0, TRUE)

\* an element has been transferred
Element(m0, f) ==
  LET m == Align(m0)  d == Len(m.fr)
      finish == WithEv(m, "arre", "", <<>>, LAMBDA m1, v : PopFrame(m1)) IN
  IF f.eof
  THEN IF m.cur >= Len(m.buf) THEN finish
       ELSE IF m.cur = f.it THEN Fail(m, VALIDATION)       \* would never end
       ELSE [m EXCEPT !.fr[d].ph = 0, !.fr[d].it = m.cur]
  ELSE IF f.rem > 1 THEN [m EXCEPT !.fr[d].rem = @ - 1, !.fr[d].ph = 0]
  ELSE finish

---------------------------------------------------------------------------
(* Conditionals *)

RECURSIVE Arms(_, _, _)
Arms(m, x, i) ==
  IF i > Len(x.arms) THEN IF x.els = 0 THEN m ELSE Enter(m, x.els)
  ELSE LET m1 == Eval(m, x.arms[i].c, TopFrame(m).px) IN
       IF ~Running(m1) THEN m1
       ELSE IF ~Exact(Top(m1)) THEN Fail(m1, ANY)
       ELSE IF Top(m1) # U0 THEN Enter(Drop(m1, 1), x.arms[i].b) ELSE Arms(Drop(m1, 1), x, i + 1)

Choice(m, x) ==
  WithEv(m, "query", TopFrame(m).px \o x.k, <<>>, LAMBDA m1, q :
    LET hit == {i \in 1..Len(x.cases) : x.cases[i].v = q} IN
    IF hit # {} THEN Enter(m1, x.cases[CHOOSE i \in hit : TRUE].b)
    ELSE IF x.def # 0 THEN Enter(m1, x.def) ELSE m1)

---------------------------------------------------------------------------

Item(m, x, f) ==
  CASE x.t = "pad" -> Pad([m EXCEPT !.en = f.en], x.n)
    [] x.t = "fill" -> Fill([m EXCEPT !.en = f.en], x.one)
    [] x.t = "if" -> Arms(m, x, 1)
    [] x.t = "switch" -> Choice(m, x)
    [] x.arr.k # "no" -> Array(m, x, f)
    [] OTHER -> Transfer(m, x, f)

\* the end of a struct: unaligned bytes have to fill whole bytes
Leave(m, f) ==
  IF f.un = 1 /\ m.bit > 0 THEN Fail(m, VALIDATION)
  ELSE IF f.k = "str" THEN WithEv(m, "exit", "", <<>>, LAMBDA m1, v : PopFrame(m1))
  ELSE PopFrame(m)

Step(m0) ==
  LET m == [m0 EXCEPT !.n = @ + 1] IN
  IF m.fr = <<>> THEN [m EXCEPT !.err = OK]
  ELSE LET d == Len(m.fr)  f == m.fr[d] IN
       IF f.k = "arr"
       THEN IF f.ph = 0 THEN Transfer([m EXCEPT !.fr[d].ph = 1], f.x, f) ELSE Element(m, f)
       ELSE LET b == Protocol(m).blocks[f.b] IN
            IF f.i > Len(b) THEN Leave(m, f)
            ELSE Item([m EXCEPT !.fr[d].i = @ + 1], b[f.i], f)

Machine(c, md, buf, p) ==
  [c |-> c, md |-> md, buf |-> buf, cur |-> 0, bit |-> 0, en |-> 0, tr |-> NoTr, opt |-> FALSE, miss |-> FALSE,
   err |-> -1, l |-> 0, bad |-> "", st |-> <<>>, n |-> 0,
   fr |-> <<[Frame EXCEPT !.b = p.root, !.un = p.un, !.en = IF p.un = 1 THEN 1 ELSE p.en]>>]
=============================================================================
