------------------------------ MODULE JsonHost ------------------------------
(* A host that takes the values of the fields from a JSON document, or       *)
(* builds a document from them: what the command line tool is to a user. The *)
(* host keeps in the machine                                                 *)
(*   js   where it is in the document: the objects and arrays being worked   *)
(*        on, innermost last                                                 *)
(*   ty   the type each field was last met with                              *)
(*   end  <<>>, or where the message has to end as the elements of an array  *)
(*        up to the end of the message are used up                           *)
(*                                                                           *)
(* A value of a document is a record with the field t:                       *)
(*   "num"   i = 1 for an integer, n = 1 if negative, m its magnitude (big =1*)
(*           if that does not fit a word), f the number as a double          *)
(*           -- or, in a document being built, its type ty and value w       *)
(*   "str"   b: its bytes, h: <<>> or the bytes it stands for as a hex string*)
(*   "bool"  v;   "arr" v;   "obj" names k and values v;   "none"  absent    *)
EXTENDS ConcordiaLang

S == INSTANCE Schema

None == [t |-> "none"]
JFrame == [k |-> "obj", nm |-> "", node |-> None, px |-> "", i |-> 1, lev |-> 0]
Cur(js) == js[Len(js)]
Up1(js) == SubSeq(js, 1, Len(js) - 1)

RECURSIVE IndexFrom(_, _, _)
IndexFrom(node, name, i) == IF i > Len(node.k) THEN 0 ELSE IF node.k[i] = name THEN i ELSE IndexFrom(node, name, i + 1)
Find(node, name) == IF node.t # "obj" THEN None ELSE LET i == IndexFrom(node, name, 1) IN IF i = 0 THEN None ELSE node.v[i]
SetMember(node, name, x) == LET i == IndexFrom(node, name, 1) IN
  IF i = 0 THEN [node EXCEPT !.k = Append(@, name), !.v = Append(@, x)] ELSE [node EXCEPT !.v[i] = x]

\* the name of field k within the object f is about
Local(f, k) == IF f.px # "" /\ Len(k) > Len(f.px) /\ SubSeq(k, 1, Len(f.px)) = f.px THEN SubSeq(k, Len(f.px) + 1, Len(k)) ELSE k
RECURSIVE DotIn(_, _)
DotIn(s, i) == IF i > Len(s) THEN 0 ELSE IF SubSeq(s, i, i) = "." THEN i ELSE DotIn(s, i + 1)
RECURSIVE Walk(_, _)
Walk(node, s) == LET d == DotIn(s, 1) IN
  IF d = 0 THEN Find(node, s) ELSE Walk(Find(node, SubSeq(s, 1, d - 1)), SubSeq(s, d + 1, Len(s)))

\* put x in its place in the innermost object or array
Place(js, name, x) == LET d == Len(js) IN
  IF js[d].k = "arr" THEN [js EXCEPT ![d].node.v = Append(@, x)] ELSE [js EXCEPT ![d].node = SetMember(@, name, x)]

---------------------------------------------------------------------------
(* Values *)

\* the item being transferred
ItemOf(m) == LET f == TopFrame(m) IN IF f.k = "arr" THEN f.x ELSE Protocol(m).blocks[f.b][f.i - 1]

FitsBits(x, w) == x.i = 1 /\ x.big = 0 /\ (x.n = 0 \/ x.m = U0) /\ (w = 64 \/ UShrN(x.m, w) = U0)
FitsSBits(x, w) == x.i = 1 /\ x.big = 0 /\ (IF x.n = 1 THEN ULe(x.m, UShlN(U1, w - 1)) ELSE ULt(x.m, UShlN(U1, w - 1)))
Finite(f) == ~FIsNaN(f) /\ FLe(FAbs(f), <<255, 255, 255, 255, 255, 255, 239, 127>>)
IntNode(x) == x.t = "num"

\* x as a value of a field met with type t: <<bytes>>, or <<>> if it is none
ValueAs(m, t, x) ==
  CASE x.t = "none" -> IF t \in DOMAIN TypeSize THEN <<Zeros(TypeSize[t])>>
                       ELSE IF t \in {"bitu", "biti"} THEN <<U0>> ELSE IF t = "bitb" THEN <<<<0>>>> ELSE <<<<>>>>
    [] t \in S!IntTypes -> IF x.t = "num" /\ S!LitFits(x, t) THEN <<S!LitBytes(x, t)>> ELSE <<>>
    [] t = "f64" -> IF x.t = "num" /\ Finite(x.f) THEN <<x.f>> ELSE <<>>
    [] t = "f32" -> IF x.t = "num" /\ Finite(x.f) /\ Finite(F64of32(F32of64(x.f))) THEN <<F32of64(x.f)>> ELSE <<>>
    [] t = "bitu" -> IF x.t = "num" /\ FitsBits(x, ItemOf(m).w) THEN <<x.m>> ELSE <<>>
    [] t = "biti" -> IF x.t = "num" /\ FitsSBits(x, ItemOf(m).w) THEN <<S!LitWord(x)>> ELSE <<>>
    [] t \in {"bool", "bitb"} -> IF x.t = "bool" THEN <<<<x.v>>>>
                                 ELSE IF x.t = "num" /\ FitsBits(x, 1) THEN <<<<x.m[1]>>>> ELSE <<>>
    [] OTHER -> IF x.t = "str" THEN <<x.b>> ELSE <<>>

\* the document's value for what has been met with type t
NodeOf(t, v) ==
  CASE t = "bitu" -> [t |-> "num", ty |-> "u64", w |-> v]
    [] t = "biti" -> [t |-> "num", ty |-> "i64", w |-> v]
    [] t \in {"bool", "bitb"} -> [t |-> "bool", v |-> v[1]]
    [] t \in DOMAIN TypeSize -> [t |-> "num", ty |-> t, w |-> v]
    [] OTHER -> [t |-> "str", b |-> v]

RECURSIVE UpToZero(_, _)
UpToZero(b, i) == IF i > Len(b) \/ b[i] = 0 THEN i - 1 ELSE UpToZero(b, i + 1)
StrSize == [str1 |-> 1, str2 |-> 2, str4 |-> 4]
\* the characters of a string handed over at position o
Chars(m, t, o) ==
  IF o < 0 THEN <<>>
  ELSE IF t = "str0" THEN SubSeq(m.buf, o + 1, UpToZero(m.buf, o + 1))
  ELSE SubSeq(m.buf, o + 1, o + ToNat(Get(m, StrSize[t])))

\* the value an expression takes: fields met as floating point numbers as doubles
Operand(m, k, x) ==
  LET fl == k \in DOMAIN m.ty /\ m.ty[k] \in {"f32", "f64"} IN
  CASE x.t = "bool" -> <<[U0 EXCEPT ![1] = x.v]>>
    [] x.t = "num" /\ "ty" \in DOMAIN x ->
         <<CASE x.ty = "f64" -> x.w [] x.ty = "f32" -> F64of32(x.w) [] OTHER -> Widen(x.ty, x.w)>>
    [] x.t = "num" /\ fl -> IF m.ty[k] = "f32" THEN <<F64of32(F32of64(x.f))>> ELSE <<x.f>>
    [] x.t = "num" -> IF x.i = 1 /\ x.big = 0 THEN <<S!LitWord(x)>> ELSE <<>>
    [] OTHER -> <<>>

---------------------------------------------------------------------------
(* The host *)

ArrayTypes == {"arrf", "arrd", "arr1", "arr2", "arr4"}
ArrBytes == [arrf |-> 4, arrd |-> 4, arr1 |-> 1, arr2 |-> 2, arr4 |-> 4]
Limit(t) == CASE t = "arr1" -> 255 [] t = "arr2" -> 65535 [] OTHER -> 1000000000
\* bytes may be written as a hex string
ByteItem(m) == LET x == ItemOf(m) IN x.t = "num" /\ x.ty = "u8" /\ x.tr.k = "none"
AsArray(m, x) == IF x.t = "none" THEN [t |-> "arr", v |-> <<>>]
                 ELSE IF x.t = "str" /\ x.h # <<>> /\ ByteItem(m) THEN [t |-> "arr", v |-> x.h[1]] ELSE x

JsonHost(m0, t, k, want, o) ==
  LET enc == m0.md = 0
      Ev(m, v, js) == [t |-> t, k |-> k, v |-> v, o |-> o, r |-> 0, js |-> js, ty |-> m.ty, end |-> m.end]
      No(m) == [Ev(m, want, m.js) EXCEPT !.r = 1]
      Met(m, e) == [e EXCEPT !.ty = IF k \in DOMAIN @ /\ @[k] = t THEN @ ELSE (k :> t) @@ @]
      loop == Len(m0.fr)
      inLoop(m) == Cur(m.js).k = "arr" /\ Cur(m.js).lev = loop
      \* an array up to the end of the message is met with its first element
      starts == t \notin ArrayTypes \union {"exit", "arre", "query", "load", "store", "raw"}
                /\ TopFrame(m0).k = "arr" /\ TopFrame(m0).eof /\ ~inLoop(m0)
      src == IF ~starts \/ ~enc THEN None ELSE AsArray(m0, Find(Cur(m0.js).node, Local(Cur(m0.js), k)))
      m == IF ~starts THEN m0
           ELSE [m0 EXCEPT !.js = Append(@, [JFrame EXCEPT !.k = "arr", !.nm = Local(Cur(m0.js), k), !.lev = loop, !.px = Cur(m0.js).px,
                                               !.node = IF enc THEN src ELSE [t |-> "arr", v |-> <<>>, hx |-> ByteItem(m0)]])]
      d == Len(m.js)  f == Cur(m.js)  nm == Local(f, k)
      over == enc /\ f.k = "arr" /\ f.lev = loop /\ f.i > Len(f.node.v)
      next == IF f.k = "arr" THEN IF over THEN None ELSE f.node.v[f.i] ELSE Find(f.node, nm)
      step == IF f.k = "arr" THEN [m.js EXCEPT ![d].i = @ + 1] ELSE m.js
  IN
  CASE enc /\ starts /\ src.t # "arr" -> No(m0)
    [] t = "enter" ->
         IF enc /\ over /\ TopFrame(m).eof THEN [No(m) EXCEPT !.end = <<m.cur + (IF m.bit > 0 THEN 1 ELSE 0)>>]
         ELSE IF enc /\ next.t # "obj" THEN No(m)
         ELSE Ev(m, <<>>, Append(step, [JFrame EXCEPT !.nm = nm, !.node = IF enc THEN next ELSE [t |-> "obj", k |-> <<>>, v |-> <<>>],
                                                       !.px = k \o ".", !.lev = loop]))
    [] t = "exit" -> Ev(m, <<>>, IF f.k = "obj" /\ Cur(Up1(m.js)).k = "arr" /\ enc THEN Up1(m.js) ELSE Place(Up1(m.js), f.nm, f.node))
    [] t = "raw" -> No(m)
    [] t \in ArrayTypes ->
         IF enc
         THEN LET x == AsArray(m, next)  len == Len(x.v)  fixed == t \in {"arrf", "arrd"}  n == IF fixed THEN o ELSE len IN
              IF x.t # "arr" \/ len > (IF fixed THEN o ELSE Limit(t)) THEN No(m)
              ELSE Ev(m, Low(OfNat(n), ArrBytes[t]),
                      IF n = 0 THEN m.js ELSE Append(m.js, [JFrame EXCEPT !.k = "arr", !.nm = nm, !.node = x, !.px = f.px, !.lev = loop + 1]))
         ELSE LET n == IF t \in {"arrf", "arrd"} THEN o ELSE ToNat(want) IN
              Ev(m, Low(OfNat(n), ArrBytes[t]),
                 IF n = 0 THEN Place(m.js, nm, [t |-> "arr", v |-> <<>>, hx |-> ByteItem(m)])
                 ELSE Append(m.js, [JFrame EXCEPT !.k = "arr", !.nm = nm, !.node = [t |-> "arr", v |-> <<>>, hx |-> ByteItem(m)], !.px = f.px, !.lev = loop + 1]))
    [] t = "arre" -> Ev(m, <<>>, IF enc THEN Up1(m.js) ELSE Place(Up1(m.js), f.nm, f.node))
    [] t \in {"query", "load"} ->
         LET v == Operand(m, k, Walk(f.node, nm)) IN IF v = <<>> THEN No(m) ELSE Ev(m, v[1], m.js)
    [] t = "store" ->
         LET ty == ItemOf(m).ty
             x == IF ty = "bool" THEN [t |-> "bool", v |-> IF want = U0 THEN 0 ELSE 1]
                  ELSE [t |-> "num", ty |-> ty, w |-> IF ty = "f32" THEN F32of64(want) ELSE Low(want, TypeSize[ty])]
         IN [Ev(m, want, [m.js EXCEPT ![d].node = SetMember(@, nm, x)]) EXCEPT !.ty = (k :> ty) @@ @]
    [] OTHER ->
         IF enc
         THEN IF over /\ TopFrame(m).k = "arr" /\ TopFrame(m).eof
              THEN [No(m) EXCEPT !.end = <<m.cur + (IF m.bit > 0 THEN 1 ELSE 0)>>]
              ELSE LET v == ValueAs(m, t, next) IN IF v = <<>> THEN No(m) ELSE Met(m, Ev(m, v[1], step))
         ELSE Met(m, Ev(m, want, Place(m.js, nm, NodeOf(t, IF t \in {"str0", "str1", "str2", "str4"} THEN Chars(m, t, o) ELSE want))))

JsonNote(m, e) == [m EXCEPT !.js = e.js, !.ty = e.ty, !.end = e.end]
Host0(doc) == [js |-> <<[JFrame EXCEPT !.node = doc]>>, ty |-> ("" :> ""), end |-> <<>>]

---------------------------------------------------------------------------
(* The document built, and one written by the tool: equal? hex: byte arrays  *)
(* are written as hex strings.                                               *)
NumEq(x, y) ==
  CASE x.ty \in {"f32", "f64"} ->
         IF y.t = "null" THEN ~Finite(IF x.ty = "f64" THEN x.w ELSE F64of32(x.w))
         ELSE /\ y.t = "num"
              /\ IF x.ty = "f64" THEN x.w = y.f \/ FEq(x.w, y.f) ELSE FEq(F64of32(x.w), F64of32(F32of64(y.f)))
    [] OTHER -> y.t = "num" /\ y.i = 1 /\ y.big = 0 /\ S!LitWord(y) = Widen(x.ty, x.w)
                /\ (y.n = 1 => y.m = U0 \/ (IsSigned(x.ty) /\ x.w[Len(x.w)] >= 128))
                /\ (y.n = 0 => ~IsSigned(x.ty) \/ x.w[Len(x.w)] < 128)
RECURSIVE Same(_, _, _)
Same(x, y, hex) ==
  CASE x.t = "num" -> NumEq(x, y)
    [] x.t = "bool" -> y.t = "bool" /\ y.v = x.v
    [] x.t = "str" -> y.t = "str" /\ y.b = x.b
    [] x.t = "arr" ->
         IF hex /\ x.hx
         THEN y.t = "str" /\ y.h # <<>> /\ Len(y.h[1]) = Len(x.v) /\ \A i \in 1..Len(x.v) : NumEq(x.v[i], y.h[1][i])
         ELSE y.t = "arr" /\ Len(y.v) = Len(x.v) /\ \A i \in 1..Len(x.v) : Same(x.v[i], y.v[i], hex)
    [] x.t = "obj" -> /\ y.t = "obj" /\ Len(y.k) = Len(x.k)
                      /\ \A i \in 1..Len(x.k) : Same(x.v[i], Find(y, x.k[i]), hex)
=============================================================================
