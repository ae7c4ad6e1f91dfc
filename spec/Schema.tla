------------------------------- MODULE Schema -------------------------------
(* What a schema (the syntax tree of a .cnd source) means.                   *)
(*                                                                           *)
(*   WellFormed(s)  the compiler has to accept s                             *)
(*   Elaborate(s)   the protocol s describes, as blocks of items that        *)
(*                  ConcordiaLang executes                                   *)
(*                                                                           *)
(* A schema s has s.decls, the declarations in order (imports in place), and *)
(* s.blocks, the statement lists between braces, by number. A number in the  *)
(* source is a literal x with x.i = 1 if it is written as an integer, x.n = 1*)
(* if it has a minus sign, x.m its magnitude as a word (x.big = 1 if that    *)
(* does not fit into a word), x.f its value as a double.                     *)
EXTENDS Words, TLC

---------------------------------------------------------------------------
(* Types and literals *)

BaseTypes ==
  [uint8 |-> "u8", byte |-> "u8", u8 |-> "u8", uint16 |-> "u16", u16 |-> "u16", uint32 |-> "u32", u32 |-> "u32",
   uint64 |-> "u64", u64 |-> "u64", int8 |-> "i8", i8 |-> "i8", int16 |-> "i16", i16 |-> "i16",
   int32 |-> "i32", i32 |-> "i32", int64 |-> "i64", i64 |-> "i64", float |-> "f32", f32 |-> "f32",
   double |-> "f64", f64 |-> "f64", bool |-> "bool"]
IntTypes == {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"}
SignedTypes == {"i8", "i16", "i32", "i64"}
FloatTypes == {"f32", "f64"}
SizeOf == [u8 |-> 1, i8 |-> 1, bool |-> 1, u16 |-> 2, i16 |-> 2, u32 |-> 4, i32 |-> 4, f32 |-> 4,
           u64 |-> 8, i64 |-> 8, f64 |-> 8]
BitsOf(ty) == CASE ty = "bool" -> 1 [] ty \in IntTypes -> 8 * SizeOf[ty] [] OTHER -> 0
PrefixTypes == [uint8 |-> 1, u8 |-> 1, uint16 |-> 2, u16 |-> 2, uint32 |-> 4, u32 |-> 4]

\* does the word v, read as unsigned (signed) number, fit into n bytes?
UFits(v, n) == n = 8 \/ v = ZExt(Low(v, n))
HalfOf(n) == [i \in 1..8 |-> IF i = n THEN 128 ELSE 0]       \* 2^(8n-1)
LitFits(x, ty) ==
  /\ x.i = 1 /\ x.big = 0
  /\ LET n == SizeOf[ty] IN
     IF ty \in SignedTypes
     THEN IF x.n = 1 THEN ULe(x.m, HalfOf(n)) ELSE ULt(x.m, HalfOf(n))
     ELSE IF x.n = 1 THEN x.m = U0 ELSE UFits(x.m, n)
LitWord(x) == IF x.n = 1 THEN UNeg(x.m) ELSE x.m
LitBytes(x, ty) == CASE ty = "f64" -> x.f [] ty = "f32" -> F32of64(x.f) [] OTHER -> Low(LitWord(x), SizeOf[ty])

RangeFits(lo, hi, ty) ==
  CASE ty \in SignedTypes -> LitFits(lo, ty) /\ LitFits(hi, ty) /\ SLe(LitWord(lo), LitWord(hi))
    [] ty \in IntTypes -> LitFits(lo, ty) /\ LitFits(hi, ty) /\ ULe(LitWord(lo), LitWord(hi))
    [] ty \in FloatTypes -> ~FLt(hi.f, lo.f)
    [] OTHER -> FALSE

Range(f) == {f[i] : i \in DOMAIN f}
RECURSIVE Flatten(_, _)
Flatten(s, i) == IF i > Len(s) THEN <<>> ELSE s[i] \o Flatten(s, i + 1)
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

---------------------------------------------------------------------------
(* Decorators of a field: a sequence of records with the name n              *)

Has(d, n) == \E i \in 1..Len(d) : d[i].n = n
LastOf(d, ns) == CHOOSE i \in 1..Len(d) : d[i].n \in ns /\ \A j \in i+1..Len(d) : d[j].n \notin ns
The(d, n) == d[LastOf(d, {n})]

OrderNames == {"be", "big_endian", "le", "little_endian"}
ConstNames == {"const", "match"}
CountNames == {"count", "len"}
TransNames == {"scale", "offset", "add", "sub", "mul", "div", "poly", "spline"}
IntTransNames == {"add", "sub", "mul", "div"}
CrcParams == {"crc_poly", "crc_init", "crc_xor"}
HasAny(d, ns) == \E n \in ns : Has(d, n)

DecoratorOk(x) ==
  CASE x.n \in OrderNames \union {"optional", "eof", "crc_refin", "crc_refout"} -> TRUE
    [] x.n = "fill" -> x.a = <<>> \/ (LitFits(x.a[1], "u32") /\ ULe(x.a[1].m, U1))
    [] x.n = "pad" -> LitFits(x.a[1], "u8")
    [] x.n \in CountNames -> x.id # "" \/ LitFits(x.a[1], "u32")
    [] x.n \in ConstNames \union {"range", "scale", "offset", "expr"} -> TRUE
    [] x.n = "crc" -> LitFits(x.a[1], "u32") /\ ToNat(x.a[1].m) \in {16, 32}
    [] x.n \in CrcParams -> LitFits(x.a[1], "u32")
    [] x.n \in IntTransNames -> LitFits(x.a[1], "i64")
    [] x.n = "poly" -> Len(x.a) \in 1..16
    [] x.n = "spline" -> Len(x.a) \in 2..32 /\ Len(x.a) % 2 = 0
    [] OTHER -> FALSE

OrderOf(d) == IF ~HasAny(d, OrderNames) THEN -1
              ELSE IF d[LastOf(d, OrderNames)].n \in {"be", "big_endian"} THEN 1 ELSE 0

NoTransform == [k |-> "none"]
TransformOf(d) ==
  IF ~HasAny(d, TransNames) THEN NoTransform
  ELSE LET x == d[LastOf(d, TransNames)] IN
       CASE x.n \in {"scale", "offset"} ->
              [k |-> "scale", f |-> IF Has(d, "scale") THEN The(d, "scale").a[1].f ELSE FOfRatio(1, 1),
               o |-> IF Has(d, "offset") THEN The(d, "offset").a[1].f ELSE U0]
         [] x.n = "poly" -> [k |-> "poly", c |-> [i \in 1..Len(x.a) |-> x.a[i].f]]
         [] x.n = "spline" -> [k |-> "spline", c |-> [i \in 1..(Len(x.a) \div 2) |-> <<x.a[2*i-1].f, x.a[2*i].f>>]]
         [] OTHER -> [k |-> "int", op |-> x.n, v |-> LitWord(x.a[1])]

CrcWidth(d) == ToNat(The(d, "crc").a[1].m)
CrcParam(d, n, dflt) == LET bytes == CrcWidth(d) \div 8 IN IF Has(d, n) THEN Low(The(d, n).a[1].m, bytes) ELSE Low(dflt, bytes)
CrcPoly(d) == CrcParam(d, "crc_poly", IF CrcWidth(d) = 16 THEN <<33, 16>> ELSE <<183, 29, 193, 4>>)
CrcInit(d) == CrcParam(d, "crc_init", IF CrcWidth(d) = 16 THEN <<255, 255>> ELSE <<255, 255, 255, 255>>)
CrcXor(d) == CrcParam(d, "crc_xor", IF CrcWidth(d) = 16 THEN <<0, 0>> ELSE <<255, 255, 255, 255>>)
CrcOk(d) == CrcWidth(d) = 32 \/ \A n \in CrcParams : Has(d, n) => UFits(The(d, n).a[1].m, 2)

---------------------------------------------------------------------------
(* Enumerations: the values of the names, in order                           *)

EnumTypeOk(d) == d.ty = "" \/ (d.ty \in DOMAIN BaseTypes \ {"byte"} /\ BaseTypes[d.ty] \in IntTypes)
EnumType(d) == IF d.ty = "" THEN "u32" ELSE BaseTypes[d.ty]
RECURSIVE EnumWords(_, _, _)
EnumWords(d, i, next) ==
  IF i > Len(d.vals) THEN <<>>
  ELSE LET v == IF d.vals[i].has = 1 THEN LitWord(d.vals[i].v) ELSE next
       IN <<v>> \o EnumWords(d, i + 1, UAdd(v, U1))
\* an implicit value is the one after the last, and has to be one of the type
ImplicitFits(v, ty) ==
  CASE ty = "u64" -> TRUE
    [] ty = "i64" -> v # Flip(U0)
    [] ty \in SignedTypes -> SExt(Low(v, SizeOf[ty])) = v
    [] OTHER -> UFits(v, SizeOf[ty])
EnumOk(d) ==
  /\ EnumTypeOk(d)
  /\ \A i \in 1..Len(d.vals) : d.vals[i].has = 1 => LitFits(d.vals[i].v, EnumType(d))
  /\ LET w == EnumWords(d, 1, U0) IN
     /\ Distinct(w)
     /\ \A i \in 1..Len(w) : d.vals[i].has = 0 => ImplicitFits(w[i], EnumType(d))
  /\ Distinct([i \in 1..Len(d.vals) |-> d.vals[i].name])

---------------------------------------------------------------------------
(* Declarations visible to declaration number i                              *)

FindDecl(s, i, kinds, name) == {j \in 1..i-1 : s.decls[j].d \in kinds /\ s.decls[j].name = name}
StructOf(s, i, name) == FindDecl(s, i, {"struct"}, name)
EnumOf(s, i, name) == FindDecl(s, i, {"enum"}, name)
Only(set) == CHOOSE x \in set : TRUE

---------------------------------------------------------------------------
(* Fields *)

IsArray(x) == x.arr # ""
CountDeco(x) == x.decos[LastOf(x.decos, CountNames)]
HasCount(x) == HasAny(x.decos, CountNames)
HasCountRef(x) == \E j \in 1..Len(x.decos) : x.decos[j].n \in CountNames /\ x.decos[j].id # ""
CountRef(x) == LET d == x.decos IN d[CHOOSE j \in 1..Len(d) : d[j].n \in CountNames /\ d[j].id # ""].id
HasFixed(x) == x.arr = "[n]" \/ \E j \in 1..Len(x.decos) : x.decos[j].n \in CountNames /\ x.decos[j].id = ""
FixedCount(x) == IF x.arr = "[n]" THEN Low(x.n.m, 4) ELSE Low(CountDeco(x).a[1].m, 4)
\* a prefix belongs to the array if the array has no other length, else to the string
PrefixOfArray(x) == x.pre # "" /\ x.arr = "[]" /\ ~HasFixed(x) /\ ~HasCountRef(x)
PrefixOfString(x) == x.pre # "" /\ ~PrefixOfArray(x) /\ x.ty = "string"

LengthOk(x) ==
  /\ x.pre # "" => (PrefixOfArray(x) \/ x.ty = "string") /\ x.pre \in DOMAIN PrefixTypes
  /\ x.arr = "[n]" => LitFits(x.n, "u32")
  /\ IsArray(x) => PrefixOfArray(x) \/ Has(x.decos, "eof") \/ HasCountRef(x) \/ HasFixed(x)
  /\ IsArray(x) /\ x.ty = "string" => PrefixOfString(x) \/ x.until = 1
  /\ x.max # <<>> => LitFits(x.max[1], "u16")

ArrayOf(x) ==
  IF ~IsArray(x) THEN [k |-> "no"]
  ELSE IF PrefixOfArray(x) THEN [k |-> "pre", n |-> PrefixTypes[x.pre]]
  ELSE IF Has(x.decos, "eof") THEN [k |-> "eof"]
  ELSE IF HasCountRef(x) THEN [k |-> "dyn", ref |-> CountRef(x)]
  ELSE [k |-> "fix", n |-> FixedCount(x)]

WidthOk(x, ty) == x.bits # <<>> =>
  LET w == x.bits[1] IN w.i = 1 /\ w.n = 0 /\ w.big = 0 /\ w.m # U0 /\ ToNat(w.m) <= BitsOf(ty)

\* x: field in declaration i of s; un: in a struct of unaligned bytes
FieldOk(s, i, un, x) ==
  LET d == x.decos
      tr == HasAny(d, TransNames)  const == HasAny(d, ConstNames)
      crc == Has(d, "crc")  expr == Has(d, "expr")  range == Has(d, "range")
      bits == x.bits # <<>> IN
  /\ \A j \in 1..Len(d) : DecoratorOk(d[j])
  /\ x.name # "self"
  /\ LengthOk(x)
  /\ crc => CrcOk(d)
  /\ (const \/ crc \/ expr) => ~tr
  /\ expr => ~IsArray(x) /\ ~const /\ ~crc /\ Len(SelectSeq(d, LAMBDA z : z.n = "expr")) = 1
  /\ crc => ~const
  /\ IF const
     THEN /\ x.ty \in DOMAIN BaseTypes /\ BaseTypes[x.ty] \in IntTypes /\ ~bits /\ ~un
          /\ LitFits(d[LastOf(d, ConstNames)].a[1], BaseTypes[x.ty])
          /\ range => RangeFits(The(d, "range").a[1], The(d, "range").a[2], BaseTypes[x.ty])
     ELSE IF StructOf(s, i, x.ty) # {} THEN ~tr /\ ~range /\ ~crc /\ ~bits /\ ~expr
     ELSE IF EnumOf(s, i, x.ty) # {}
     THEN /\ ~tr /\ ~crc /\ ~bits /\ ~expr
          /\ range => RangeFits(The(d, "range").a[1], The(d, "range").a[2], EnumType(s.decls[Only(EnumOf(s, i, x.ty))]))
     ELSE IF x.ty = "string" THEN ~tr /\ ~range /\ ~crc /\ ~bits /\ ~expr
     ELSE /\ x.ty \in DOMAIN BaseTypes
          /\ LET ty == BaseTypes[x.ty] IN
             /\ WidthOk(x, ty)
             /\ IF bits \/ un
                THEN ty \notin FloatTypes /\ ~tr /\ ~range /\ ~crc /\ ~expr
                ELSE /\ crc => ~range /\ ty = (IF CrcWidth(d) = 16 THEN "u16" ELSE "u32")
                     /\ tr => ty # "bool"
                     /\ range => RangeFits(The(d, "range").a[1], The(d, "range").a[2], ty)

---------------------------------------------------------------------------
(* Statements *)

CaseWord(s, i, c) ==
  IF c.e = "" THEN LitWord(c.v)
  ELSE LET d == s.decls[Only(EnumOf(s, i, c.e))]
           at == CHOOSE j \in 1..Len(d.vals) : d.vals[j].name = c.ev
       IN EnumWords(d, 1, U0)[at]
CaseOk(s, i, c) ==
  IF c.e = "" THEN LitFits(c.v, "i64") \/ LitFits(c.v, "u64")
  ELSE /\ EnumOf(s, i, c.e) # {}
       /\ \E j \in 1..Len(s.decls[Only(EnumOf(s, i, c.e))].vals) : s.decls[Only(EnumOf(s, i, c.e))].vals[j].name = c.ev

SubBlocks(x) ==
  CASE x.s = "if" -> [j \in 1..Len(x.arms) |-> x.arms[j].b] \o (IF x.els = 0 THEN <<>> ELSE <<x.els>>)
    [] x.s = "switch" -> [j \in 1..Len(x.cases) |-> x.cases[j].b] \o x.defs
    [] OTHER -> <<>>

RECURSIVE BlockOk(_, _, _, _)
StmtOk(s, i, un, x) ==
  CASE x.s = "field" -> FieldOk(s, i, un, x)
    [] x.s = "align" -> \A j \in 1..Len(x.decos) : DecoratorOk(x.decos[j])
    [] x.s = "switch" -> /\ Len(x.defs) <= 1
                         /\ \A j \in 1..Len(x.cases) : CaseOk(s, i, x.cases[j])
                         /\ Distinct([j \in 1..Len(x.cases) |-> CaseWord(s, i, x.cases[j])])
    [] OTHER -> TRUE
BlockOk(s, i, un, b) == \A j \in 1..Len(s.blocks[b]) :
  LET x == s.blocks[b][j] IN
  StmtOk(s, i, un, x) /\ \A c \in Range(SubBlocks(x)) : BlockOk(s, i, un, c)

RECURSIVE NamesIn(_, _)
NamesIn(s, b) == Flatten([j \in 1..Len(s.blocks[b]) |->
  LET x == s.blocks[b][j]  sub == SubBlocks(x) IN
  IF x.s = "field" THEN <<x.name>> ELSE Flatten([c \in 1..Len(sub) |-> NamesIn(s, sub[c])], 1)], 1)

(* The fields of a struct of unaligned bytes have to fill whole bytes, if    *)
(* that is known: -1 if it depends on the message.                           *)
WidthIn(x) == IF x.bits # <<>> THEN ToNat(x.bits[1].m) ELSE BitsOf(BaseTypes[x.ty])
RECURSIVE BitCount(_, _, _, _)
BitCount(s, b, j, n) ==
  IF j > Len(s.blocks[b]) THEN n
  ELSE LET x == s.blocks[b][j]
           RECURSIVE Decos(_, _)
           Decos(k, c) == IF k > Len(x.decos) THEN c
                          ELSE Decos(k + 1, CASE x.decos[k].n = "fill" -> 0
                                              [] x.decos[k].n = "pad" /\ c >= 0 -> (c + ToNat(x.decos[k].a[1].m)) % 8
                                              [] OTHER -> c)
       IN BitCount(s, b, j + 1,
            IF x.s \in {"if", "switch"} THEN -1
            ELSE LET c == Decos(1, n) IN
                 IF x.s = "align" \/ c < 0 THEN c
                 ELSE IF x.ty \notin DOMAIN BaseTypes THEN c
                 ELSE IF ~IsArray(x) THEN (c + WidthIn(x)) % 8
                 ELSE IF ArrayOf(x).k = "fix" THEN (c + WidthIn(x) * (FixedCount(x)[1] % 8)) % 8
                 ELSE -1)

DeclOk(s, i) ==
  LET d == s.decls[i] IN
  CASE d.d = "enum" -> EnumOk(d) /\ FindDecl(s, i, {"enum", "struct"}, d.name) = {}
    [] d.d = "struct" -> /\ FindDecl(s, i, {"enum", "struct"}, d.name) = {}
                         /\ BlockOk(s, i, d.un = 1, d.b) /\ Distinct(NamesIn(s, d.b))
                         /\ d.un = 1 => BitCount(s, d.b, 1, 0) \in {-1, 0}
    [] d.d = "packet" -> /\ FindDecl(s, i, {"enum", "struct"}, d.name) = {}
                         /\ BlockOk(s, i, FALSE, d.b) /\ Distinct(NamesIn(s, d.b))
    [] d.d = "alias" -> /\ FindDecl(s, i, {"enum", "struct"}, d.name) = {}
                        /\ StructOf(s, i, d.of) # {}
    [] d.d = "version" -> LitFits(d.v, "u8")
    [] OTHER -> TRUE

Packets(s) == {i \in 1..Len(s.decls) : s.decls[i].d \in {"packet", "alias"}}
WellFormed(s) ==
  /\ \E i \in Packets(s) : Packets(s) = {i}
  /\ \A i \in 1..Len(s.decls) : DeclOk(s, i)

---------------------------------------------------------------------------
(* The protocol a well-formed schema describes *)

StructInfo(s, i, name) == LET d == s.decls[Only(StructOf(s, i, name))] IN [b |-> d.b, un |-> d.un]

\* the items of a pad or fill decorator, in the order written
AlignItems(d) ==
  LET one(x) == CASE x.n = "pad" -> <<[t |-> "pad", ord |-> -1, n |-> ToNat(x.a[1].m)]>>
                  [] x.n = "fill" -> <<[t |-> "fill", ord |-> -1, one |-> x.a # <<>> /\ x.a[1].m = U1]>>
                  [] OTHER -> <<>>
  IN Flatten([j \in 1..Len(d) |-> one(d[j])], 1)

FieldItem(s, i, un, x) ==
  LET d == x.decos
      base == [t |-> "", k |-> x.name, ord |-> OrderOf(d), opt |-> Has(d, "optional"), arr |-> ArrayOf(x)]
      Rng(ty) == IF Has(d, "range") THEN <<LitBytes(The(d, "range").a[1], ty), LitBytes(The(d, "range").a[2], ty)>> ELSE <<>>
  IN
  IF HasAny(d, ConstNames)
  THEN LET ty == BaseTypes[x.ty] IN
       [base EXCEPT !.t = "const"] @@ [ty |-> ty, v |-> LitBytes(d[LastOf(d, ConstNames)].a[1], ty), rng |-> Rng(ty)]
  ELSE IF StructOf(s, i, x.ty) # {}
  THEN LET st == StructInfo(s, i, x.ty) IN [base EXCEPT !.t = "struct"] @@ [b |-> st.b, un |-> st.un]
  ELSE IF EnumOf(s, i, x.ty) # {}
  THEN LET e == s.decls[Only(EnumOf(s, i, x.ty))]  ty == EnumType(e)  w == EnumWords(e, 1, U0) IN
       [base EXCEPT !.t = "num"] @@ [ty |-> ty, tr |-> NoTransform, rng |-> Rng(ty),
                                     vals |-> <<[j \in 1..Len(w) |-> Low(w[j], SizeOf[ty])]>>]
  ELSE IF x.ty = "string"
  THEN [base EXCEPT !.t = "str"] @@
         (IF PrefixOfString(x) THEN [n |-> PrefixTypes[x.pre], max |-> 0]
          ELSE [n |-> 0, max |-> IF x.max = <<>> THEN 255 ELSE ToNat(x.max[1].m)])
  ELSE LET ty == BaseTypes[x.ty] IN
    IF un \/ x.bits # <<>>
    THEN [base EXCEPT !.t = "bits"] @@ [w |-> WidthIn(x), bt |-> CASE ty = "bool" -> "bitb" [] ty \in SignedTypes -> "biti" [] OTHER -> "bitu"]
    ELSE IF Has(d, "crc")
    THEN [base EXCEPT !.t = "crc"] @@
           [poly |-> CrcPoly(d), init |-> CrcInit(d), xor |-> CrcXor(d),
            refin |-> CrcWidth(d) = 32 \/ Has(d, "crc_refin"), refout |-> CrcWidth(d) = 32 \/ Has(d, "crc_refout")]
    ELSE IF Has(d, "expr")
    THEN [base EXCEPT !.t = "expr"] @@ [ty |-> ty, e |-> The(d, "expr").e, rng |-> Rng(ty)]
    ELSE [base EXCEPT !.t = "num"] @@ [ty |-> ty, tr |-> TransformOf(d), rng |-> Rng(ty), vals |-> <<>>]

Items(s, i, un, x) ==
  CASE x.s = "field" -> AlignItems(x.decos) \o <<FieldItem(s, i, un, x)>>
    [] x.s = "align" -> AlignItems(x.decos)
    [] x.s = "if" -> <<[t |-> "if", ord |-> -1, arms |-> x.arms, els |-> x.els]>>
    [] x.s = "switch" -> <<[t |-> "switch", ord |-> -1, k |-> x.on, def |-> IF x.defs = <<>> THEN 0 ELSE x.defs[1],
                            cases |-> [j \in 1..Len(x.cases) |-> [v |-> CaseWord(s, i, x.cases[j]), b |-> x.cases[j].b]]]>>

\* the declaration a block belongs to
RECURSIVE Reach(_, _)
Reach(s, b) == {b} \union UNION {UNION {Reach(s, c) : c \in Range(SubBlocks(s.blocks[b][j]))} : j \in 1..Len(s.blocks[b])}
Owner(s, b) == CHOOSE i \in 1..Len(s.decls) : s.decls[i].d \in {"struct", "packet"} /\ b \in Reach(s, s.decls[i].b)

\* byte order in force where the packet is declared
OrderBefore(s, i) == LET o == {j \in 1..i-1 : s.decls[j].d = "order"} IN
  IF o = {} THEN 0 ELSE s.decls[CHOOSE j \in o : \A k \in o : k <= j].big

Elaborate(s) ==
  LET p == Only(Packets(s))  d == s.decls[p]
      root == IF d.d = "packet" THEN [b |-> d.b, un |-> 0] ELSE StructInfo(s, p, d.of)
  IN [ blocks |-> [b \in 1..Len(s.blocks) |->
                     LET i == Owner(s, b)  un == s.decls[i].d = "struct" /\ s.decls[i].un = 1  x == s.blocks[b] IN
                     Flatten([j \in 1..Len(x) |-> Items(s, i, un, x[j])], 1)],
       root |-> root.b, un |-> root.un, en |-> OrderBefore(s, p), name |-> d.name ]
=============================================================================
