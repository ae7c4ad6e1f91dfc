------------------------------ MODULE Grammar ------------------------------
(* From the text of a schema to its syntax tree (see Schema). Every parser   *)
(* takes the tokens T, a position p and the statement lists b read so far,   *)
(* and returns [ok |-> TRUE, p |-> position behind, b |-> lists, v |-> tree] *)
(* or [ok |-> FALSE, p |-> position of the first token that cannot be].      *)
EXTENDS Lexer, Words

Fail(p) == [ok |-> FALSE, p |-> p]
\* the tokens from p on should be of the kinds ks, and are not
RECURSIVE FailIn(_, _, _)
FailIn(T, p, ks) == IF Len(ks) > 1 /\ T[p].k = Head(ks) THEN FailIn(T, p + 1, Tail(ks)) ELSE Fail(p)
Ok(p, b, v) == [ok |-> TRUE, p |-> p, b |-> b, v |-> v]
K(T, p) == IF p > Len(T) THEN "eof" ELSE T[p].k
IsWord(T, p, w) == T[p].k = "id" /\ T[p].s = w
\* the parser F for what comes behind r
Then(r, F(_)) == IF r.ok THEN F(r) ELSE r
\* r, followed by a token of kind k
Close(T, r, k) == IF ~r.ok THEN r ELSE IF K(T, r.p) = k THEN [r EXCEPT !.p = @ + 1] ELSE Fail(r.p)

\* x, standing at the positions a up to z
Placed(x, a, z) == x @@ ("a" :> a) @@ ("z" :> z)

RECURSIVE Docs(_, _)
Docs(T, p) == IF K(T, p) = "doc" THEN Docs(T, p + 1) ELSE p

---------------------------------------------------------------------------
(* Numbers *)

DigitOf == [c \in HexDigits |->
  CASE c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
    [] c \in {"a", "A"} -> 10 [] c \in {"b", "B"} -> 11 [] c \in {"c", "C"} -> 12 [] c \in {"d", "D"} -> 13 [] c \in {"e", "E"} -> 14
    [] c \in {"f", "F"} -> 15 [] OTHER -> 0]
\* the word written as src[i..z] in this base, <<>> if it does not fit
RECURSIVE WordOf(_, _, _, _, _)
WordOf(src, i, z, base, acc) ==
  IF i > z THEN acc
  ELSE LET most == IF base = 16 THEN <<255,255,255,255,255,255,255,15>> ELSE <<153,153,153,153,153,153,153,25>>
           next == UAdd(UMul(acc, OfNat(base)), OfNat(DigitOf[src[i]]))
       IN IF ULt(most, acc) \/ (base = 10 /\ acc = most /\ DigitOf[src[i]] > 5) THEN <<>> ELSE WordOf(src, i + 1, z, base, next)

\* the literal that is the token t of the text src, with this sign
Literal(src, t, neg) ==
  LET hex == t.z > t.a /\ src[t.a] = "0" /\ src[t.a + 1] \in {"x", "X"}
      frac == \E i \in t.a..t.z : src[i] = "."
      w == IF frac THEN U0 ELSE IF hex THEN WordOf(src, t.a + 2, t.z, 16, U0) ELSE WordOf(src, t.a, t.z, 10, U0)
      f == IF ~hex THEN FOfDec(t.s) ELSE IF w = <<>> THEN FOfDec(t.s \o "p0") ELSE U2F(w)   \* the exponent makes it a double in hexadecimal
  IN [i |-> IF frac THEN 0 ELSE 1, n |-> IF neg THEN 1 ELSE 0, big |-> IF w = <<>> THEN 1 ELSE 0,
      m |-> IF w = <<>> THEN U0 ELSE w, f |-> IF neg THEN FNeg(f) ELSE f]

\* the tokens carry the literal they are, without and with a minus sign
Values(src, toks) == [i \in 1..Len(toks) |->
  IF toks[i].k # "num" THEN toks[i] ELSE toks[i] @@ ("v" :> Literal(src, toks[i], FALSE)) @@ ("w" :> Literal(src, toks[i], TRUE))]

\* a sign belongs to a number that follows without a gap
Signed(T, p) == K(T, p) = "-" /\ K(T, p + 1) = "num" /\ T[p + 1].a = T[p].z + 1
Number(T, p, b) ==
  IF K(T, p) = "num" THEN Ok(p + 1, b, T[p].v) ELSE IF Signed(T, p) THEN Ok(p + 2, b, T[p + 1].w) ELSE Fail(p)

RECURSIVE Numbers(_, _, _, _)      \* one or more, separated by commas
Numbers(T, p, b, acc) == Then(Number(T, p, b), LAMBDA r :
  IF K(T, r.p) = "," THEN Numbers(T, r.p + 1, b, Append(acc, r.v)) ELSE Ok(r.p, b, Append(acc, r.v)))

---------------------------------------------------------------------------
(* Expressions *)

Level == ("||" :> 1) @@ ("&&" :> 2) @@ ("|" :> 3) @@ ("^" :> 4) @@ ("&" :> 5) @@ ("==" :> 6) @@ ("!=" :> 6)
  @@ ("<" :> 7) @@ (">" :> 7) @@ ("<=" :> 7) @@ (">=" :> 7) @@ ("<<" :> 8) @@ (">>" :> 8)
  @@ ("+" :> 9) @@ ("-" :> 9) @@ ("*" :> 10) @@ ("/" :> 10) @@ ("%" :> 10)
Functions1 == {"sin", "cos", "tan", "sqrt", "log", "abs", "float", "int"}

\* an integer in an expression is any word, signed or unsigned
Constant(x) ==
  IF x.i = 0 THEN [o |-> "flt", v |-> x.f, fits |-> TRUE]
  ELSE [o |-> "int", v |-> IF x.n = 1 THEN UNeg(x.m) ELSE x.m, fits |-> x.big = 0 /\ (x.n = 0 \/ ULe(x.m, Flip(U0)))]

RECURSIVE Dotted(_, _, _)
Dotted(T, p, s) == IF K(T, p) # "." THEN Ok(p, <<>>, [o |-> "id", k |-> s])
                   ELSE IF K(T, p + 1) # "id" THEN Fail(p + 1) ELSE Dotted(T, p + 2, s \o "." \o T[p + 1].s)

RECURSIVE Expr(_, _, _)      \* Expr(T, p, n): operators of level n and above
RECURSIVE Operand(_, _)
RECURSIVE Chain(_, _, _, _)
Operand(T, p) ==
  CASE K(T, p) = "num" \/ Signed(T, p) ->
         Then(Number(T, p, <<>>), LAMBDA r : IF Constant(r.v).fits THEN Ok(r.p, <<>>, [o |-> Constant(r.v).o, v |-> Constant(r.v).v]) ELSE Fail(p))
    [] K(T, p) = "true" -> Ok(p + 1, <<>>, [o |-> "int", v |-> U1])
    [] K(T, p) = "false" -> Ok(p + 1, <<>>, [o |-> "int", v |-> U0])
    [] K(T, p) = "(" -> Close(T, Expr(T, p + 1, 1), ")")
    [] K(T, p) \in {"!", "~"} \/ (K(T, p) = "-" /\ ~Signed(T, p)) ->
         Then(Operand(T, p + 1), LAMBDA r : Ok(r.p, <<>>, [o |-> "un", op |-> K(T, p), a |-> r.v]))
    [] K(T, p) = "id" /\ T[p].s \in Functions1 ->
         IF K(T, p + 1) # "(" THEN Fail(p + 1)
         ELSE Then(Close(T, Expr(T, p + 2, 1), ")"), LAMBDA r : Ok(r.p, <<>>, [o |-> "fn", fn |-> T[p].s, a |-> r.v]))
    [] IsWord(T, p, "pow") ->
         IF K(T, p + 1) # "(" THEN Fail(p + 1)
         ELSE Then(Close(T, Expr(T, p + 2, 1), ","), LAMBDA x :
              Then(Close(T, Expr(T, x.p, 1), ")"), LAMBDA y : Ok(y.p, <<>>, [o |-> "fn", fn |-> "pow", a |-> x.v, b |-> y.v])))
    [] K(T, p) = "id" /\ T[p].s \notin Functions1 \union {"pow"} -> Dotted(T, p + 1, T[p].s)
    [] OTHER -> Fail(p)
Chain(T, p, left, n) ==
  LET k == K(T, p) IN
  IF k \notin DOMAIN Level \/ (k \in DOMAIN Level /\ Level[k] < n) THEN Ok(p, <<>>, left)
  ELSE Then(Expr(T, p + 1, Level[k] + 1), LAMBDA r : Chain(T, r.p, [o |-> "bin", op |-> k, a |-> left, b |-> r.v], n))
Expr(T, p, n) == Then(Operand(T, p), LAMBDA r : Chain(T, r.p, r.v, n))

---------------------------------------------------------------------------
(* Decorators of a statement *)

Deco(n, a, id) == [n |-> n, a |-> a, id |-> id]
Bare == {"be", "big_endian", "le", "little_endian", "crc_refin", "crc_refout", "optional", "eof"}
WithNumber == {"const", "match", "pad", "crc", "crc_poly", "crc_init", "crc_xor", "scale", "offset", "mul", "div", "add", "sub"}

Decorator(T, p) ==      \* p: behind the @
  IF K(T, p) # "id" THEN Fail(p)
  ELSE LET n == T[p].s  in == p + 2 IN
    IF n \in Bare THEN Ok(p + 1, <<>>, Deco(n, <<>>, ""))
    ELSE IF n = "fill" /\ K(T, p + 1) # "(" THEN Ok(p + 1, <<>>, Deco(n, <<>>, ""))
    ELSE IF K(T, p + 1) # "(" THEN Fail(p + 1)
    ELSE IF n \notin WithNumber \union {"fill", "count", "len", "range", "poly", "spline", "expr"} THEN Fail(p)
    ELSE Close(T,
      CASE n = "fill" -> Then(Number(T, in, <<>>), LAMBDA r : Ok(r.p, <<>>, Deco(n, <<r.v>>, "")))
        [] n \in {"count", "len"} ->
             IF K(T, in) = "id" THEN Ok(in + 1, <<>>, Deco(n, <<>>, T[in].s))
             ELSE Then(Number(T, in, <<>>), LAMBDA r : Ok(r.p, <<>>, Deco(n, <<r.v>>, "")))
        [] n \in WithNumber -> Then(Number(T, in, <<>>), LAMBDA r : Ok(r.p, <<>>, Deco(n, <<r.v>>, "")))
        [] n = "range" -> Then(Number(T, in, <<>>), LAMBDA x : Then(Close(T, x, ","), LAMBDA c : Then(Number(T, c.p, <<>>), LAMBDA y : Ok(y.p, <<>>, Deco(n, <<x.v, y.v>>, "")))))
        [] n \in {"poly", "spline"} -> Then(Numbers(T, in, <<>>, <<>>), LAMBDA r : Ok(r.p, <<>>, Deco(n, r.v, "")))
        [] n = "expr" -> Then(Expr(T, in, 1), LAMBDA r : Ok(r.p, <<>>, Deco(n, <<>>, "") @@ ("e" :> r.v))), ")")

RECURSIVE Decorators(_, _, _)
Decorators(T, p, acc) ==
  IF K(T, p) # "@" THEN Ok(p, <<>>, acc)
  ELSE Then(Decorator(T, p + 1), LAMBDA r : Decorators(T, r.p, Append(acc, r.v)))

---------------------------------------------------------------------------
(* Statements *)

NoLiteral == [i |-> 1, n |-> 0, big |-> 0, m |-> U0, f |-> U0]

\* the parts of a field behind its name, each optional
Width(T, p) == IF K(T, p) # ":" THEN Ok(p, <<>>, <<>>) ELSE Then(Number(T, p + 1, <<>>), LAMBDA r : Ok(r.p, <<>>, <<r.v>>))
ArrayPart(T, p) ==
  IF K(T, p) # "[" THEN Ok(p, <<>>, [arr |-> "", n |-> NoLiteral])
  ELSE IF K(T, p + 1) = "]" THEN Ok(p + 2, <<>>, [arr |-> "[]", n |-> NoLiteral])
  ELSE Then(Close(T, Number(T, p + 1, <<>>), "]"), LAMBDA r : Ok(r.p, <<>>, [arr |-> "[n]", n |-> r.v]))
MaxPart(T, p, until) == IF ~IsWord(T, p, "max") THEN Ok(p, <<>>, [pre |-> "", until |-> until, max |-> <<>>])
                        ELSE Then(Number(T, p + 1, <<>>), LAMBDA r : Ok(r.p, <<>>, [pre |-> "", until |-> until, max |-> <<r.v>>]))
LengthPart(T, p, ty) ==
  IF IsWord(T, p, "prefix")
  THEN IF K(T, p + 1) = "id" THEN Ok(p + 2, <<>>, [pre |-> T[p + 1].s, until |-> 0, max |-> <<>>]) ELSE Fail(p + 1)
  ELSE IF ty = "string" /\ IsWord(T, p, "until") THEN Then(Number(T, p + 1, <<>>), LAMBDA r : MaxPart(T, r.p, 1))
  ELSE IF ty = "string" THEN MaxPart(T, p, 0)
  ELSE Ok(p, <<>>, [pre |-> "", until |-> 0, max |-> <<>>])

Field(T, p, b, d) ==
  IF K(T, p) # "id" \/ K(T, p + 1) # "id" THEN FailIn(T, p, <<"id", "id">>)
  ELSE LET ty == T[p].s IN
  Then(Width(T, p + 2), LAMBDA w : Then(ArrayPart(T, w.p), LAMBDA a : Then(LengthPart(T, a.p, ty), LAMBDA l :
    IF K(T, l.p) # ";" THEN Fail(l.p)
    ELSE Ok(l.p + 1, b, [s |-> "field", name |-> T[p + 1].s, ty |-> ty, decos |-> d, bits |-> w.v] @@ a.v @@ l.v))))

RECURSIVE Stmt(_, _, _), Stmts(_, _, _, _), IfStmt(_, _, _, _), Cases(_, _, _, _)
\* v: the number of the statement list read
Block(T, p, b) ==
  IF K(T, p) # "{" THEN Fail(p)
  ELSE Then(Stmts(T, p + 1, b, <<>>), LAMBDA r : Ok(r.p, Append(r.b, r.v), Len(r.b) + 1))
Stmts(T, p0, b, acc) ==
  LET p == Docs(T, p0) IN
  IF K(T, p) = "}" THEN Ok(p + 1, b, acc)
  ELSE Then(Stmt(T, p, b), LAMBDA r : Stmts(T, r.p, r.b, Append(acc, Placed(r.v, p, r.p - 1))))

Stmt(T, p0, b) ==
  LET p == Docs(T, p0) IN
  CASE K(T, p) = "if" -> IfStmt(T, p, b, <<>>)
    [] K(T, p) = "switch" ->
         IF K(T, p + 1) = "(" /\ K(T, p + 2) = "id" /\ K(T, p + 3) = ")" /\ K(T, p + 4) = "{"
         THEN Cases(T, p + 5, b, [s |-> "switch", on |-> T[p + 2].s, cases |-> <<>>, defs |-> <<>>]) ELSE FailIn(T, p + 1, <<"(", "id", ")", "{">>)
    [] OTHER -> Then(Decorators(T, p, <<>>), LAMBDA d :
         IF (\E i \in 1..Len(d.v) : d.v[i].n \in {"pad", "fill"}) /\ K(T, d.p) \in {";", "}"}
         THEN Ok(IF K(T, d.p) = ";" THEN d.p + 1 ELSE d.p, b, [s |-> "align", decos |-> d.v])
         ELSE Field(T, Docs(T, d.p), b, d.v))

IfStmt(T, p, b, arms) ==      \* p: at "if"
  IF K(T, p + 1) # "(" THEN Fail(p + 1)
  ELSE Then(Close(T, Expr(T, p + 2, 1), ")"), LAMBDA c : Then(Block(T, c.p, b), LAMBDA r :
    LET all == Append(arms, [c |-> c.v, b |-> r.v])
        If(els) == [s |-> "if", arms |-> all, els |-> els]
    IN IF K(T, r.p) # "else" THEN Ok(r.p, r.b, If(0))
       ELSE IF K(T, r.p + 1) = "if" THEN IfStmt(T, r.p + 1, r.b, all)
       ELSE Then(Block(T, r.p + 1, r.b), LAMBDA e : Ok(e.p, e.b, If(e.v)))))

\* what belongs to a case: a block, or one statement
CaseBody(T, p0, b) ==
  LET p == Docs(T, p0) IN
  IF K(T, p) = "{" THEN Block(T, p, b)
  ELSE Then(Stmt(T, p, b), LAMBDA r : Ok(r.p, Append(r.b, <<Placed(r.v, p, r.p - 1)>>), Len(r.b) + 1))
Cases(T, p0, b, sw) ==
  LET p == Docs(T, p0)
      Case(at, c) == IF K(T, at) # ":" THEN Fail(at)
                     ELSE Then(CaseBody(T, at + 1, b), LAMBDA r : Cases(T, r.p, r.b, [sw EXCEPT !.cases = Append(@, c @@ ("b" :> r.v))]))
  IN
  CASE K(T, p) = "}" -> Ok(p + 1, b, sw)
    [] K(T, p) = "case" /\ K(T, p + 1) = "id" ->
         IF K(T, p + 2) = "." /\ K(T, p + 3) = "id" THEN Case(p + 4, [e |-> T[p + 1].s, ev |-> T[p + 3].s, v |-> NoLiteral]) ELSE FailIn(T, p + 2, <<".", "id">>)
    [] K(T, p) = "case" /\ K(T, p + 1) # "id" -> Then(Number(T, p + 1, b), LAMBDA r : Case(r.p, [e |-> "", ev |-> "", v |-> r.v]))
    [] K(T, p) = "default" -> IF K(T, p + 1) # ":" THEN Fail(p + 1)
                              ELSE Then(CaseBody(T, p + 2, b), LAMBDA r : Cases(T, r.p, r.b, [sw EXCEPT !.defs = Append(@, r.v)]))
    [] OTHER -> Fail(p)

---------------------------------------------------------------------------
(* Declarations *)

RECURSIVE EnumMembers(_, _, _)      \* a comma between members may be left out
EnumMembers(T, p0, acc) ==
  LET p == Docs(T, p0)
      Behind(q) == IF K(T, q) = "," THEN q + 1 ELSE q
  IN IF K(T, p) = "}" THEN Ok(p + 1, <<>>, acc)
     ELSE IF K(T, p) # "id" THEN Fail(p)
     ELSE IF K(T, p + 1) # "=" THEN EnumMembers(T, Behind(p + 1), Append(acc, [name |-> T[p].s, has |-> 0, v |-> NoLiteral]))
     ELSE Then(Number(T, p + 2, <<>>), LAMBDA r : EnumMembers(T, Behind(r.p), Append(acc, [name |-> T[p].s, has |-> 1, v |-> r.v])))

Enum(T, p) ==      \* p: behind "enum"
  LET typed == K(T, p + 1) = ":"  open == IF typed THEN p + 3 ELSE p + 1 IN
  IF K(T, p) # "id" \/ (typed /\ K(T, p + 2) # "id") \/ K(T, open) # "{" THEN FailIn(T, p, IF typed THEN <<"id", ":", "id", "{">> ELSE <<"id", "{">>)
  ELSE Then(EnumMembers(T, open + 1, <<>>), LAMBDA r :
       Ok(r.p, <<>>, [d |-> "enum", name |-> T[p].s, ty |-> IF typed THEN T[p + 2].s ELSE "", vals |-> r.v]))

(* Paths are sequences of names. A text names files relative to itself.      *)
RECURSIVE Walk(_, _, _)      \* follow the names seg[i..] from the directory dir
Walk(dir, seg, i) ==
  IF i > Len(seg) THEN dir
  ELSE IF seg[i] \in {"", "."} THEN Walk(dir, seg, i + 1)
  ELSE IF seg[i] = ".." THEN Walk(IF dir = <<>> THEN <<>> ELSE SubSeq(dir, 1, Len(dir) - 1), seg, i + 1)
  ELSE Walk(Append(dir, seg[i]), seg, i + 1)
RECURSIVE Segments(_, _, _, _)
Segments(src, i, z, cur) ==
  IF i > z THEN <<cur>> ELSE IF src[i] = "/" THEN <<cur>> \o Segments(src, i + 1, z, "") ELSE Segments(src, i + 1, z, cur \o src[i])

(* The state of reading declarations:                                        *)
(*   d   declarations        im  paths of the files read or being read       *)
(*   b   statement lists     un  the next struct is one of unaligned bytes   *)
(* or [ok |-> FALSE, p |-> position, f |-> path of the file], as above.      *)
\* files: the files there are, a sequence of [path, src]
RECURSIVE Decls(_, _, _, _, _, _)
RECURSIVE File(_, _, _)
File(files, path, s) ==
  LET at == {i \in 1..Len(files) : files[i].path = path} IN
  LET src == files[CHOOSE i \in at : TRUE].src  IN
  Decls(files, path, src, Values(src, Significant(Tokens(src))), 1, [s EXCEPT !.im = @ \union {path}])

RECURSIVE Closing(_, _)      \* the next closing parenthesis, or what cannot be before it
Closing(T, p) == IF K(T, p) \in {")", "eof", "bad"} THEN p ELSE Closing(T, p + 1)
Import(files, path, src, T, at, s) ==      \* at: the position of the string
  LET t == T[at]
      dir == SubSeq(path, 1, Len(path) - 1)
      to == Walk(dir, Segments(src, t.a + 1, t.a + Len(t.s), ""), 1)
  IN IF to \in s.im /\ t.z - t.a - 1 <= 255 THEN s
     ELSE IF t.z - t.a - 1 > 255 \/ \A i \in 1..Len(files) : files[i].path # to THEN [ok |-> FALSE, p |-> at, f |-> path]
     ELSE File(files, to, s)

Decls(files, path, src, T, p, s) ==
  LET Add(st, x, q) == [st EXCEPT !.d = Append(@, Placed(x, p, q - 1) @@ ("f" :> path))]
      Go(q, st) == IF st.ok THEN Decls(files, path, src, T, q, st) ELSE st
      Here(r) == IF r.ok \/ "f" \in DOMAIN r THEN r ELSE r @@ ("f" :> path)
      k == K(T, p)  word == IF K(T, p + 1) = "id" THEN T[p + 1].s ELSE ""
  IN Here(
  CASE k = "eof" -> s
    [] k \in {"doc", ";"} -> Go(p + 1, s)
    [] k = "@" ->
         CASE word = "version" -> IF K(T, p + 2) # "(" THEN Fail(p + 2)
                ELSE Then(Close(T, Number(T, p + 3, <<>>), ")"), LAMBDA r : Go(r.p, Add(s, [d |-> "version", v |-> r.v], r.p)))
           [] word = "import" -> IF K(T, p + 2) # "(" \/ K(T, p + 3) # "str" \/ K(T, p + 4) # ")" THEN FailIn(T, p + 2, <<"(", "str", ")">>)
                ELSE Go(p + 5, Import(files, path, src, T, p + 3, s))
           [] word \in {"big_endian", "be"} -> Go(p + 2, Add(s, [d |-> "order", big |-> 1], p + 2))
           [] word \in {"little_endian", "le"} -> Go(p + 2, Add(s, [d |-> "order", big |-> 0], p + 2))
           [] word = "unaligned_bytes" -> Go(p + 2, [s EXCEPT !.un = 1])
           [] word = "" -> Fail(p + 1)
           [] OTHER -> IF K(T, p + 2) # "(" THEN Go(p + 2, s)     \* unknown: left out, with its argument
                       ELSE LET q == Closing(T, p + 3) IN IF K(T, q) # ")" THEN Fail(q) ELSE Go(q + 1, s)
    [] k = "struct" -> IF K(T, p + 1) # "id" THEN Fail(p + 1)
         ELSE Then(Block(T, p + 2, s.b), LAMBDA r :
              Go(r.p, Add([s EXCEPT !.b = r.b, !.un = 0], [d |-> "struct", name |-> word, un |-> s.un, b |-> r.v], r.p)))
    [] k = "enum" -> Then(Enum(T, p + 1), LAMBDA r : Go(r.p, Add(s, r.v, r.p)))
    [] k = "packet" ->
         IF K(T, p + 1) # "id" THEN Fail(p + 1)
         ELSE IF K(T, p + 2) = "="
         THEN IF K(T, p + 3) = "id" /\ K(T, p + 4) = ";" THEN Go(p + 5, Add(s, [d |-> "alias", name |-> word, of |-> T[p + 3].s], p + 5)) ELSE FailIn(T, p + 3, <<"id", ";">>)
         ELSE Then(Block(T, p + 2, s.b), LAMBDA r : Go(r.p, Add([s EXCEPT !.b = r.b], [d |-> "packet", name |-> word, b |-> r.v], r.p)))
    [] OTHER -> Fail(p))

\* the schema in these files, or where it ends to be one: [ok |-> FALSE, p |-> position among the significant tokens, f |-> path]
Parse(files, main) ==
  LET s == File(files, main, [ok |-> TRUE, d |-> <<>>, b |-> <<>>, im |-> {}, un |-> 0]) IN
  IF s.ok THEN [ok |-> TRUE, decls |-> s.d, blocks |-> s.b] ELSE s
=============================================================================
