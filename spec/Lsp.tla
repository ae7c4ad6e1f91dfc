-------------------------------- MODULE Lsp --------------------------------
(* The language server: a machine that takes messages one after another.     *)
(* Its state is the text of every open document; a document that is not open *)
(* has the text it has on disk.                                              *)
(*                                                                           *)
(* A session W has                                                           *)
(*   texts : the texts that occur, [c |-> characters, ok |-> 1 if the text   *)
(*           compiles, fmt |-> the text formatted (by the formatter)]        *)
(*   disk  : file name -> number of its text, 0 if there is no such file     *)
(*   imps  : imported file name -> number of its text                        *)
(* A message is [k |-> kind, m |-> method, id, d |-> document, ok |-> 1 if   *)
(* its parameters are complete, t |-> number of the text it carries (0 none),*)
(* line, ch |-> position]                                                    *)
(* with the kinds req (a request), note (a notification), resp (a response), *)
(* junk (no message at all).                                                 *)
(* For every message the machine has at most one answer. Answers(W, s, m)    *)
(* says whether there is one: "must", "may" or "no"; Fits says which one.    *)
EXTENDS Lexer, FiniteSets

Queries == {"textDocument/definition", "textDocument/hover", "textDocument/completion", "textDocument/formatting", "textDocument/documentSymbol"}
Requests == Queries \union {"initialize", "shutdown"}

Start(W) == [open |-> [d \in DOMAIN W.disk |-> 0], up |-> TRUE, down |-> FALSE]

\* the text of document d: number, 0 if there is none
Current(W, s, d) == IF s.open[d] # 0 THEN s.open[d] ELSE W.disk[d]

Step(W, s, m) ==
  IF m.k = "note" /\ m.m = "exit" THEN [s EXCEPT !.up = FALSE]
  ELSE IF m.k = "note" /\ m.m \in {"textDocument/didOpen", "textDocument/didChange"} /\ m.ok = 1 THEN [s EXCEPT !.open[m.d] = m.t]
  ELSE IF m.k = "note" /\ m.m = "textDocument/didClose" /\ m.ok = 1 THEN [s EXCEPT !.open[m.d] = 0]
  ELSE IF m.k = "req" /\ m.m = "shutdown" THEN [s EXCEPT !.down = TRUE]
  ELSE s

Answers(W, s, m) ==
  CASE ~s.up -> "no"
    [] m.k = "req" -> "must"
    [] m.k = "resp" -> "no"
    [] m.k = "junk" -> "may"
    [] m.k = "note" /\ m.m \in {"textDocument/didOpen", "textDocument/didChange"} -> IF m.ok = 1 THEN "must" ELSE "may"
    [] m.k = "note" /\ m.m \in {"textDocument/didSave", "textDocument/didClose"} -> "may"
    [] OTHER -> "no"

---------------------------------------------------------------------------
\* What a text declares: struct and enum names with their lines
LineOf(src, p) == Cardinality({i \in 1..(p - 1) : src[i] = "\n"})
Decls(src, toks) == {[n |-> toks[i + 1].s, k |-> toks[i].k, l |-> LineOf(src, toks[i + 1].a), at |-> i] :
                     i \in {j \in 1..(Len(toks) - 1) : toks[j].k \in {"struct", "enum"} /\ toks[j + 1].k = "id"}}
Imports(toks) == {toks[i].s : i \in {j \in 4..Len(toks) : toks[j].k = "str" /\ toks[j - 1].k = "(" /\ toks[j - 2].s = "import" /\ toks[j - 3].k = "@"}}

TextInfo(t) == LET every == Tokens(t.c)  toks == SelectSeq(every, LAMBDA x : x.k # "note") IN
               [toks |-> toks, decls |-> Decls(t.c, toks), imports |-> Imports(toks), comments |-> {[a |-> every[i].a, z |-> every[i].z] : i \in {j \in 1..Len(every) : every[j].k \in {"note", "doc"}}}]
NoInfo == [toks |-> <<>>, decls |-> {}, imports |-> {}, comments |-> {}]

RECURSIVE Reach(_, _, _)     \* the imported files that are reached from the files f
Reach(W, I, f) == LET more == UNION {I[W.imps[x]].imports : x \in f \intersect DOMAIN W.imps} IN
                  IF more \subseteq f THEN f ELSE Reach(W, I, f \union more)
\* what is declared in text t of document d and in what it imports
Visible(W, I, d, t) ==
  {[f |-> d, n |-> x.n, k |-> x.k, l |-> x.l] : x \in I[t].decls} \union
  UNION {{[f |-> f, n |-> x.n, k |-> x.k, l |-> x.l] : x \in I[W.imps[f]].decls} : f \in Reach(W, I, I[t].imports) \intersect DOMAIN W.imps}

\* the position on line l, column c of a text; 0 if there is none
RECURSIVE LineStart(_, _, _)
LineStart(src, i, l) == IF l = 0 THEN i ELSE IF i > Len(src) THEN 0 ELSE LineStart(src, i + 1, IF src[i] = "\n" THEN l - 1 ELSE l)
PosOf(src, l, c) == LET i == LineStart(src, 1, l) IN
                    IF i = 0 \/ i + c > Len(src) + 1 \/ \E j \in i..(i + c - 1) : src[j] = "\n" THEN 0 ELSE i + c
\* the token that position p is in (its number)
TokenAt(toks, p) == LET hit == {i \in 1..Len(toks) : toks[i].a <= p /\ p <= toks[i].z} IN IF hit = {} THEN 0 ELSE CHOOSE i \in hit : TRUE

Members(toks, at) ==     \* of the enum declared at token `at`
  LET o == CHOOSE i \in (at + 1)..Len(toks) : toks[i].k = "{" /\ \A j \in (at + 1)..(i - 1) : toks[j].k # "{"
      c == CHOOSE i \in (o + 1)..Len(toks) : toks[i].k = "}" /\ \A j \in (o + 1)..(i - 1) : toks[j].k # "}"
  IN  {toks[i].s : i \in {j \in (o + 1)..(c - 1) : toks[j].k = "id"}}

Primitive == {"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64", "bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64"}
\* plain fields declared between tokens a and z
Fields(toks, a, z) == {toks[i].s : i \in {j \in (a + 3)..(z - 1) : /\ toks[j].k = "id" /\ toks[j + 1].k = ";"
                                                                  /\ toks[j - 1].k = "id" /\ toks[j - 1].s \in Primitive
                                                                  /\ toks[j - 2].k \in {"{", ";"}}}

Decorators == {"version", "import", "big_endian", "be", "little_endian", "le", "unaligned_bytes", "fill", "crc_refin", "crc_refout", "optional", "count", "len", "const",
               "match", "pad", "range", "crc", "crc_poly", "crc_init", "crc_xor", "scale", "offset", "mul", "div", "add", "sub", "poly", "spline", "expr", "eof"}

RECURSIVE Depth(_, _, _)     \* of parentheses before token n
Depth(toks, i, n) == IF i >= n THEN 0 ELSE Depth(toks, i + 1, n) + (IF toks[i].k = "(" THEN 1 ELSE IF toks[i].k = ")" THEN -1 ELSE 0)

IsPart(sub, s) == sub = <<>> \/ \E i \in 1..(Len(s) - Len(sub) + 1) : SubSeq(s, i, i + Len(sub) - 1) = sub
Chars(src, t) == SubSeq(src, t.a, t.z)
RECURSIVE DocLines(_, _)     \* the /// comments right before token n
DocLines(toks, n) == IF n < 1 \/ toks[n].k # "doc" THEN {} ELSE {n} \union DocLines(toks, n - 1)
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ Head(s) \in Blanks THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in Blanks THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s

---------------------------------------------------------------------------
\* Is `o` the right result of query m about text number t (which compiles)?
Result(W, I, m, t, o) ==
  LET src == W.texts[t].c
      toks == I[t].toks
      all == Visible(W, I, m.d, t)
      p == PosOf(src, m.line, m.ch)
      n == TokenAt(toks, p)
      inComment == p # 0 /\ \E x \in I[t].comments : x.a <= p /\ p <= x.z + 1
      edge == \E i \in 1..Len(toks) : toks[i].z = p - 1     \* between two tokens: either will do
      named == IF n # 0 /\ toks[n].k = "id" THEN {x \in all : x.n = toks[n].s} ELSE {}
      deco == n > 1 /\ toks[n].k = "id" /\ toks[n - 1].k = "@"
      here == {i \in 1..Len(toks) : toks[i].a < p}      \* tokens before the cursor
      last == Cardinality(here)
      block == {i \in here : toks[i].k \in {"struct", "enum", "packet"}}
      inBlock == IF block = {} THEN 0 ELSE CHOOSE i \in block : \A j \in block : j <= i
  IN
  CASE m.m = "textDocument/formatting" -> IF o.fmt = W.texts[t].fmt THEN "" ELSE "formatting is not that of the current text"
    [] m.m = "textDocument/documentSymbol" ->
         IF {[n |-> x.n, k |-> x.k, f |-> x.f, l |-> x.l] : x \in {o.syms[i] : i \in 1..Len(o.syms)}} = {[n |-> x.n, k |-> x.k, f |-> m.d, l |-> x.l] : x \in I[t].decls}
            /\ Len(o.syms) = Cardinality(I[t].decls)
         THEN "" ELSE "symbols are not those of the current text"
    [] m.m = "textDocument/definition" ->
         IF deco \/ p = 0 \/ edge THEN ""
         ELSE IF named = {} THEN (IF o.null = 1 THEN "" ELSE "definition of what has none")
         ELSE IF o.null = 0 /\ \E x \in named : o.locf = x.f /\ o.locl = x.l THEN "" ELSE "definition is not where the name is declared"
    [] m.m = "textDocument/hover" ->
         IF p = 0 \/ edge THEN ""
         ELSE IF deco THEN (IF toks[n].s \notin Decorators \/ (o.null = 0 /\ IsPart(Chars(src, toks[n]), o.hov)) THEN "" ELSE "no hover text for a decorator")
         ELSE IF named = {} THEN (IF o.null = 1 THEN "" ELSE "hover text for what is not declared")
         ELSE IF o.null = 1 \/ ~IsPart(Chars(src, toks[n]), o.hov) THEN "no hover text for a declared name"
         ELSE LET mine == {x \in I[t].decls : x.n = toks[n].s} IN
              IF mine = {} THEN ""
              ELSE LET x == CHOOSE y \in mine : TRUE IN
                   IF \E i \in DocLines(toks, x.at - 1) : ~IsPart(TrimR(TrimL(SubSeq(src, toks[i].a + 3, toks[i].z))), o.hov) THEN "hover text without the documentation"
                   ELSE IF x.k = "enum" /\ \E i \in (x.at + 1)..Len(toks) : toks[i].k = "id" /\ toks[i].s \in Members(toks, x.at) /\ ~IsPart(Chars(src, toks[i]), o.hov) THEN "hover text without the members"
                   ELSE ""
    [] m.m = "textDocument/completion" ->
         IF p = 0 \/ inComment \/ last = 0 THEN ""
         ELSE IF toks[last].k = "." /\ last > 1 /\ toks[last - 1].k = "id" /\ (\E x \in I[t].decls : x.k = "enum" /\ x.n = toks[last - 1].s)
         THEN LET x == CHOOSE y \in I[t].decls : y.k = "enum" /\ y.n = toks[last - 1].s IN
              IF {o.members[i] : i \in 1..Len(o.members)} = Members(toks, x.at) THEN "" ELSE "completion is not the members of the enum"
         ELSE IF Depth(toks, 1, last + 1) > 0
         THEN IF inBlock # 0 /\ toks[inBlock].k = "struct" /\ toks[last].k = "(" /\ toks[last - 1].s = "expr" /\ ~(Fields(toks, inBlock, last) \subseteq {o.fields[i] : i \in 1..Len(o.fields)})
              THEN "completion without the fields" ELSE ""
         ELSE IF toks[last].k = "." THEN ""
         ELSE IF {o.structs[i] : i \in 1..Len(o.structs)} # {x.n : x \in {y \in all : y.k = "struct"}} THEN "completion without the structs"
         ELSE IF {o.enums[i] : i \in 1..Len(o.enums)} # {x.n : x \in {y \in all : y.k = "enum"}} THEN "completion without the enums"
         ELSE ""

\* Is `o` an answer to m in state s? "" if it is
Fits(W, I, s, m, o) ==
  CASE m.k = "req" ->
         IF o.t # "resp" THEN "no answer to request " \o m.id
         ELSE IF o.id # m.id THEN "answer to " \o o.id \o " instead of " \o m.id
         ELSE IF m.m \notin Requests THEN (IF o.err = 1 THEN "" ELSE "an unknown request does not fail")
         ELSE IF m.ok = 0 \/ s.down THEN ""
         ELSE IF o.err = 1 THEN "request " \o m.m \o " fails"
         ELSE IF m.m = "initialize" THEN (IF o.null = 0 /\ o.caps = 1 THEN "" ELSE "no capabilities")
         ELSE IF m.m = "shutdown" THEN (IF o.null = 1 THEN "" ELSE "shutdown has a result")
         ELSE LET t == Current(W, s, m.d) IN
              IF t = 0 THEN (IF o.null = 1 THEN "" ELSE "a result for a document that does not exist")
              ELSE IF W.texts[t].ok = 0 /\ m.m # "textDocument/formatting" THEN ""
              ELSE Result(W, I, m, t, o)
    [] m.k = "junk" -> IF o.t = "resp" /\ o.err = 1 THEN "" ELSE "no error message"
    [] OTHER ->
         IF o.t # "diag" THEN "answer to a notification"
         ELSE IF m.m = "textDocument/didClose" THEN (IF o.f = m.d THEN "" ELSE "diagnostics for another document")
         ELSE IF o.f # m.d THEN "diagnostics for another document"
         ELSE LET t == Current(W, Step(W, s, m), m.d) IN
              IF t = 0 THEN ""
              ELSE IF (o.n = 0) = (W.texts[t].ok = 1) THEN "" ELSE IF o.n = 0 THEN "no diagnostics for a text that does not compile" ELSE "diagnostics for a text that compiles"

---------------------------------------------------------------------------
\* Do the messages from i on explain the outputs that are left? J: how many outputs may have been
\* written before message i (a set, as some answers are optional). "" if they do
RECURSIVE Explaining(_, _, _, _, _)
Explaining(W, I, s, i, J) ==
  IF i > Len(W.msgs) \/ ~s.up THEN (IF Len(W.outs) \in J THEN "" ELSE "output " \o ToString(1 + CHOOSE j \in J : \A k \in J : k <= j) \o " answers nothing")
  ELSE LET m == W.msgs[i]
           a == Answers(W, s, m)
           Fit(j) == IF j + 1 > Len(W.outs) THEN "there is none" ELSE Fits(W, I, s, m, W.outs[j + 1])
           fits == IF a = "no" THEN {} ELSE {j + 1 : j \in {k \in J : Fit(k) = ""}}
       IN
       IF a = "must" /\ fits = {} THEN LET j == CHOOSE j \in J : \A k \in J : k <= j IN
                                      "message " \o ToString(i) \o " (" \o m.m \o "), output " \o ToString(j + 1) \o ": " \o Fit(j)
       ELSE Explaining(W, I, Step(W, s, m), i + 1, IF a = "must" THEN fits ELSE J \union fits)
Explain(W, I, s) == Explaining(W, I, s, 1, {0})
=============================================================================
