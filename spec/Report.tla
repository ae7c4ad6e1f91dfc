-------------------------------- MODULE Report --------------------------------
(* What is reported of a text that is no schema. A record has the files, the *)
(* path of the main file, the exit status rc of the compiler, new = 1 if it  *)
(* wrote the output file (which held something else before), and what it     *)
(* said, in the order it said it:                                            *)
(*   text  [f, line, col, msg, src, mark]  for people: the source line and   *)
(*         a line with a mark below what is meant ("" if there is none)      *)
(*   json  [f, line, msg, token]           for programs                      *)
(*   lsp   [line, col, msg]                from the language server          *)
(* cut: what it said first, for people, of the files with the text behind    *)
(* the first reported token taken away, as a sequence of at most one.        *)
EXTENDS Grammar, FiniteSets, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)
S == INSTANCE Schema

Source(r, f) == r.files[CHOOSE i \in 1..Len(r.files) : r.files[i].path = f].src
\* where a token begins: that of a string or a documentation comment is what is in it
Begin(src, t) == CASE t.k = "eof" -> Len(src) + 1 [] t.k = "str" -> t.a + 1 [] t.k = "doc" -> t.a + 3 [] OTHER -> t.a
Line(src, i) == 1 + Cardinality({j \in 1..(i - 1) : src[j] = "\n"})
Breaks == {"\n", "\r"}
RECURSIVE Left(_, _)      \* the first position of the line of i
Left(src, i) == IF i = 1 \/ src[i - 1] \in Breaks THEN i ELSE Left(src, i - 1)
Right(src, i) == SkipTo(src, i, Breaks) - 1
Column(src, i) == i - Left(src, i) + 1

\* the tokens of T that begin at this place
Meant(src, T, line, col) == {q \in 1..Len(T) : LET i == Begin(src, T[q]) IN Line(src, i) = line /\ Column(src, i) = col}
===============================================================================
