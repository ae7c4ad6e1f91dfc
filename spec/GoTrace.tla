------------------------------- MODULE GoTrace -------------------------------
(* Runs recorded through the Go binding, checked against ConcordiaVM like    *)
(* those of the C interface (VMTrace), and beyond that: the content of every *)
(* string the host is shown (field c of a notification) is the one that is   *)
(* in the message, the host is told the mode the run has (g), and the error  *)
(* has the text that goes with the result. A run of the binding has no       *)
(* position; the record has the one of the C interface's run (cur, bit).     *)
EXTENDS VMTrace

\* bytes from position o on, up to the zero that ends them
RECURSIVE Upto0(_, _)
Upto0(b, o) == IF o >= Len(b) \/ b[o + 1] = 0 THEN <<>> ELSE <<b[o + 1]>> \o Upto0(b, o + 1)
\* what a prefix of w bytes before position o says
Width == [str1 |-> 1, str2 |-> 2, str4 |-> 4]
PrefixLen(x, o, w) ==
  LET p == InOrder(x, SubSeq(x.buf, o - w + 1, o)) IN
  p[1] + (IF w > 1 THEN 256 * p[2] ELSE 0) + (IF w > 2 THEN 65536 * p[3] + 16777216 * p[4] ELSE 0)
Content(x, t, o) ==
  IF o < 0 THEN <<>>
  ELSE IF t = "str0" THEN Upto0(x.buf, o)
  ELSE SubSeq(x.buf, o + 1, o + PrefixLen(x, o, Width[t]))
IsStr(t) == t \in {"str0", "str1", "str2", "str4"}

GoHost(x, t, k, v, o) ==
  LET ev == TraceHost(x, t, k, v, o) IN
  IF ev.t = "nothing" \/ ev.t # t THEN ev
  ELSE IF ev.g # x.md THEN [ev EXCEPT !.t = t \o " with the other mode"]
  ELSE IF x.md = 1 /\ IsStr(t) /\ ev.c # Content(x, t, o)
       THEN [ev EXCEPT !.t = t \o " showing " \o ToString(ev.c) \o " for " \o ToString(Content(x, t, o))]
  ELSE ev
=============================================================================
