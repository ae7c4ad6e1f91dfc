------------------------------ MODULE LangTrace ------------------------------
(* Recorded runs of compiled schemas, checked against ConcordiaLang; and the *)
(* compiler's verdict on each schema, checked against Schema!WellFormed.     *)
EXTENDS ConcordiaLang, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)
Schemas == ndJsonDeserialize(IOEnv.SCHEMAS)

S == INSTANCE Schema
Protocols == [i \in 1..Len(Schemas) |-> IF Schemas[i].use = 1 THEN S!Elaborate(Schemas[i]) ELSE 0]

NoEvent == [t |-> "nothing", k |-> "", v |-> <<>>, o |-> -1, r |-> 0]
TraceHost(m, t, k, v, o) == LET ev == Runs[m.c].ev IN IF m.l < Len(ev) THEN ev[m.l + 1] ELSE NoEvent
TraceNote(m, e) == m
TraceFinal(m) == Runs[m.c].buf
TraceProtocol(m) == Protocols[Runs[m.c].s]

VARIABLE m
Start(i) == LET r == Runs[i] IN
  IF r.md = 2      \* the record of a compilation
  THEN [c |-> i, err |-> -1, bad |-> "", n |-> 0, cur |-> 0, md |-> 2]
  ELSE Machine(i, r.md, r.init, Protocols[r.s])

Compiled(x) ==
  LET r == Runs[x.c]  ok == S!WellFormed(Schemas[r.s]) IN
  [x EXCEPT !.err = OK,
            !.bad = IF ok = (r.rc = 0) THEN "" ELSE IF ok THEN "a well-formed schema is refused" ELSE "an ill-formed schema is accepted"]

Verdict(x) ==
  LET r == Runs[x.c] IN
  IF x.bad # "" THEN x.bad
  ELSE IF x.md = 2 \/ x.err \in {-1, ANY} THEN ""     \* longer than MaxSteps, or not specified
  ELSE IF r.err # x.err THEN "result code is " \o ToString(r.err) \o " instead of " \o ToString(x.err)
  ELSE IF x.l # Len(r.ev) THEN "notification " \o ToString(x.l + 1) \o " (" \o r.ev[x.l + 1].t \o ") is one too many"
  ELSE IF r.buf # x.buf THEN "message buffer is " \o ToString(r.buf) \o " instead of " \o ToString(x.buf)
  ELSE IF x.err = OK /\ (r.cur # x.cur \/ r.bit # x.bit)
       THEN "position is " \o ToString(<<r.cur, r.bit>>) \o " instead of " \o ToString(<<x.cur, x.bit>>)
  ELSE ""

MaxSteps == 1500
Report(x) == LET v == Verdict(x) IN
  PrintT(IF v = "" THEN "OK " \o ToString(x.c) \o (IF x.err = ANY THEN " " ELSE "") ELSE "BAD " \o ToString(x.c) \o " " \o v)

Init == \E i \in 1..Len(Runs) : m = Start(i)
Next == /\ Running(m) /\ m.n < MaxSteps
        /\ m' = IF m.md = 2 THEN Compiled(m) ELSE Step(m)
        /\ (Running(m') /\ m'.n < MaxSteps) \/ Report(m')
Spec == Init /\ [][Next]_m

\* The protocol itself stays within its limits
Bounded == m.md = 2 \/
           /\ m.cur <= Len(m.buf) /\ m.bit \in 0..7 /\ Len(m.buf) = Len(Runs[m.c].init)
           /\ (m.cur < Len(m.buf) \/ m.bit = 0)
           /\ Len(m.st) <= MaxStack /\ m.err \in -1..9
=============================================================================
