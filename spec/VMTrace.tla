------------------------------- MODULE VMTrace -------------------------------
(* Recorded runs of the implementation, checked against ConcordiaVM: the     *)
(* machine executes the program of each run, every notification must be the  *)
(* recorded one, and the run must end as recorded.                           *)
EXTENDS ConcordiaVM, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)
Progs == ndJsonDeserialize(IOEnv.PROGS)

NoEvent == [t |-> "nothing", k |-> -1, v |-> <<>>, o |-> -1, r |-> 0]
TraceHost(m, t, k, v, o) == LET ev == Runs[m.c].ev IN IF m.l < Len(ev) THEN ev[m.l + 1] ELSE NoEvent
TraceNote(m, e) == m
TraceFinal(m) == Runs[m.c].buf
TraceProg(m) == Progs[Runs[m.c].p].code

VARIABLE m
Start(i) == LET r == Runs[i] IN Machine(i, r.md, r.init)

\* "" if the recorded run ended like the machine
Verdict(x) ==
  LET r == Runs[x.c] IN
  IF x.bad # "" THEN x.bad
  ELSE IF x.err \in {-1, ANY} THEN ""     \* longer than MaxSteps, or not specified
  ELSE IF r.err # x.err THEN "result code is " \o ToString(r.err) \o " instead of " \o ToString(x.err)
  ELSE IF x.l # Len(r.ev) THEN "notification " \o ToString(x.l + 1) \o " (" \o r.ev[x.l + 1].t \o ") is one too many"
  ELSE IF r.buf # x.buf THEN "message buffer is " \o ToString(r.buf) \o " instead of " \o ToString(x.buf)
  ELSE IF x.err = OK /\ (r.cur # x.cur \/ r.bit # x.bit)
       THEN "position is " \o ToString(<<r.cur, r.bit>>) \o " instead of " \o ToString(<<x.cur, x.bit>>)
  ELSE ""

\* longer runs are only followed up to here
MaxSteps == 1500
Report(x) == LET v == Verdict(x) IN
  PrintT(IF v = "" THEN "OK " \o ToString(x.c) ELSE "BAD " \o ToString(x.c) \o " " \o v)

Init == \E i \in 1..Len(Runs) : m = Start(i)
Next == /\ Running(m) /\ m.n < MaxSteps
        /\ m' = Step(m)
        /\ (Running(m') /\ m'.n < MaxSteps) \/ Report(m')
Spec == Init /\ [][Next]_m

\* The machine itself stays within its limits
Bounded == /\ m.cur <= Len(m.buf) /\ m.bit \in 0..7 /\ Len(m.buf) = Len(Runs[m.c].init)
           /\ (m.cur < Len(m.buf) \/ m.bit = 0)
           /\ m.ip <= Len(Prog(m)) /\ Len(m.st) <= MaxStack /\ Len(m.lp) <= MaxLoops
           /\ m.err \in -1..9
=============================================================================
