------------------------------ MODULE VerTrace ------------------------------
(* Verdicts of the verifier on programs, checked against Verifier. A program *)
(* is recorded as its code, the result of verifying it (0: accepted), and    *)
(* made = 1 if the compiler has produced it.                                 *)
EXTENDS Verifier, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)

NoHost(m, t, k, v, o) == 0
NoNote(m, e) == m
NoBuf(m) == <<>>
NoProg(m) == <<>>

VARIABLE c, r
Verdict(x, s) ==
  IF s = "any" THEN ""
  ELSE IF s = "sound" /\ x.verify # 0 THEN "a sound program is rejected (" \o ToString(x.verify) \o ")"
  ELSE IF s = "unsound" /\ x.verify = 0 THEN "an unsound program is accepted"
  ELSE IF s = "unsound" /\ x.made = 1 THEN "the compiler has produced an unsound program"
  ELSE ""
Report(i, s) == LET v == Verdict(Runs[i], s) IN PrintT(IF v = "" THEN "OK " \o ToString(i) ELSE "BAD " \o ToString(i) \o " " \o v)

Init == c \in 1..Len(Runs) /\ r = Reader
Next == /\ r.v = ""
        /\ r' = Read(Runs[c].code, r) /\ c' = c
        /\ r'.v = "" \/ Report(c, r'.v)
Spec == Init /\ [][Next]_<<c, r>>
Bounded == r.ip <= Len(Runs[c].code)
=============================================================================
