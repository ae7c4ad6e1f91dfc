----------------------------- MODULE StructTrace -----------------------------
(* Programs the compiler has produced, checked for structured control flow:  *)
(* that is why every run of them ends (TermMC).                              *)
EXTENDS Structure, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)

NoHost(m, t, k, v, o) == 0
NoNote(m, e) == m
NoBuf(m) == <<>>
NoProg(m) == <<>>

VARIABLE c, s
Report(i, w) == PrintT(IF w = "structured" THEN "OK " \o ToString(i) ELSE "BAD " \o ToString(i) \o " " \o w)
Init == c \in 1..Len(Runs) /\ s = Depths
Next == /\ s.v = ""
        /\ s' = Walk(Runs[c].code, s) /\ c' = c
        /\ s'.v = "" \/ Report(c, s'.v)
Spec == Init /\ [][Next]_<<c, s>>
Bounded == s.ip <= Len(Runs[c].code) /\ s.d >= 0
=============================================================================
