------------------------------- MODULE LangRead -------------------------------
(* Reads schemas given as text (Grammar) and prints the protocols they        *)
(* describe (Schema!Elaborate), or that they are not well formed.             *)
EXTENDS Grammar, Json, IOUtils

Sources == ndJsonDeserialize(IOEnv.SOURCES)
S == INSTANCE Schema
Read(src) == LET s == Parse(<<[path |-> <<"m">>, src |-> src]>>, <<"m">>) IN
             IF s.ok /\ S!WellFormed(s) THEN S!Elaborate(s) ELSE [blocks |-> <<>>, root |-> 0, un |-> 0, en |-> 0, name |-> ""]

VARIABLES i, done
Init == i \in 1..Len(Sources) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ i' = i /\ PrintT(ToJson([c |-> i, p |-> Read(Sources[i].src)]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
