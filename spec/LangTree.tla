------------------------------- MODULE LangTree -------------------------------
(* Prints the syntax trees (see Schema) of schemas given as text.            *)
EXTENDS Grammar, Json, IOUtils

Sources == ndJsonDeserialize(IOEnv.SOURCES)

VARIABLES i, done
Init == i \in 1..Len(Sources) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ i' = i /\ PrintT(ToJson([c |-> i, s |-> Parse(<<[path |-> <<"m">>, src |-> Sources[i].src]>>, <<"m">>)]))
Spec == Init /\ [][Next]_<<i, done>>
===============================================================================
