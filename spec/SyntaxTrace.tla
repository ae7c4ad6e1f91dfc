----------------------------- MODULE SyntaxTrace -----------------------------
(* Recorded compilations, checked against the grammar (Grammar) and the      *)
(* well-formedness of schemas (Schema). A record has the files, the path of  *)
(* the main file, the result rc of the compiler, new = 1 if it wrote the     *)
(* output file (which held something else before), and then load = 0 if the  *)
(* file could be loaded.                                                     *)
EXTENDS Grammar, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)
S == INSTANCE Schema

Judge(r) ==
  LET s == Parse(r.files, r.main)
      ok == s.ok /\ S!WellFormed(s)
  IN IF ok /\ r.rc # 0 THEN "a well-formed schema is refused"
     ELSE IF ~ok /\ r.rc = 0 THEN IF s.ok THEN "an ill-formed schema is accepted" ELSE "a text that is no schema is accepted"
     ELSE IF ok /\ r.new = 0 THEN "the compiled schema was not written"
     ELSE IF ~ok /\ r.new = 1 THEN "a refused schema changed the output file"
     ELSE IF ok /\ r.load # 0 THEN "the compiled schema cannot be loaded"
     ELSE ""

VARIABLE m
Init == \E i \in 1..Len(Runs) : m = [c |-> i, done |-> FALSE]
Next == /\ ~m.done
        /\ LET v == Judge(Runs[m.c]) IN PrintT(IF v = "" THEN "OK " \o ToString(m.c) ELSE "BAD " \o ToString(m.c) \o " " \o v)
        /\ m' = [m EXCEPT !.done = TRUE]
Spec == Init /\ [][Next]_m
=============================================================================
