------------------------------ MODULE LspTrace ------------------------------
(* Recorded sessions of the language server. *)
EXTENDS Lsp, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)

Judge(W) ==
  LET I == [t \in 1..Len(W.texts) |-> IF W.texts[t].ok = 1 THEN TextInfo(W.texts[t]) ELSE NoInfo]
      v == Explain(W, I, Start(W))
  IN  IF v # "" THEN v
      ELSE IF W.rc # 0 THEN "the server ends with " \o ToString(W.rc)
      ELSE ""

VARIABLE m
Init == \E i \in 1..Len(Runs) : m = [c |-> i, done |-> FALSE]
Next == /\ ~m.done
        /\ LET v == Judge(Runs[m.c]) IN PrintT(IF v = "" THEN "OK " \o ToString(m.c) ELSE "BAD " \o ToString(m.c) \o " " \o v)
        /\ m' = [m EXCEPT !.done = TRUE]
Spec == Init /\ [][Next]_m
=============================================================================
