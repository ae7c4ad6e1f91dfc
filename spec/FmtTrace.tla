------------------------------- MODULE FmtTrace -------------------------------
(* Recorded formattings. A record has the text src, the formatted text out,  *)
(* the text again formatted from that (out2), the results of compiling src   *)
(* and out (rc, rc2; 0 = accepted) and the images (img, img2).               *)
(* The formatter may only lay out the text differently: the words are those  *)
(* of the source, comments included, in the same order.                      *)
EXTENDS Lexer, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)

RECURSIVE Trim(_, _)     \* how much of the text is left without blanks at its end
Trim(src, z) == IF z > 0 /\ src[z] \in Blanks THEN Trim(src, z - 1) ELSE z
Words(src) == LET t == Tokens(src) IN
  [i \in 1..Len(t) |-> IF t[i].k \in {"doc", "note"}
                       THEN [k |-> t[i].k, s |-> LET z == Trim(SubSeq(src, t[i].a, t[i].z), t[i].z - t[i].a + 1) IN TextOf(src, t[i].a, t[i].a + z - 1)]
                       ELSE [k |-> t[i].k, s |-> t[i].s]]

RECURSIVE FirstDiff(_, _, _)
FirstDiff(a, b, i) == IF i > Len(a) \/ i > Len(b) \/ a[i] # b[i] THEN i ELSE FirstDiff(a, b, i + 1)
Word(a, i) == IF i > Len(a) THEN "the end" ELSE a[i].s

Judge(r) ==
  IF r.rc # 0 THEN ""
  ELSE LET a == Words(r.src)  b == Words(r.out) IN
       IF a # b THEN LET i == FirstDiff(a, b, 1) IN "formatting turns word " \o ToString(i) \o " into another one: " \o Word(a, i) \o " / " \o Word(b, i)
       ELSE IF r.rc2 # 0 THEN "the formatted schema does not compile"
       ELSE IF r.img # r.img2 THEN "the formatted schema compiles to another program"
       ELSE IF r.out2 # r.out THEN "formatting the formatted schema changes it"
       ELSE ""

VARIABLE m
Init == \E i \in 1..Len(Runs) : m = [c |-> i, done |-> FALSE]
Next == /\ ~m.done
        /\ LET v == Judge(Runs[m.c]) IN PrintT(IF v = "" THEN "OK " \o ToString(m.c) ELSE "BAD " \o ToString(m.c) \o " " \o v)
        /\ m' = [m EXCEPT !.done = TRUE]
Spec == Init /\ [][Next]_m
=============================================================================
