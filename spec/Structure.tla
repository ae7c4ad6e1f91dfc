------------------------------ MODULE Structure ------------------------------
(* Programs whose control flow is structured: every jump leads forward, to   *)
(* an instruction at the same nesting depth of arrays within the same array  *)
(* body (or to the end of the innermost body), and array bodies are closed   *)
(* in order. Such a program ends after at most Weight steps, whatever the    *)
(* message and the host (see TermMC, where this is checked on ConcordiaVM).  *)
(*                                                                           *)
(* A reader s has ip, the tables tb still ahead, the depth d, the jumps pd   *)
(* pending (targets, with the depth they are to be found at) and v.          *)
EXTENDS Verifier, SequencesExt

Forward(base, off) == IF off[4] >= 128 THEN -1 ELSE base + ToNat(off)

\* the targets of the instruction at i; <<-1>> stands for a backward one
Targets(p, i) ==
  LET op == At(p, i) IN
  IF op \in {80, 82} THEN {Forward(i + 5, Rd(p, i + 1, 4))}
  ELSE IF op = 81
  THEN LET t == SwitchTable(p, i)[1] IN
       {Forward(i + 7, Rd(p, t + 2, 4))} \union {Forward(i + 7, Rd(p, t + 6 + 12 * j + 8, 4)) : j \in 0..(ToNat(Rd(p, t, 2)) - 1)}
  ELSE IF op = 83
  THEN LET t == SwitchTable(p, i) IN
       {Forward(i + 7, Rd(p, t[1] + 16, 4))} \union {Forward(i + 7, Rd(p, t[1] + 20 + 4 * j, 4)) : j \in 0..((t[2] - t[1] - 20) \div 4 - 1)}
  ELSE {}

Depths == [ip |-> 0, tb |-> {}, d |-> 0, pd |-> {}, v |-> ""]
No(s, w) == [s EXCEPT !.v = w]
Walk(p, s) ==
  LET i == s.ip
      here == {t[2] : t \in {t \in s.tb : t[1] = i}}
      ahead == {t \in s.tb : t[1] > i}
      late == {x \in s.pd : x[1] > i} IN
  IF \E x \in s.pd : x[1] < i THEN No(s, "a jump leads into the middle of an instruction")
  ELSE IF \E x \in s.pd : x[1] = i /\ x[2] # s.d THEN No(s, "a jump leads into or out of an array")
  ELSE IF i >= Len(p) THEN No(s, IF s.d = 0 THEN "structured" ELSE "an array is not closed")
  ELSE IF here # {} /\ \E x \in s.pd : x[1] = i THEN No(s, "a jump leads into a table")
  ELSE IF here # {} THEN [s EXCEPT !.ip = Max(here), !.tb = ahead, !.pd = late]
  ELSE LET n == InstrLen(p, i)  op == At(p, i) IN
       IF n = 0 \/ n > Len(p) - i THEN No(s, "not a program")
       ELSE IF op \in {81, 83} /\ SwitchTable(p, i) = <<>> THEN No(s, "not a program")
       ELSE LET T == Targets(p, i)
                d1 == IF op \in ArrOps THEN s.d + 1 ELSE IF op = 56 THEN s.d - 1 ELSE s.d IN
            IF -1 \in T THEN No(s, "a jump leads back")
            ELSE IF d1 < 0 THEN No(s, "an array is closed that is not open")
            ELSE IF d1 < s.d /\ \E x \in late : x[2] > d1 THEN No(s, "a jump leads out of an array")
            ELSE [s EXCEPT !.ip = i + n, !.d = d1, !.pd = late \union {<<t, s.d>> : t \in T},
                           !.tb = IF op \in {81, 83} THEN ahead \union {SwitchTable(p, i)} ELSE ahead]

RECURSIVE WalkAll(_, _)
WalkAll(p, s) == IF s.v # "" THEN s.v ELSE WalkAll(p, Walk(p, s))
Structured(p) == WalkAll(p, Depths) = "structured"

\* An upper bound for the number of steps: an instruction inside of arrays runs
\* once for every element; an array read to the end of data has at most as many
\* elements as there are bytes left, and one that makes no progress.
RECURSIVE WeightFrom(_, _, _, _, _)
WeightFrom(p, i, mult, most, len) ==      \* mult: how often each open array may run its body, a sequence
  IF i >= Len(p) THEN 0
  ELSE LET n == InstrLen(p, i)  op == At(p, i)
           times == FoldLeft(LAMBDA a, x : a * x, 1, mult)
           m1 == IF op \in ArrOps THEN Append(mult, IF op = 58 THEN len + 1
                                                    ELSE IF op = 52 THEN IF ToNat(Rd(p, i + 3, 4)) > most THEN ToNat(Rd(p, i + 3, 4)) ELSE most
                                                    ELSE most)
                 ELSE IF op = 56 THEN SubSeq(mult, 1, Len(mult) - 1) ELSE mult
           nx == IF op \in {81, 83} THEN SwitchTable(p, i)[2] ELSE i + n IN
       IF n = 0 THEN 0 ELSE times + WeightFrom(p, nx, m1, most, len)
Weight(p, most, len) == WeightFrom(p, 0, <<>>, most, len)
=============================================================================
