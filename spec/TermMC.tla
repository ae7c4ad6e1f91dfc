-------------------------------- MODULE TermMC --------------------------------
(* Why runs of structured programs end: every program of up to Items items   *)
(* is put together, and if it is structured it is run on ConcordiaVM, in     *)
(* both modes, on several messages, with a host that answers every question  *)
(* with any of the numbers 0, 1, 2 and refuses blocks of raw bytes. No run   *)
(* takes more than Weight steps, and no structured program ever executes an  *)
(* end of an array without an array being open.                              *)
EXTENDS Structure

CONSTANT Items

\* jumps lead T bytes forward; Alphabet(n): the items, jumps of up to n bytes
U8i == <<16, 0, 0>>
Bits == <<32, 0, 0, 4>>
Load(t) == <<96, 0, 0, 80, t, 0, 0, 0>>
Jump(t) == <<82, t, 0, 0, 0>>
Sw(t) == <<81, 0, 0, 0, 0, 0, 0, 1, 0, 18, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, t, 0, 0, 0>>  \* on 1: elsewhere
Simple == {U8i, Bits, <<52, 0, 0, 2, 0, 0, 0>>, <<53, 0, 0>>, <<58, 0, 0>>, <<59, 0, 0, 0, 0>>, <<56>>, <<74>>}
Lens == {0, 1, 3, 4, 5, 6, 8, 25}    \* distances that can lead to the next or the second next item
Alphabet == Simple \union {Load(t) : t \in Lens} \union {Jump(t) : t \in Lens}
            \union {Sw(t) : t \in {18, 21, 23, 26}}

Pools == {<<a, b>> : a \in 0..2, b \in 0..2}
Messages == {<<>>, <<1>>, <<2, 0>>, <<0, 1, 2>>}

TermHost(x, t, k, v, o) ==
  LET q == x.q[(x.l % Len(x.q)) + 1] IN
  [t |-> t, k |-> k, o |-> o, r |-> IF t = "raw" THEN 1 ELSE 0,
   v |-> IF t \in {"arrf", "arrd"} THEN [i \in 1..8 |-> IF i = 1 THEN o ELSE 0]
         ELSE IF v # <<>> THEN v
         ELSE IF t \in {"query", "load"} THEN [i \in 1..8 |-> IF i = 1 THEN q ELSE 0]
         ELSE <<q>>]
TermNote(x, e) == x
TermFinal(x) == x.buf
TermProg(x) == x.p

VARIABLE ph, p, n, m
vars == <<ph, p, n, m>>
Init == ph = "build" /\ p = <<>> /\ n = 0 /\ m = <<>>
Build == /\ ph = "build" /\ n < Items
         /\ \E a \in Alphabet : p' = p \o a
         /\ n' = n + 1 /\ UNCHANGED <<ph, m>>
         /\ WalkAll(p', Depths) \notin {"an array is closed that is not open", "a jump leads out of an array",
                                        "a jump leads into the middle of an instruction", "not a program"} \/ n' < Items
Start == /\ ph = "build" /\ Structured(p)
         /\ \E md \in {0, 1}, b \in Messages, q \in Pools :
              m' = [c |-> 0, md |-> md, buf |-> b, cur |-> 0, bit |-> 0, en |-> 0, tr |-> NoTr, opt |-> FALSE, miss |-> FALSE,
                    err |-> -1, l |-> 0, bad |-> "", ip |-> 0, st |-> <<>>, lp |-> <<>>, n |-> 0, q |-> q, p |-> p]
         /\ ph' = "run" /\ UNCHANGED <<p, n>>
Go == ph = "run" /\ Running(m) /\ m' = Step(m) /\ UNCHANGED <<ph, p, n>>
Next == Build \/ Start \/ Go
Spec == Init /\ [][Next]_vars

Ends == ph = "run" => m.n <= Weight(p, 2, Len(m.buf))
InOrderLoops == ph = "run" => m.err # INVALID /\ m.bad = ""
OpenLoops == ph = "run" => (m.err = OK => m.lp = <<>>)
=============================================================================
