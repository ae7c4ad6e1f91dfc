-------------------------------- MODULE LangMC --------------------------------
(* The language itself, explored: every schema of a list (read by LangRead)   *)
(* is run                                                                     *)
(*   - encoding, with a host that gives any of a few values at every          *)
(*     question, and may refuse any notification;                             *)
(*   - encoding the same into every smaller buffer;                           *)
(*   - decoding what was encoded, every part of it from the front, and with   *)
(*     a bit changed; a host may refuse any notification;                     *)
(*   - decoding every short message over a few byte values.                   *)
(* What these runs have to do with each other (Relations) is checked here, on *)
(* the specification. Every run is printed, to be replayed in the real code.  *)
(*                                                                            *)
(* A source has the protocol p it describes, the words given to questions     *)
(* (val), how many of the first questions are answered in all ways  *)
(* (ask), the length of messages made up (len); lossy = 1 if the relations   *)
(* about shortened messages do not apply (optional parts), rt = 0 if the host *)
(* gives values that the schema cannot represent.                             *)
EXTENDS ConcordiaLang, Json, IOUtils

R == INSTANCE Relations

Sources == ndJsonDeserialize(IOEnv.SOURCES)
Fine == 1..Len(Sources)
MCProtocol(x) == Sources[x.c].p

---------------------------------------------------------------------------
(* The host. x.q: the choices made so far, one for every notification; 9 is  *)
(* a refusal. A notification without a choice is answered by choice 1 and    *)
(* remembered in x.more.                                                     *)

Refusal == 9
Asks == DOMAIN TypeSize \union {"bitu", "biti", "bitb", "arr1", "arr2", "arr4", "str0", "str1", "str2", "str4", "raw"}
Questions == {"query", "load"}
Pick(x) == IF x.l < Len(x.q) THEN x.q[x.l + 1] ELSE 1

\* what the host knows about the field with this name
Told(e, k) == e.k = k /\ e.r = 0 /\ e.t \in DOMAIN TypeSize \union {"bitu", "biti", "bitb", "store", "query", "load"}
Word(e) == CASE e.t = "f32" -> F64of32(e.v) [] e.t \in {"i8", "i16", "i32"} -> SExt(e.v) [] OTHER -> ZExt(e.v)
Memory(x, k) == LET at == {i \in 1..Len(x.ev) : Told(x.ev[i], k)} IN
  IF at = {} THEN <<>> ELSE Word(x.ev[CHOOSE i \in at : \A j \in at : j <= i])

Nth(c, j) == Sources[c].val[j]
Text == <<<<>>, <<97>>, <<200, 98, 1>>, <<99, 100, 101, 102, 103>>>>
Counts == {"arrf", "arrd", "arr1", "arr2", "arr4"}
LastCount(x) == LET at == {i \in 1..Len(x.ev) : x.ev[i].t \in Counts} IN ToNat(ZExt(x.ev[CHOOSE i \in at : \A j \in at : j <= i].v))
Floats == <<FOfRatio(0, 1), FOfRatio(-3, 2), FOfRatio(100000, 1), FOfRatio(7, 1)>>
Answer(x, t, k, j) ==
  CASE t \in Questions -> IF Memory(x, k) # <<>> THEN Memory(x, k) ELSE Nth(x.c, j)
    [] t \in {"str0", "str1", "str2", "str4"} -> Text[j]
    [] t = "raw" -> [i \in 1..LastCount(x) |-> Nth(x.c, ((j + i - 2) % Len(Sources[x.c].val)) + 1)[1]]
    [] t \in {"arr1", "arr2", "arr4"} -> Low(OfNat(j - 1), IF t = "arr1" THEN 1 ELSE IF t = "arr2" THEN 2 ELSE 4)
    [] t = "f64" -> Floats[j] [] t = "f32" -> F32of64(Floats[j])
    [] t \in {"bool", "bitb"} -> <<j - 1>>
    [] t \in {"bitu", "biti"} -> Nth(x.c, j)
    [] OTHER -> Low(Nth(x.c, j), TypeSize[t])

MCHost(x, t, k, v, o) ==
  LET j == Pick(x)  no == j = Refusal IN
  [t |-> t, k |-> k, o |-> o, r |-> IF no THEN 1 ELSE 0,
   v |-> IF t \in {"arrf", "arrd"} THEN Low(OfNat(o), 4)
         ELSE IF v # <<>> THEN v
         ELSE IF t \in {"enter", "exit", "arre"} THEN <<>>
         ELSE IF x.md = 1 /\ t \notin Questions THEN <<>>           \* told where it is
         ELSE IF no THEN (IF t \in DOMAIN TypeSize THEN Zeros(TypeSize[t]) ELSE IF t \in {"bitu", "biti"} \union Questions THEN U0 ELSE IF t = "bitb" THEN <<0>>
                          ELSE IF t = "arr1" THEN <<0>> ELSE IF t = "arr2" THEN <<0, 0>> ELSE IF t = "arr4" THEN Zeros(4) ELSE <<>>)
         ELSE Answer(x, t, k, j)]
MCNote(x, e) == [x EXCEPT !.ev = Append(@, e), !.more = IF x.l > Len(x.q) /\ @ = "" THEN e.t ELSE @]
MCFinal(x) == x.buf

\* is the first notification of x without a choice, of type t, a question with several answers?
Open(x, t) == \/ x.md = 0 /\ t \in Asks
              \/ t \in Questions /\ Memory([x EXCEPT !.ev = SubSeq(@, 1, Len(x.q))], x.ev[Len(x.q) + 1].k) = <<>>
Ways(x, t) == CASE t \in {"bool", "bitb", "arr1", "arr2", "arr4"} -> 3
                [] t \in {"str0", "str1", "str2", "str4", "f32", "f64"} -> 4
                [] OTHER -> Len(Sources[x.c].val)
Alternatives(x, t) ==
  (IF ~Open(x, t) THEN {1} ELSE IF Len(x.q) < Sources[x.c].ask THEN 1..Ways(x, t) ELSE {1 + (Len(x.q) % 2)})
  \union (IF Len(x.q) < 6 /\ \A i \in 1..Len(x.q) : x.q[i] # Refusal THEN {Refusal} ELSE {})

---------------------------------------------------------------------------

MaxSteps == 2000
Fresh(c, md, buf) == Machine(c, md, buf, Sources[c].p) @@ [q |-> <<>>, ev |-> <<>>, more |-> ""]
RECURSIVE Finish(_)
Finish(x) == IF Running(x) /\ x.n < MaxSteps THEN Finish(Step(x)) ELSE x

Blank == [i \in 1..30 |-> 165]
Run(x, init) == [c |-> x.c, md |-> x.md, err |-> x.err, cur |-> x.cur, bit |-> x.bit, init |-> init, buf |-> x.buf, ev |-> x.ev]
Message(x) == R!Prefix(x.buf, R!Size(x))
Refuses(x) == \E i \in 1..Len(x.ev) : x.ev[i].r = 1
Show(x, init) == PrintT(ToJson(Run(x, init)))

(* c: the schema, ph: what is being done, m: the run, a: the run it is       *)
(* compared with, init: the buffer m began with                              *)
VARIABLES c, ph, m, a, init
vars == <<c, ph, m, a, init>>
Nothing == [err |-> -1]

Messages(n, bytes) == UNION {[1..k -> bytes] : k \in 0..n}
Init == \/ /\ c \in Fine /\ ph = "encode" /\ init = Blank
           /\ m = Fresh(c, 0, Blank) /\ a = Nothing
        \/ /\ c \in Fine /\ ph = "read" /\ a = Nothing
           /\ \E b \in Messages(Sources[c].len, {0, 1, 2, 255}) :
                /\ init = b /\ m = Finish(Fresh(c, 1, b))
           /\ Show(m, init)

Done == ~Running(m) \/ m.n >= MaxSteps
\* one item of a run with choices
Go == /\ ph \in {"encode", "decode"} /\ ~Done
      /\ LET x == Step(m) IN
         IF x.more = "" THEN m' = x ELSE \E j \in Alternatives(x, x.more) : m' = [m EXCEPT !.q = Append(@, j)]
      /\ (~Running(m') => Show(m', init))
      /\ UNCHANGED <<c, ph, a, init>>

Again(md, buf) == Finish([Fresh(c, md, buf) EXCEPT !.q = IF md = 0 THEN m.q ELSE <<>>])
Derive(name, md, buf) == /\ ph' = name /\ init' = buf /\ a' = m /\ m' = Again(md, buf) /\ Show(m', buf)
Encoded == ph = "encode" /\ Done /\ m.err = OK /\ ~Refuses(m)
Cut == Encoded /\ (\E n \in 0..(R!Size(m) - 1) : Derive("cut", 1, R!Prefix(m.buf, n))) /\ UNCHANGED c
Less == Encoded /\ (\E n \in 0..R!Size(m) : Derive("less", 0, R!Prefix(Blank, n))) /\ UNCHANGED c
Flips == LET z == 8 * R!Size(m) IN IF z <= 32 THEN 0..(z - 1) ELSE {i \in 0..(z - 1) : i % 5 = Len(m.q) % 5}
Flipped(b, i) == [b EXCEPT ![(i \div 8) + 1] = IF Bit(ZExt(<<@>>), i % 8) = 1 THEN @ - Pow2[(i % 8) + 1] ELSE @ + Pow2[(i % 8) + 1]]
Flip1 == Encoded /\ (\E i \in Flips : Derive("flip", 1, Flipped(Message(m), i))) /\ UNCHANGED c
Whole == Encoded /\ Derive("whole", 1, Message(m)) /\ UNCHANGED c
Begin == /\ Encoded /\ ph' = "decode" /\ init' = Message(m) /\ a' = Finish(Fresh(c, 1, init')) /\ m' = Fresh(c, 1, init') /\ UNCHANGED c
Next == Go \/ Cut \/ Less \/ Flip1 \/ Whole \/ Begin
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* What holds of all these runs *)

Ends == m.n < MaxSteps
Contained == /\ m.cur <= Len(m.buf) /\ m.bit \in 0..7 /\ Len(m.buf) = Len(init) /\ (m.cur < Len(m.buf) \/ m.bit = 0)
             /\ Len(m.st) <= MaxStack /\ m.bad = "" /\ m.err \in -1..8
             /\ m.md = 1 => m.buf = init
             /\ \A i \in 1..Len(m.buf) : i > m.cur + 1 => m.buf[i] = init[i]       \* nothing written ahead
\* values that fit into the narrowest bit fields
Representable(x) == \A i \in 1..Len(x.ev) :
  LET e == x.ev[i] IN CASE e.t = "bitu" -> e.v \in {U0, U1} [] e.t = "biti" -> e.v \in {U0, UNeg(U1)} [] OTHER -> TRUE
RoundTrip == ph = "whole" /\ Sources[c].rt = 1 /\ Representable(a) => R!RoundTrip(a, m)
CutShort == (ph = "cut" /\ Sources[c].lossy = 0 /\ Representable(a)) => R!CutShort(a, m)
Room0 == (ph = "less" /\ Sources[c].lossy = 0) => R!NoRoom(a, m) /\ R!JustRoom(a, m)
\* a refusal ends the run, but for strings that may be left out and blocks of bytes
Stops == (ph \in {"encode", "decode"} /\ m.more = "") =>
  \A i \in 1..Len(m.ev) : m.ev[i].r = 1 => (m.err = CALLBACK /\ i = Len(m.ev)) \/ m.ev[i].t = "raw" \/ (m.md = 0 /\ m.ev[i].t \in {"str0", "str1", "str2", "str4"})
\* up to a refusal nothing is different
AsBefore == (ph = "decode" /\ Refuses(m) /\ a.err # -1) =>
  \A i \in 1..Len(m.ev) : m.ev[i].r = 1 \/ (\E j \in 1..i : m.ev[j].r = 1) \/ (i <= Len(a.ev) /\ m.ev[i] = a.ev[i])
\* a decoded value is within the width of its field: it can be encoded again
NoSurprise == ph = "flip" /\ m.err = OK => R!Size(m) <= Len(m.buf)
=============================================================================
