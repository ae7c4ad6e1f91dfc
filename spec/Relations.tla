------------------------------ MODULE Relations ------------------------------
(* What two complete runs have to do with each other. A run r has r.md,      *)
(* r.err, r.cur, r.bit, r.buf and r.ev, its notifications.                   *)
EXTENDS Words

ROK == 0  ROOB == 1  RCALLBACK == 4
Size(r) == r.cur + (IF r.bit > 0 THEN 1 ELSE 0)
Prefix(s, n) == SubSeq(s, 1, n)
HeadOf(b, n) == IF n >= Len(b) THEN b ELSE SubSeq(b, 1, n)

\* the content of notification e: what a decoder points at is compared by what is there
Str(t) == t \in {"str0", "str1", "str2", "str4"}
SameContent(e, d, buf) ==
  /\ e.t = d.t /\ e.k = d.k
  /\ IF (Str(e.t) \/ e.t = "raw") /\ d.o >= 0
     THEN /\ d.o + Len(e.v) <= Len(buf) /\ SubSeq(buf, d.o + 1, d.o + Len(e.v)) = e.v
          /\ e.t = "str0" => d.o + Len(e.v) < Len(buf) /\ buf[d.o + Len(e.v) + 1] = 0
          /\ e.t \in {"str1", "str2", "str4"} => d.o + Len(e.v) <= Len(buf)
     ELSE e.v = d.v

(* Decoding what was encoded: everything encoded is reported again, in order.*)
(* A decoder reports constants too, which an encoder does not ask for.       *)
Asked(e) == {<<e.ev[i].t, e.ev[i].k>> : i \in 1..Len(e.ev)}
RoundTrip(e, d) ==
  e.err = ROK =>
    /\ d.err = ROK
    /\ d.cur = e.cur /\ d.bit = e.bit
    /\ LET asked == Asked(e)
           dv == SelectSeq(d.ev, LAMBDA x : <<x.t, x.k>> \in asked) IN
       /\ Len(dv) = Len(e.ev)
       /\ \A i \in 1..Len(dv) : SameContent(e.ev[i], dv[i], d.buf)

\* encoding the same values again gives the same message
SameMessage(a, b) == a.err = ROK => b.err = ROK /\ Size(a) = Size(b) /\ HeadOf(a.buf, Size(a)) = HeadOf(b.buf, Size(b))

\* the same run
SameRun(a, b) == /\ a.err = b.err /\ a.buf = b.buf /\ a.ev = b.ev
                 /\ a.err = ROK => a.cur = b.cur /\ a.bit = b.bit

\* a message, and a part of it that is shorter
CutShort(whole, part) == (whole.err = ROK /\ Len(part.buf) < Size(whole)) => part.err = ROOB
\* a message, and encoding the same into less room
NoRoom(whole, less) == (whole.err = ROK /\ Len(less.buf) < Size(whole)) => less.err = ROOB
\* ... exactly as much room
JustRoom(whole, b) == (whole.err = ROK /\ Len(b.buf) = Size(whole)) => b.err = ROK /\ b.buf = HeadOf(whole.buf, Size(whole))

(* The same run, but for the host refusing the last notification (other than *)
(* a block of bytes or a string, which may be declined).                     *)
RefusedAt(full, part) ==
  LET n == Len(part.ev) IN
  (n >= 1 /\ part.ev[n].r = 1 /\ \A i \in 1..n-1 : part.ev[i].r = 0) =>
    /\ n <= Len(full.ev)
    /\ \A i \in 1..n-1 : part.ev[i] = full.ev[i]
    /\ part.ev[n].t = full.ev[n].t /\ part.ev[n].k = full.ev[n].k
    /\ part.err = RCALLBACK \/ (part.md = 0 /\ Str(part.ev[n].t))    \* an optional string may be left out

\* a corrupted copy of a message with a check sum
Detected(whole, corrupt) == (whole.err = ROK /\ corrupt.buf # HeadOf(whole.buf, Size(whole))) => corrupt.err # ROK

\* the same values under longer names, between the notifications about entering and leaving
Inner(ev, px) == LET s == SelectSeq(ev, LAMBDA x : x.t \notin {"enter", "exit"}) IN
  [i \in 1..Len(s) |-> [t |-> s[i].t, k |-> IF s[i].k = "" THEN "" ELSE px \o s[i].k, v |-> s[i].v, o |-> s[i].o, r |-> s[i].r]]
SameInside(a, b, pa, pb) == /\ a.err = b.err /\ a.buf = b.buf /\ Inner(a.ev, pa) = Inner(b.ev, pb)
                            /\ a.err = ROK => a.cur = b.cur /\ a.bit = b.bit
=============================================================================
