------------------------------ MODULE JsonTrace ------------------------------
(* Recorded uses of cnd encode and cnd decode. A record has the number of    *)
(* the schema s (0: no readable image), md (0 = encode, 1 = decode), the     *)
(* document doc given or written, the message msg written or given, rc (the  *)
(* exit status), out (1 if a result file was written), hex (1 for decode     *)
(* --hex), sink (0 if there is no place for the result), room: enough bytes  *)
(* for any message this document may stand for.                              *)
EXTENDS JsonHost, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)
Schemas == ndJsonDeserialize(IOEnv.SCHEMAS)
Protocols == [i \in 1..Len(Schemas) |-> IF Schemas[i].use = 1 THEN S!Elaborate(Schemas[i]) ELSE 0]

TraceFinal(m) == LET b == Runs[m.c].msg IN b \o Zeros(Len(m.buf) - (IF Len(b) > Len(m.buf) THEN Len(m.buf) ELSE Len(b)))
TraceProtocol(m) == Protocols[Runs[m.c].s]

Roomy(r) == IF r.rc = 0 THEN Len(r.msg) + 20 ELSE r.room

\* strings with zero characters cannot be handed over by this host
RECURSIVE Zeroed(_)
Zeroed(x) == CASE x.t = "str" -> \E i \in 1..Len(x.b) : x.b[i] = 0
               [] x.t \in {"arr", "obj"} -> \E i \in 1..Len(x.v) : Zeroed(x.v[i])
               [] OTHER -> FALSE
\* what cannot even be started
Unusable(r) == r.s = 0 \/ r.sink = 0 \/ (r.md = 0 /\ (r.doc.t # "obj" \/ Zeroed(r.doc)))

Begin(i, len, pass) == LET r == Runs[i]  bad == Unusable(r) IN
  [Machine(i, r.md, IF r.md = 0 THEN Zeros(IF bad THEN 0 ELSE len) ELSE r.msg, IF r.s = 0 THEN [root |-> 0, un |-> 0, en |-> 0] ELSE Protocols[r.s])
    EXCEPT !.err = IF bad THEN CALLBACK ELSE @]
    @@ Host0(IF r.md = 0 THEN r.doc ELSE [t |-> "obj", k |-> <<>>, v |-> <<>>]) @@ [pass |-> pass]

VARIABLE m
Verdict(x) ==
  LET r == Runs[x.c] IN
  IF r.rc = 0 /\ r.out = 0 THEN "success without a result file"
  ELSE IF r.rc # 0 /\ r.out = 1 THEN "failure with a result file"
  ELSE IF x.err \in {-1, ANY} /\ x.bad = "" THEN ""
  ELSE IF r.rc # 0 THEN IF x.bad # "" \/ x.err # OK THEN "" ELSE "refused although the schema describes it"
  ELSE IF x.bad # "" THEN x.bad
  ELSE IF x.err # OK THEN "accepted although the result is " \o ToString(x.err)
  ELSE IF x.md = 0
  THEN LET len == x.cur + (IF x.bit > 0 THEN 1 ELSE 0) IN
       IF SubSeq(x.buf, 1, len) # r.msg THEN "the message is " \o ToString(r.msg) \o " instead of " \o ToString(SubSeq(x.buf, 1, len)) ELSE ""
  ELSE IF ~Same(x.js[1].node, r.doc, r.hex = 1) THEN "the document is " \o ToString(r.doc) \o " instead of " \o ToString(x.js[1].node)
  ELSE ""

MaxSteps == 3000
Report(x) == LET v == Verdict(x) IN
  PrintT(IF v = "" THEN "OK " \o ToString(x.c) \o (IF x.err \in {-1, ANY} THEN " " ELSE "") ELSE "BAD " \o ToString(x.c) \o " " \o v)

Init == /\ \E i \in 1..Len(Runs) : m = Begin(i, Roomy(Runs[i]), 1)
        /\ Running(m) \/ Report(m)
Next == /\ Running(m) /\ m.n < MaxSteps
        /\ m' = LET x == Step(m) IN
                IF x.err = CALLBACK /\ x.end # <<>> /\ x.pass = 1 THEN Begin(x.c, x.end[1], 2) ELSE x
        /\ (Running(m') /\ m'.n < MaxSteps) \/ Report(m')
Spec == Init /\ [][Next]_m

Bounded == /\ m.cur <= Len(m.buf) /\ m.bit \in 0..7
           /\ Len(m.js) >= 1 /\ (m.err = OK => Len(m.js) = 1)
=============================================================================
