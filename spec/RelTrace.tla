------------------------------ MODULE RelTrace ------------------------------
(* Pairs of recorded runs, checked against Relations.                        *)
EXTENDS Relations, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)      \* the pairs: rel, a, b, and x: a text for the relation

VARIABLE i, done
Holds(p) ==
  CASE p.rel = "roundtrip" -> RoundTrip(p.a, p.b)
    [] p.rel = "again" -> SameMessage(p.a, p.b)
    [] p.rel = "same" -> SameRun(p.a, p.b)
    [] p.rel = "cut" -> CutShort(p.a, p.b)
    [] p.rel = "noroom" -> NoRoom(p.a, p.b)
    [] p.rel = "justroom" -> JustRoom(p.a, p.b)
    [] p.rel = "refused" -> RefusedAt(p.a, p.b)
    [] p.rel = "flip" -> Detected(p.a, p.b)
    [] p.rel = "inside" -> SameInside(p.a, p.b, p.x, p.y)

Init == i \in 1..Len(Runs) /\ done = 0
Next == /\ done = 0 /\ done' = 1 /\ i' = i
        /\ PrintT(IF Holds(Runs[i]) THEN "OK " \o ToString(i) ELSE "BAD " \o ToString(i) \o " the runs are not related as " \o Runs[i].rel)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
