---------------------------- MODULE InspectTrace ----------------------------
(* Listings of images, checked against Inspect line by line. A record has    *)
(* the image img, the exit code rc, head = 1 if a header was printed, with   *)
(* ver, count, names_at and code_at, the names (byte sequences, numbered     *)
(* from 0 on) and the lines.                                                 *)
(* Only for images the loader takes, up to where the bytecode stops being    *)
(* sound, the listing is determined; any other image only has to be answered *)
(* (rc), with no listing and a failure if it does not even have a header.    *)
EXTENDS Inspect, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)

NoHost(m, t, k, v, o) == 0
NoNote(m, e) == m
NoBuf(m) == <<>>
NoProg(m) == <<>>

VARIABLE c, r, n, b     \* the record, the reader, lines compared so far, the verdict ("" while comparing)
vars == <<c, r, n, b>>
X == Runs[c]
Code == CodeOf(X.img)

HasHeader(i) == Len(i) >= 16 /\ SubSeq(i, 1, 5) = Signature
Offset4(i, at) == SubSeq(i, at + 1, at + 4)
Opening(x) ==
  IF ~HasHeader(x.img) THEN (IF x.rc = 1 /\ x.head = 0 THEN "skip" ELSE "a file that is no image is not refused")
  ELSE IF x.head = 0 THEN "there is no header"
  ELSE IF x.ver # x.img[6] \/ x.count # Names(x.img) THEN "the header is " \o ToString(<<x.ver, x.count>>)
  ELSE IF x.names_at # Offset4(x.img, 8) \/ x.code_at # Offset4(x.img, 12) THEN "the header is " \o ToString(<<x.names_at, x.code_at>>)
  ELSE IF ~Loads(x.img) THEN "skip"
  ELSE IF x.rc # 0 THEN "fails on a proper image"
  ELSE IF x.names # NamesOf(x.img) THEN "the names are " \o ToString(x.names) \o " instead of " \o ToString(NamesOf(x.img))
  ELSE ""

Report(v) == PrintT(IF v = "skip" \/ v = "end" THEN "OK " \o ToString(c) ELSE "BAD " \o ToString(c) \o " " \o v)
End(v) == b' = v /\ Report(v) /\ UNCHANGED <<c, r, n>>

Init == c \in 1..Len(Runs) /\ r = Reader /\ n = -1 /\ b = ""
Start == /\ n = -1
         /\ LET h == Opening(X) IN IF h = "" THEN n' = 0 /\ UNCHANGED <<c, r, b>> ELSE End(h)
\* the next step of the reader: behind the end, over a table or an instruction
Walk == /\ n >= 0
        /\ LET s == Read(Code, r)
               table == \E t \in r.tb : t[1] = r.ip IN
           IF s.v = "sound" THEN End(IF Len(X.lines) = n THEN "end" ELSE "there are further lines: " \o ToString(X.lines[n + 1]))
           ELSE IF s.v # "" THEN End("skip")
           ELSE IF table THEN r' = s /\ UNCHANGED <<c, n, b>>
           ELSE IF Len(X.lines) = n THEN End("the listing ends before " \o ToString(Line(Code, r.ip)))
           ELSE IF ~SameLine(Code, r.ip, X.lines[n + 1]) THEN End(ToString(X.lines[n + 1]) \o " instead of " \o ToString(Line(Code, r.ip)))
           ELSE r' = s /\ n' = n + 1 /\ UNCHANGED <<c, b>>
Next == b = "" /\ (Start \/ Walk)
Spec == Init /\ [][Next]_vars

\* every instruction has a name, and is listed once
Bounded == n <= Len(X.lines)
Named == n >= 0 /\ r.v = "" /\ r.ip < Len(Code) /\ ~(\E t \in r.tb : t[1] = r.ip) /\ InstrLen(Code, r.ip) > 0 => OpName[At(Code, r.ip)] # ""
=============================================================================
