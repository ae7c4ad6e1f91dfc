-------------------------------- MODULE Image --------------------------------
(* Program images: "CNDIL", a version byte 1, the number of names (2 bytes), *)
(* the positions of the names and of the bytecode (4 bytes each), all little *)
(* endian. Each name ends with a zero byte. The bytecode reaches to the end. *)
EXTENDS Words

Signature == <<67, 78, 68, 73, 76>>
U16at(b, i) == b[i + 1] + 256 * b[i + 2]
Names(b) == U16at(b, 6)
\* a position, or one behind the image
Pos(b, i) == IF b[i + 4] > 0 THEN Len(b) + 1 ELSE b[i + 1] + 256 * b[i + 2] + 65536 * b[i + 3]
NamesAt(b) == Pos(b, 8)
CodeAt(b) == Pos(b, 12)
\* names may not reach into the bytecode that follows them
NamesEnd(b) == IF NamesAt(b) <= CodeAt(b) THEN CodeAt(b) ELSE Len(b)

RECURSIVE ZeroFrom(_, _, _)     \* index (0-based) of the next zero byte before end, or end
ZeroFrom(b, i, end) == IF i >= end \/ b[i + 1] = 0 THEN i ELSE ZeroFrom(b, i + 1, end)
RECURSIVE NameList(_, _, _, _)  \* n names from position i on; <<<<-1>>>> at the end if one is not terminated
NameList(b, i, end, n) ==
  IF n = 0 THEN <<>>
  ELSE LET z == ZeroFrom(b, i, end) IN
       IF z >= end THEN << <<-1>> >>
       ELSE << SubSeq(b, i + 1, z) >> \o NameList(b, z + 1, end, n - 1)

HeaderOk(b) == /\ Len(b) >= 16 /\ SubSeq(b, 1, 5) = Signature /\ b[6] = 1
               /\ NamesAt(b) \in 16..Len(b) /\ CodeAt(b) \in 16..Len(b)
NamesOf(b) == NameList(b, NamesAt(b), NamesEnd(b), Names(b))
Loads(b) == HeaderOk(b) /\ (Names(b) > 0 => LET n == NamesOf(b) IN n[Len(n)] # <<-1>>)
CodeOf(b) == SubSeq(b, CodeAt(b) + 1, Len(b))
\* the number of a name is that of its first occurrence
NumberOf(names, x) == CHOOSE i \in 1..Len(names) : names[i] = x /\ \A j \in 1..i-1 : names[j] # x
=============================================================================
