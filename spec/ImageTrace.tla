----------------------------- MODULE ImageTrace -----------------------------
(* What loading an image gave, checked against Image. A record has the image *)
(* img, the result load (0: loaded) and, if loaded, the code, the name of    *)
(* each number (namesb), the number of each of these names (ids), beyond = 1 *)
(* if numbers without a name have none, and absent, the number reported for  *)
(* a name that does not occur.                                               *)
EXTENDS Image, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)

VARIABLE i, done
Verdict(x) ==
  IF Loads(x.img) # (x.load = 0) THEN (IF x.load = 0 THEN "a broken image is loaded" ELSE "a proper image is refused")
  ELSE IF x.load # 0 THEN ""
  ELSE LET names == NamesOf(x.img) IN
       IF x.code # CodeOf(x.img) THEN "not the code of the image"
       ELSE IF x.namesb # names THEN "the names are " \o ToString(x.namesb) \o " instead of " \o ToString(names)
       ELSE IF \E j \in 1..Len(names) : x.ids[j] # NumberOf(names, names[j]) - 1 THEN "the numbers of the names are " \o ToString(x.ids)
       ELSE IF x.beyond # 1 THEN "a number without a name has one"
       ELSE IF x.absent # 65535 THEN "a name that does not occur has the number " \o ToString(x.absent)
       ELSE ""
Init == i \in 1..Len(Runs) /\ done = 0
Next == /\ done = 0 /\ done' = 1 /\ i' = i
        /\ LET v == Verdict(Runs[i]) IN PrintT(IF v = "" THEN "OK " \o ToString(i) ELSE "BAD " \o ToString(i) \o " " \o v)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
