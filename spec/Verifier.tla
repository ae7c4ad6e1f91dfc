------------------------------ MODULE Verifier ------------------------------
(* Structurally sound programs. The program is read instruction by           *)
(* instruction; jump tables, which lie between instructions, are stepped     *)
(* over. A reader r has r.ip, the tables r.tb still ahead (start and end)    *)
(* and r.v: "" while reading, else "sound", "unsound" or "any" (too many     *)
(* tables pending at once to be followed).                                   *)
EXTENDS ConcordiaVM, FiniteSets

MaxTables == 64
Inside(p, base, off) ==    \* base + off, a signed 4-byte offset, in the program or at its end
  LET neg == off[4] >= 128
      mag == ToNat(IF neg THEN Low(UNeg(SExt(off)), 4) ELSE off)
      t == IF neg THEN base - mag ELSE base + mag
  IN t >= 0 /\ t <= Len(p)

TargetsOk(p, i, t) ==      \* the targets of the switch at i, with the table t
  LET base == i + 7 IN
  IF At(p, i) = 81
  THEN /\ Inside(p, base, Rd(p, t[1] + 2, 4))
       /\ \A j \in 0..(ToNat(Rd(p, t[1], 2)) - 1) : Inside(p, base, Rd(p, t[1] + 6 + 12 * j + 8, 4))
  ELSE /\ Inside(p, base, Rd(p, t[1] + 16, 4))
       /\ \A j \in 0..((t[2] - t[1] - 20) \div 4 - 1) : Inside(p, base, Rd(p, t[1] + 20 + 4 * j, 4))

Reader == [ip |-> 0, tb |-> {}, v |-> ""]
Max(s) == CHOOSE x \in s : \A y \in s : y <= x
Read(p, r) ==
  IF r.ip >= Len(p) THEN [r EXCEPT !.v = "sound"]
  ELSE LET here == {t[2] : t \in {t \in r.tb : t[1] = r.ip}}
           ahead == {t \in r.tb : t[1] > r.ip}
           i == r.ip  n == InstrLen(p, i)  op == At(p, i) IN
       IF here # {} THEN [r EXCEPT !.ip = Max(here), !.tb = ahead]
       ELSE IF n = 0 \/ n > Len(p) - i THEN [r EXCEPT !.v = "unsound"]
       ELSE IF op \in {80, 82}      \* jumps
       THEN IF Inside(p, i + 5, Rd(p, i + 1, 4)) THEN [r EXCEPT !.ip = i + n, !.tb = ahead] ELSE [r EXCEPT !.v = "unsound"]
       ELSE IF op \in {81, 83}      \* switches
       THEN LET t == SwitchTable(p, i) IN
            IF Cardinality(ahead) >= MaxTables THEN [r EXCEPT !.v = "any"]
            ELSE IF t # <<>> /\ TargetsOk(p, i, t) THEN [r EXCEPT !.ip = i + n, !.tb = ahead \union {t}]
            ELSE [r EXCEPT !.v = "unsound"]
       ELSE [r EXCEPT !.ip = i + n, !.tb = ahead]
=============================================================================
