------------------------------- MODULE LspMC -------------------------------
(* The machine of Lsp explored: a server that follows it, with every history *)
(* of up to MaxLen messages over two documents. Checked on the way:          *)
(*   TextTracked   what is current is what was opened or changed last, or    *)
(*                 the file when the document is closed                      *)
(*   OneAnswer     as many answers as requests, with the same ids            *)
(*   Explained     Explain accepts what such a server writes, and            *)
(*   OnlyThat      not with an answer lost, repeated, or two exchanged, nor  *)
(*                 with the diagnostics of another text                      *)
EXTENDS Lsp
CONSTANT MaxLen

Docs == {"a", "b"}
W0 == [texts |-> <<[c |-> <<"g">>, ok |-> 1, fmt |-> "g"], [c |-> <<"b">>, ok |-> 0, fmt |-> "b"]>>, disk |-> [d \in Docs |-> IF d = "a" THEN 1 ELSE 0], imps |-> [x \in {} |-> 0]]
Info == [t \in 1..2 |-> NoInfo]
Msg(k, m, id, d, t) == [k |-> k, m |-> m, id |-> id, d |-> d, ok |-> 1, t |-> t, line |-> 0, ch |-> 0]
None == [t |-> "none"]
Out(t, id, err, null, fmt, f, n) == [t |-> t, id |-> id, err |-> err, null |-> null, caps |-> 1, fmt |-> fmt, syms |-> <<>>, locf |-> "", locl |-> 0, hov |-> <<>>,
                                     members |-> <<>>, fields |-> <<>>, structs |-> <<>>, enums |-> <<>>, f |-> f, n |-> n]

VARIABLES s, msgs, outs, asked, last     \* asked: ids of requests; last: what the editor shows per document (0: not open)
vars == <<s, msgs, outs, asked, last>>

Alphabet == {Msg("note", "textDocument/didOpen", "", d, t) : d \in Docs, t \in 1..2} \union {Msg("note", "textDocument/didChange", "", d, t) : d \in Docs, t \in 1..2}
            \union {Msg("note", "textDocument/didClose", "", d, 0) : d \in Docs} \union {Msg("req", "textDocument/formatting", ToString(Len(msgs)), d, 0) : d \in Docs}
            \union {Msg("req", "none", ToString(Len(msgs)), "a", 0), Msg("req", "shutdown", ToString(Len(msgs)), "a", 0), Msg("note", "exit", "", "a", 0), Msg("note", "none", "", "a", 0), Msg("junk", "junk", "", "a", 0)}

\* what the server writes
Reply(m) ==
  LET t == Current(W0, Step(W0, s, m), m.d) IN
  CASE Answers(W0, s, m) = "no" -> <<>>
    [] m.k = "junk" -> <<Out("resp", "null", 1, 1, "", "", 0)>>
    [] m.k = "req" /\ m.m = "textDocument/formatting" -> <<Out("resp", m.id, 0, IF t = 0 THEN 1 ELSE 0, IF t = 0 THEN "" ELSE W0.texts[t].fmt, "", 0)>>
    [] m.k = "req" -> <<Out("resp", m.id, IF m.m \in Requests THEN 0 ELSE 1, 1, "", "", 0)>>
    [] m.m = "textDocument/didClose" -> <<>>
    [] OTHER -> <<Out("diag", "", 0, 0, "", m.d, 1 - W0.texts[t].ok)>>

Init == s = Start(W0) /\ msgs = <<>> /\ outs = <<>> /\ asked = <<>> /\ last = [d \in Docs |-> 0]
Next == /\ Len(msgs) < MaxLen
        /\ \E m \in Alphabet :
             /\ m.m = "textDocument/didChange" => last[m.d] # 0
             /\ msgs' = Append(msgs, m)
             /\ outs' = outs \o Reply(m)
             /\ s' = IF s.up THEN Step(W0, s, m) ELSE s
             /\ asked' = IF s.up /\ m.k = "req" THEN Append(asked, m.id) ELSE asked
             /\ last' = IF ~s.up THEN last ELSE IF m.m \in {"textDocument/didOpen", "textDocument/didChange"} THEN [last EXCEPT ![m.d] = m.t]
                        ELSE IF m.m = "textDocument/didClose" THEN [last EXCEPT ![m.d] = 0] ELSE last
Spec == Init /\ [][Next]_vars

W(o) == [texts |-> W0.texts, disk |-> W0.disk, imps |-> W0.imps, msgs |-> msgs, outs |-> o]
Ok(o) == Explain(W(o), Info, Start(W0)) = ""
Ids(o) == LET r == SelectSeq(o, LAMBDA x : x.t = "resp" /\ x.id # "null") IN [i \in 1..Len(r) |-> r[i].id]
Without(o, i) == SubSeq(o, 1, i - 1) \o SubSeq(o, i + 1, Len(o))

TextTracked == \A d \in Docs : Current(W0, s, d) = IF last[d] # 0 THEN last[d] ELSE W0.disk[d]
OneAnswer == Ids(outs) = asked
Explained == Ok(outs)
OnlyThat == \A i \in 1..Len(outs) :
              /\ outs[i].id # "null" => ~Ok(Without(outs, i))
              /\ outs[i].t = "resp" /\ outs[i].id # "null" => ~Ok(SubSeq(outs, 1, i) \o SubSeq(outs, i, Len(outs)))
              /\ outs[i].t = "diag" => ~Ok([outs EXCEPT ![i].n = 1 - @])
              /\ \A j \in (i + 1)..Len(outs) : outs[i].t = "resp" /\ outs[j].t = "resp" /\ outs[i].id # outs[j].id /\ outs[i].id # "null" /\ outs[j].id # "null"
                   => ~Ok([outs EXCEPT ![i] = outs[j], ![j] = outs[i]])
=============================================================================
