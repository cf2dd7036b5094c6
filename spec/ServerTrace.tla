------------------------------ MODULE ServerTrace ------------------------------
(* Judges conversations with the real server.  A record: msgs (what the client   *)
(* sends, with its size in bytes), strict, steps: feed n bytes | open a gate |   *)
(* eof | connect (the next connection; its bytes start at message `at`) - with   *)
(* the answers and questions that were written until the server waited again,    *)
(* and whether it has closed its side.  mode "end": only the sum is judged.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l, c, sent, answers, asked
S == INSTANCE Server WITH Ids <- {}, Max <- 0, Strict <- TRUE
Trace == ndJsonDeserialize(IOEnv.TRACE)
Num(s, x) == Cardinality({j \in DOMAIN s : s[j] = x})
Same(s, t) == Len(s) = Len(t) /\ \A j \in DOMAIN s : Num(s, s[j]) = Num(t, s[j])
\* the messages that are complete when `got` bytes of this connection have arrived
RECURSIVE Take(_, _, _, _)
Take(rec, x, n, avail) ==                \* x state with answers so far, n next message, avail bytes beyond the messages taken
    IF n > Len(rec.msgs) \/ rec.msgs[n].size > avail THEN [x |-> x, n |-> n, avail |-> avail]
    ELSE LET r == S!Recv(x.c, rec.msgs[n], rec.strict)
         IN Take(rec, [c |-> r.c, out |-> x.out \o r.out, ask |-> x.ask \o r.ask], n + 1, avail - rec.msgs[n].size)
RECURSIVE Play(_, _, _, _, _, _)
\* y what is still to be judged: answers and questions of earlier steps
Play(rec, i, st, n, avail, y) ==
    IF i > Len(rec.steps) THEN <<>>
    ELSE LET p == rec.steps[i]
             nothing == [c |-> st, out |-> <<>>, ask |-> <<>>]
             t == CASE p.op = "feed" -> Take(rec, nothing, n, avail + p.n)
                    [] p.op = "open" -> [x |-> S!Finish(st, p.gate), n |-> n, avail |-> avail]
                    [] p.op = "eof" -> [x |-> [nothing EXCEPT !.c.eof = TRUE], n |-> n, avail |-> 0]
                    [] OTHER -> [x |-> [nothing EXCEPT !.c = S!Fresh], n |-> p.at, avail |-> 0]
             out == y.out \o t.x.out
             ask == y.ask \o t.x.ask
             next == Play(rec, i+1, t.x.c, t.n, t.avail, IF p.judged THEN [out |-> <<>>, ask |-> <<>>] ELSE [out |-> out, ask |-> ask])
         IN IF ~p.judged THEN next
            ELSE CASE p.crashed # "" -> <<"crashed", i, p.crashed>>
                   [] ~Same(out, p.out) -> <<"answers", i, out>>
                   [] ~Same(ask, p.ask) -> <<"questions", i, ask>>
                   [] S!Closed(t.x.c) # p.closed -> <<"closed", i, S!Closed(t.x.c)>>
                   [] OTHER -> next
Verdict(rec) == Play(rec, 1, S!Fresh, 1, 0, [out |-> <<>>, ask |-> <<>>])
TInit == l = 0 /\ c = <<>> /\ sent = <<>> /\ answers = <<>> /\ asked = 0
TNext == /\ l < Len(Trace)
         /\ l' = l + 1 /\ UNCHANGED <<c, sent, answers, asked>>
         /\ LET v == Verdict(Trace[l+1]) IN v = <<>> \/ PrintT(<<"BAD", l+1, {v[1]}, ToJson(<<v[2], v[3]>>)>>)
===============================================================================
