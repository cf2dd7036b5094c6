-------------------------------- MODULE Server --------------------------------
(* One connection of a language server: requests, notifications and responses   *)
(* of the client in any order, functions that finish in any order (and may ask  *)
(* the client something first), the life-cycle, and the end of the connection.  *)
(* A message: kind, id (as text), method, res (what its function will yield),   *)
(* how ("now", "later" when gate opens, "ask" when the client has answered n)   *)
EXTENDS Naturals, Sequences, FiniteSets
Fresh == [init |-> "", down |-> FALSE, alive |-> TRUE, eof |-> FALSE, open |-> {}, asks |-> {}, kept |-> {}]
Null == "Rnull"
No(c) == [c |-> c, out |-> <<>>, ask |-> <<>>]
Ans(c, id, res) == [c |-> c, out |-> <<[id |-> id, res |-> res]>>, ask |-> <<>>]
\* answers go to requests only
Say(c, m, res) == IF m.kind = "request" THEN Ans(c, m.id, res) ELSE No(c)
InUse(c, id) == \E t \in c.open \cup c.asks : t.kind = "request" /\ t.id = id
\* the life-cycle: what a method does to the connection, and the error if it comes at the wrong time
Verify(c, method, strict) ==
    CASE method = "initialize" -> IF c.init # "" \/ c.down THEN <<c, "E-32002">> ELSE <<[c EXCEPT !.init = "initializing"], "">>
      [] method = "initialized" -> IF c.init = "initializing" THEN <<[c EXCEPT !.init = "initialized"], "">> ELSE <<c, "E-32002">>
      [] method = "shutdown" -> <<[c EXCEPT !.init = "", !.down = TRUE], "">>
      [] method = "exit" -> <<[c EXCEPT !.alive = FALSE], "">>
      [] strict /\ c.down -> <<c, "E-32600">>
      [] strict /\ c.init # "initialized" -> <<c, "E-32002">>
      [] OTHER -> <<c, "">>
Task(m) == [kind |-> m.kind, id |-> m.id, gate |-> m.gate, n |-> m.n, res |-> m.res]
Kept(c, n) == {k \in c.kept : k[1] = n}
Recv(c, m, strict) ==
    IF ~c.alive THEN No(c)
    ELSE CASE m.kind = "broken" -> Ans(c, m.id, m.res)            \* no (valid) message at all
           [] m.kind = "plain" -> Ans(c, "plain", m.res)           \* not json-rpc
           [] m.kind = "response" ->
                IF c.init = "" THEN No(c)
                ELSE IF \E t \in c.asks : t.n = m.n
                THEN LET t == CHOOSE t \in c.asks : t.n = m.n
                     IN Say([c EXCEPT !.asks = @ \ {t}], t, m.res)
                ELSE No([c EXCEPT !.kept = @ \cup {<<m.n, m.res>>}])
           [] OTHER -> LET v == Verify(c, m.method, strict)
                           d == v[1]
                       IN IF m.kind = "request" /\ InUse(c, m.id) THEN Say(c, m, "E-32600")
                          ELSE IF v[2] # "" THEN Say(c, m, v[2])
                          ELSE CASE m.how = "now" -> Say(d, m, m.res)
                                 [] m.how = "tell" -> [Say(d, m, m.res) EXCEPT !.ask = <<m.n>>]     \* notifies the client on the way
                                 [] m.how = "later" -> No([d EXCEPT !.open = @ \cup {Task(m)}])
                                 [] OTHER ->
                                      IF Kept(d, m.n) = {} THEN [No([d EXCEPT !.asks = @ \cup {Task(m)}]) EXCEPT !.ask = <<m.n>>]
                                      ELSE LET k == CHOOSE k \in Kept(d, m.n) : TRUE
                                           IN [Say([d EXCEPT !.kept = @ \ {k}], m, k[2]) EXCEPT !.ask = <<m.n>>]
\* a function comes to its end
Finish(c, gate) == IF \E t \in c.open : t.gate = gate
                   THEN LET t == CHOOSE t \in c.open : t.gate = gate IN Say([c EXCEPT !.open = @ \ {t}], t, t.res)
                   ELSE No(c)
Closed(c) == (c.eof \/ ~c.alive) /\ c.open = {} /\ c.asks = {}
-------------------------------------------------------------------------------
CONSTANTS Ids, Max, Strict
VARIABLES c, sent, answers, asked
vars == <<c, sent, answers, asked>>
Msg(kind, id, method, how, n) == [kind |-> kind, id |-> id, method |-> method, how |-> how, n |-> n, gate |-> id, res |-> "R" \o method]
Messages == {Msg("request", id, m, "now", 0) : id \in Ids, m \in {"initialize", "shutdown", "exit"}}
    \cup {Msg("notification", "", m, "now", 0) : m \in {"initialized", "exit", "f"}}
    \cup {Msg("request", id, "f", how, 1) : id \in Ids, how \in {"now", "later", "ask"}}
    \cup {Msg("response", "", "", "", 1), Msg("broken", "null", "", "", 0)}
Init == c = Fresh /\ sent = <<>> /\ answers = <<>> /\ asked = 0
Take(r) == c' = r.c /\ answers' = answers \o r.out /\ asked' = asked + Len(r.ask)
Next == \/ Len(sent) < Max /\ \E m \in Messages : Take(Recv(c, m, Strict)) /\ sent' = Append(sent, [m |-> m, c |-> c])
        \/ \E t \in c.open : Take(Finish(c, t.gate)) /\ UNCHANGED sent
        \/ c' = [c EXCEPT !.eof = TRUE] /\ UNCHANGED <<sent, answers, asked>>
Spec == Init /\ [][Next]_vars
Count(s, P(_)) == Cardinality({j \in DOMAIN s : P(s[j])})
\* every request that was read is either still at work or answered, and nothing else is
Once == \A id \in Ids : LET Read(x) == x.m.kind = "request" /\ x.m.id = id /\ x.c.alive
                            Mine(a) == a.id = id
                        IN Count(sent, Read) = Count(answers, Mine) + Cardinality({t \in c.open \cup c.asks : t.id = id})
Only == \A j \in DOMAIN answers : answers[j].id \in Ids \cup {"null"}
\* functions are only called between initialized and shutdown (or exit)
LifeCycle == Strict => \A j \in DOMAIN sent : LET x == sent[j]
    IN x.m.method = "f" /\ Recv(x.c, x.m, TRUE).c # x.c => x.c.init = "initialized" /\ ~x.c.down /\ x.c.alive
Over == ~c.alive /\ c.open = {} /\ c.asks = {} => Closed(c)
===============================================================================
