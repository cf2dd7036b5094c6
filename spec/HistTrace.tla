----------------------------- MODULE HistTrace -----------------------------
(* What the parsing history says. A record: g a grammar with its text (see    *)
(* Peg), names the symbols of the grammar (name -> parser), h the history: of *)
(* each entry stack <<name or "", location>>.., ok whether a match is claimed,*)
(* len its length, rest the text claimed to follow, line, col, back if it is *)
(* about a lookbehind (then the text is that before); o the outcome, plain that without a history.    *)
(* An entry is a claim about the grammar and the text, which has to be true,  *)
(* whatever led to it: memoization, backtracking, lookahead.                  *)
EXTENDS Peg, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Named(r) == {r.names[j].p : j \in DOMAIN r.names}
ParserOf(r, n) == LET S == {j \in DOMAIN r.names : r.names[j].n = n} IN IF S = {} THEN 0 ELSE r.names[CHOOSE j \in S : TRUE].p
\* symbols that p calls without calling another symbol in between
RECURSIVE Calls(_, _, _)
Calls(r, todo, seen) ==
    IF todo = {} THEN seen
    ELSE LET q == CHOOSE q \in todo : TRUE
         IN IF q \in Named(r) THEN Calls(r, todo \ {q}, seen \cup {q})
            ELSE Calls(r, (todo \ {q}) \cup Range(r.g.N[q].as), seen)
CalledBy(r, p) == Calls(r, Range(r.g.N[p].as), {})
\* line and column of a location
Line(x, i) == Cardinality({j \in 1..i : x[j] = "\n"}) + 1
Col(x, i) == LET S == {j \in 1..i : x[j] = "\n"} IN i - (IF S = {} THEN 0 ELSE CHOOSE m \in S : \A k \in S : k <= m) + 1
Entry(r, e) ==
    LET x == r.g.x
        st == SelectSeq([j \in DOMAIN e.stack |-> <<ParserOf(r, e.stack[j][1]), e.stack[j][2]>>], LAMBDA c : c[1] # 0)
        last == e.stack[Len(e.stack)]
        p == ParserOf(r, last[1])
        i == last[2]
    IN \* the calls are calls of the grammar
       (IF st # <<>> /\ st[1][1] # r.g.start THEN {"not-from-the-start-symbol"} ELSE {})
       \cup (IF \E j \in 1..(Len(st) - 1) : st[j+1][1] \notin CalledBy(r, st[j][1]) \/ st[j+1][2] < st[j][2]
             THEN {"impossible-call"} ELSE {})
       \* the place
       \cup (IF e.line # Line(x, i) \/ e.col # Col(x, i) THEN {"line-and-column"} ELSE {})
       \* what has been matched
       \cup (IF e.ok /\ e.text # Seg(r.g, i, i + e.len) THEN {"matched-text"} ELSE {})
       \cup (IF ~e.back /\ e.rest # Seg(r.g, i + (IF e.ok THEN e.len ELSE 0), Len(x)) THEN {"remaining-text"} ELSE {})
       \cup (IF p = 0 THEN {}
             ELSE LET v == Ev(r.g, p, i, [rec |-> <<>>], S0)
                  IN IF v.k \notin {"ok", "no"} THEN {}
                     ELSE IF e.ok # (v.k = "ok") THEN {IF e.ok THEN "match-that-is-none" ELSE "failure-that-is-none"}
                     ELSE IF e.ok /\ i + e.len # v.i THEN {"length"} ELSE {})
Verdict(r) ==
    IF r.o.exc # "" THEN {"exception " \o r.o.exc}
    ELSE \* recording changes nothing, except that failing lookaheads at the end are told (1045) from other failures
         (IF r.o # r.plain /\ ~\E j \in DOMAIN r.o.errs : r.o.errs[j][2] = 1045 THEN {"tracing-changes-result"} ELSE {})
         \cup UNION {Entry(r, r.h[j]) : j \in DOMAIN r.h}
         \* a text that does not match is reported as a failure, one that matches as a match from its beginning to its end
         \cup (IF r.o.kind = "none" /\ ~r.faulty /\ ~\E j \in DOMAIN r.h : ~r.h[j].ok THEN {"unreported-failure"} ELSE {})
         \cup (IF r.o.kind = "full" /\ r.o.tree.n # "ZOMBIE__" /\ r.g.x # <<>> /\ ~\E j \in DOMAIN r.h : r.h[j].ok /\ r.h[j].len = Len(r.g.x)
                                         /\ ParserOf(r, r.h[j].stack[Len(r.h[j].stack)][1]) = r.g.start
               THEN {"unreported-match"} ELSE {})
TInit == l = 0
TNext == /\ l < Len(Trace) /\ l' = l + 1
         /\ LET b == Verdict(Trace[l+1]) IN b = {} \/ PrintT(<<"BAD", l+1, b>>)
=============================================================================
