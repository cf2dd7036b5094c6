---------------------------- MODULE PipelineTrace ---------------------------
(* Judges recorded runs of pipelines ("run") and structure functions ("shape") *)
EXTENDS Pipeline, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(b, x) == IF b THEN {x} ELSE {}
\* the log of applied junctions: after each of them the stages reached
RECURSIVE Replay(_, _, _, _)
Replay(p, k, o, log) ==      \* o: outcomes reached; result: [ok, o, raised]
    IF log = <<>> THEN [ok |-> TRUE, o |-> o]
    ELSE LET d == log[1]
         IN IF d \notin DOMAIN p \/ p[d] \notin DOMAIN o \/ d \in DOMAIN o THEN [ok |-> FALSE, o |-> o]
            ELSE Replay(p, k, [s \in DOMAIN o \cup {d} |-> IF s = d THEN Apply(o[p[d]], d, k[d]) ELSE o[s]], Tail(log))
RunBad(r) ==
    LET p == [d \in {r.js[i].d : i \in 1..Len(r.js)} |-> (CHOOSE j \in {r.js[i] : i \in 1..Len(r.js)} : j.d = d).s]
        k == [d \in {r.js[i].d : i \in 1..Len(r.js)} |-> (CHOOSE j \in {r.js[i] : i \in 1..Len(r.js)} : j.d = d).k]
        S == Range(r.src)
        T == Range(r.tgt)
        possible == \A t \in T : Reachable(p, S, t)
        need == Needed(p, S, T)
        rep == Replay(p, k, [s \in S |-> Outcome0(s)], r.log)
        val(t) == Value(p, k, S, t)
        fatals == {d \in Range(r.log) : d \in need /\ val(d).fatal}
        raising == {d \in need : \E i \in {1} : Raises(Value(p, k, S, p[d]), k[d])}
        bad == {d \in need : Value(p, k, S, p[d]).what = "data"}
        got(t) == CHOOSE x \in {r.res[i] : i \in 1..Len(r.res)} : x.t = t
        names == {r.res[i].t : i \in 1..Len(r.res)}
    IN IF ~possible THEN If(r.exc # "AssertionError", "unknown-target-accepted")
       ELSE If(\E i, j \in 1..Len(r.log) : i # j /\ r.log[i] = r.log[j], "applied-twice")
            \cup If(~(Range(r.log) \subseteq need), "not-needed")
            \cup If(~rep.ok, "order")
            \cup If(\E i \in 1..Len(r.log) : r.log[i] \in need /\ p[r.log[i]] \in need
                      /\ Value(p, k, S, p[r.log[i]]).fatal, "continued-after-fatal-error")
            \cup (IF r.exc = "" THEN {}
                  ELSE If(~(\/ r.exc = "Boom" /\ r.log # <<>> /\ r.log[Len(r.log)] \in raising
                            \/ r.exc = "ValueError" /\ bad # {}), "exception"))
            \cup (IF r.exc # "" THEN {}
                  ELSE If(Range(r.log) \cap raising # {}, "exception-swallowed")
                       \cup If(fatals = {} /\ ~(T \subseteq names), "target-missing")
                       \cup If(fatals = {} /\ \E d \in need : d \notin Range(r.log) /\ Value(p, k, S, p[d]).what = "tree",
                               "junction-not-applied")
                       \cup If(\E t \in T \cap names : LET v == val(t) IN
                                 got(t).what # v.what \/ (v.what # "none" /\ got(t).marks # v.marks), "result")
                       \cup If(\E t \in T \cap names : got(t).errs # val(t).errs, "errors"))
\* --- the shape of a set of junctions
ShapeBad(r) ==
    LET p == [d \in {r.js[i].d : i \in 1..Len(r.js)} |-> (CHOOSE j \in {r.js[i] : i \in 1..Len(r.js)} : j.d = d).s]
        srcs == {p[d] : d \in DOMAIN p}
        ends == DOMAIN p \ srcs
        origins == srcs \ DOMAIN p
        o == CHOOSE x \in origins : TRUE
        F[s \in DOMAIN p \cup srcs] ==      \* depth
            LET D == {F[d] : d \in {d \in DOMAIN p : p[d] = s}}
            IN IF D = {} THEN 1 ELSE 1 + CHOOSE m \in D : \A n \in D : n <= m
        Paths == {r.paths[i] : i \in 1..Len(r.paths)}
    IN If(Range(r.ends) # ends \/ Len(r.ends) # Cardinality(ends), "end_points")
       \cup (IF Cardinality(origins) # 1 THEN If(r.graph # <<>>, "as_graph-origin")
             ELSE If({<<r.graph[i][1], r.graph[i][2], r.graph[i][3]>> : i \in 1..Len(r.graph)}
                       # {<<d, IF d \in DOMAIN p THEN p[d] ELSE "", F[d]>> : d \in DOMAIN p \cup srcs}
                     \/ Len(r.graph) # Cardinality(DOMAIN p \cup srcs), "as_graph")
                  \cup If({x[1] : x \in Paths} # ends
                          \/ \E x \in Paths : x[2] # <<o>> \o Chain(p, {o}, x[1]), "as_paths"))
       \cup If(\E i \in 1..Len(r.conn) : LET c == Chain(p, {r.conn[i][1]}, r.conn[i][2])
                  IN r.conn[i][3] # c, "connection")
TInit == l = 0 /\ par = <<>> /\ kind = <<>> /\ src = {} /\ tgt = {} /\ out = <<>> /\ applied = <<>> /\ stopped = FALSE
TNext == /\ l < Len(Trace)
         /\ l' = l + 1
         /\ UNCHANGED vars
         /\ LET r == Trace[l+1]
                b == IF r.kind = "run" THEN RunBad(r) ELSE ShapeBad(r)
            IN b = {} \/ PrintT(<<"BAD", l+1, b>>)
=============================================================================
