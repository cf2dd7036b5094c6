---------------------------- MODULE ConfigTrace -----------------------------
(* Judges recorded histories of configuration calls of several threads; steps  *)
(* of kind "par" are calls that overlapped: there has to be some order.        *)
EXTENDS Config, Json, IOUtils, Sequences
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(s, o) == CASE o.op = "get" -> Get(s, o.t, o.k, o.v)
    [] o.op = "set" -> Set(s, o.t, o.k, o.v, o.new)
    [] o.op = "add" -> Add(s, o.t, o.k, o.v)
    [] o.op = "reset" -> Reset(s, o.t)
    [] o.op = "access" -> Access(s)
    [] o.op = "finalize" -> Finalize(s)
    [] o.op = "getpreset" -> GetPreset(s, o.k)
    [] o.op = "preset" -> SetPreset(s, o.t, o.k, o.v, o.new)
    [] o.op = "all" -> GetAll(s, o.t, {o.ks[i] : i \in 1..Len(o.ks)})
    [] o.op = "ingest" -> IngestAll(s, o.t, o.kvs)
\* results of "all" are recorded as a sequence of pairs
Same(x, o) == IF o.op = "all"
              THEN IF DOMAIN o.r = {} THEN DOMAIN x = {}
                   ELSE o.r[1][1] # "!" /\ DOMAIN x = {o.r[i][1] : i \in 1..Len(o.r)}
                        /\ \A i \in 1..Len(o.r) : x[o.r[i][1]] = o.r[i][2]
              ELSE x = o.r
\* set of states after the overlapping calls os in some order with the recorded results
RECURSIVE Orders(_, _)
Orders(S, os) == IF os = {} THEN S
    ELSE UNION {Orders({Step(s, o).s : s \in {s \in S : Same(Step(s, o).r, o)}}, os \ {o}) : o \in os}
\* history: position of the first step that no order explains
RECURSIVE Bad(_, _, _)
Bad(S, ops, i) ==
    IF i > Len(ops) THEN <<>>
    ELSE LET o == ops[i]
             N == IF o.op = "par" THEN Orders(S, {o.ops[j] : j \in 1..Len(o.ops)})
                  ELSE {Step(s, o).s : s \in {s \in S : Same(Step(s, o).r, o)}}
         IN IF N = {} THEN <<i, o.op>> ELSE Bad(N, ops, i+1)
TInit == l = 0 /\ st = State0 /\ last = <<>>
TNext == /\ l < Len(Trace)
         /\ l' = l + 1
         /\ UNCHANGED <<st, last>>
         /\ LET b == Bad({State0}, Trace[l+1].ops, 1)
            IN b = <<>> \/ PrintT(<<"BAD", l+1, {b[2]}, ToJson(b)>>)
=============================================================================
