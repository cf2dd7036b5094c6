---------------------------- MODULE FactoryTrace ----------------------------
(* Judges recorded histories of factory calls: objects are numbered in the     *)
(* order in which they were first seen; calls in a "par" step overlapped (in   *)
(* different threads, hence any order gives the same results up to numbering). *)
EXTENDS Factory, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* one call o against the state: clauses that fail
Bad(st, o) ==
    LET t == o.t
        f == o.f
        have == st.inst[t, f] # None /\ st.modes[t, f] = o.mode
    IN IF o.exc # "" THEN (IF have THEN {"instance-lost"} ELSE IF ~o.raises THEN {"exception"} ELSE {})
       ELSE (IF o.tag # o.want THEN {"wrong-product"} ELSE {})
            \cup (IF have /\ o.obj # st.inst[t, f] THEN {"other-instance"} ELSE {})
            \cup (IF ~have /\ o.obj \in st.made THEN {"shared-instance"} ELSE {})
            \cup (IF o.ran >= 0 /\ o.ran # (IF have THEN 0 ELSE 1) THEN {"constructor-runs"} ELSE {})
            \cup (IF ~have /\ o.raises THEN {"exception-swallowed"} ELSE {})
Step(st, o) ==
    CASE o.op = "call" -> Call(st, o.t, o.f, o.mode, o.exc # "", o.obj).st
      [] o.op = "die" -> Die(st, o.t)
      [] o.op = "drop" -> Drop(st, o.f)
      [] o.op = "new" -> st
Failing(st, o) == CASE o.op = "call" -> Bad(st, o)
                    [] o.op = "new" -> IF o.exc # "" THEN {"no-factory"} ELSE {}
                    [] OTHER -> {}
RECURSIVE Judge(_, _, _)
Judge(st, ops, i) ==
    IF i > Len(ops) THEN [bad |-> {}, i |-> 0]
    ELSE LET b == Failing(st, ops[i])
         IN IF b # {} THEN [bad |-> b, i |-> i] ELSE Judge(Step(st, ops[i]), ops, i+1)
TInit == l = 0 /\ s = <<>> /\ got = <<>>
TNext == /\ l < Len(Trace)
         /\ l' = l + 1
         /\ UNCHANGED vars
         /\ LET r == Trace[l+1]
                T == {r.threads[i] : i \in 1..Len(r.threads)}
                F == {r.facts[i] : i \in 1..Len(r.facts)}
                j == Judge(Start(T, F), r.ops, 1)
            IN j.bad = {} \/ PrintT(<<"BAD", l+1, j.bad, ToJson(j.i)>>)
=============================================================================
