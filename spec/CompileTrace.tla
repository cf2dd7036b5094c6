---------------------------- MODULE CompileTrace ----------------------------
(* Judges recordings: "hist": calls of one compiler object; "eval": evaluation *)
(* of a tree; "src": compilation of a source; "proc": processing of a tree     *)
EXTENDS Compile, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(b, y) == IF b THEN {y} ELSE {}
Range(q) == {q[i] : i \in 1..Len(q)}
Class(c) == [meth |-> [n \in {c.meth[i][1] : i \in 1..Len(c.meth)} |->
                        (CHOOSE m \in Range(c.meth) : m[1] = n)[2]],
             wild |-> c.wild, avis |-> Range(c.avis), araise |-> Range(c.araise), allownone |-> c.allownone]
RECURSIVE Shape(_)
Shape(n) == <<n.name, [i \in 1..Len(n.kids) |-> Shape(n.kids[i])]>>
CallBad(C, o) ==
    LET r == Run(C, o.tree, o.cancel)
    IN If(o.log # r.log, "events")
       \cup If(o.exc # r.exc, "exception")
       \cup If(r.exc = "" /\ o.ret.t # r.ret.t, "result")
       \cup (IF r.exc = "" /\ o.ret.t = "node" /\ r.ret.t = "node"
             THEN If(o.ret.v # Shape(r.ret.v), "result-tree") ELSE {})
       \cup If(r.exc = "" /\ o.cancelled # r.cancelled, "cancellation")
RECURSIVE HistBad(_, _, _)
HistBad(C, ops, i) == IF i > Len(ops) THEN [b |-> {}, i |-> 0]
                      ELSE LET b == CallBad(C, ops[i]) IN IF b # {} THEN [b |-> b, i |-> i] ELSE HistBad(C, ops, i+1)
\* --- evaluation; values as nested <<name, args>>; a missing action is an error
EvalBad(r) == LET T == Range(r.table)
              IN IF "*" \in T \/ Names(r.tree) \subseteq T
                 THEN If(r.exc # "", "exception") \cup If(r.exc = "" /\ r.val # Eval(T, r.tree), "value")
                      \cup If(r.exc = "" /\ r.pval # Eval(T, r.tree), "value-with-path")
                      \cup If(r.exc = "" /\ ~r.pathok, "path")
                 ELSE If(r.exc # "KeyError", "missing-action")
\* --- compilation of a source
Places(text, pos) == LET B == {i \in 1..pos : text[i] = "\n"}
                     IN <<Cardinality(B) + 1, pos - (IF B = {} THEN 0 ELSE CHOOSE i \in B : \A j \in B : j <= i) + 1>>
SrcBad(r) ==
    LET s == Source(r.x)
        m == r.msgs
    IN If(r.ran # s.ran, "stages")
       \cup If(r.exc # s.exc, "exception")
       \cup (IF s.exc \/ r.exc THEN {}
             ELSE If(r.result # s.result, "result")
                  \cup If(r.ast # s.ast, "ast")
                  \cup If(r.ast /\ ~r.astok, "ast-changed")
                  \cup If(r.flag # s.flag, "error-level")
                  \cup If(r.cancelled # s.cancelled, "cancellation")
                  \cup If(\E i \in 1..(Len(m)-1) : m[i].pos > m[i+1].pos, "order-of-messages")
                  \cup If(\E i \in 1..Len(m) : <<m[i].line, m[i].col>> # Places(r.text, m[i].pos), "location")
                  \cup If(\E i \in 1..Len(r.added) : Cardinality({j \in 1..Len(m) : m[j].code = r.added[i][1]
                             /\ m[j].pos = r.added[i][2]}) # 1, "message-missing")
                  \cup If(\E j \in 1..Len(m) : m[j].code \notin {10100, 10300, 10600}
                             /\ <<m[j].code, m[j].pos>> \notin Range(r.added), "message-invented"))
ProcBad(r) == LET p == Process(r.flag, r.st)
              IN If(r.ran # p.ran, "stages") \cup If(r.exc # p.exc, "exception")
                 \cup If(~p.exc /\ r.result # p.result, "result") \cup If(r.after # p.flag, "error-level")
TInit == l = 0 /\ sc = <<>>
TNext == /\ l < Len(Trace)
         /\ l' = l + 1
         /\ UNCHANGED sc
         /\ LET r == Trace[l+1]
            IN CASE r.kind = "hist" -> (LET h == HistBad(Class(r.cls), r.ops, 1)
                                       IN h.b = {} \/ PrintT(<<"BAD", l+1, h.b,
                                              ToJson(<<h.i, Run(Class(r.cls), r.ops[h.i].tree, r.ops[h.i].cancel)>>)>>))
                 [] r.kind = "eval" -> (LET b == EvalBad(r) IN b = {} \/ PrintT(<<"BAD", l+1, b>>))
                 [] r.kind = "src" -> (LET b == SrcBad(r) IN b = {} \/ PrintT(<<"BAD", l+1, b, ToJson(Source(r.x))>>))
                 [] r.kind = "proc" -> (LET b == ProcBad(r) IN b = {} \/ PrintT(<<"BAD", l+1, b, ToJson(Process(r.flag, r.st))>>))
=============================================================================
