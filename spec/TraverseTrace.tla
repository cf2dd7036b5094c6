--------------------------- MODULE TraverseTrace ----------------------------
(* Judges recorded traversals: all calls with their paths, the final tree.     *)
EXTENDS Traverse, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(b, x) == IF b THEN {x} ELSE {}
\* transformer() checks the stage of the tree before and sets it afterwards
Lower(x) == CASE x = "CST" -> "cst" [] x = "AST" -> "ast" [] OTHER -> x
WrongStage(r) == r.src # "" /\ r.stage0 # "" /\ Lower(r.src) # Lower(r.stage0)
Bad(r) == LET w == Run(r.tab, r.kf, r.nd)
          IN IF r.api = "transformer" /\ WrongStage(r) THEN If(r.exc # "ValueError" \/ r.log # <<>>, "wrong-stage")
             ELSE IF Faulty(r.tab) # {} THEN If(r.exc \notin Faulty(r.tab), "faulty-table")
             ELSE If(r.exc # w.exc, "exception")
                  \cup If(r.log # w.log, "calls")
                  \cup If(r.exc = "" /\ w.exc = "" /\ \E x \in Reach(w.nd) : x > Len(r.res) \/ r.res[x] # w.nd[x], "tree")
                  \cup If(r.exc = "" /\ r.back # 1, "returned-tree")
                  \cup If(r.exc = "" /\ r.stage1 # (IF r.api = "transformer" THEN r.dst ELSE r.stage0), "stage")
TInit == l = 0 /\ tab = <<>> /\ start = <<>> /\ nd = <<>> /\ stack = <<>> /\ log = <<>> /\ exc = ""
TNext == /\ l < Len(Trace)
         /\ l' = l + 1
         /\ UNCHANGED vars
         /\ LET b == Bad(Trace[l+1]) IN b = {} \/ PrintT(<<"BAD", l+1, b, ToJson(Run(Trace[l+1].tab, Trace[l+1].kf, Trace[l+1].nd))>>)
=============================================================================
