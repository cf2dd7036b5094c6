------------------------------ MODULE Pipeline ------------------------------
(* Junctions between stages. A junction is named by its target stage d: it     *)
(* turns the data of stage par[d] into the data of stage d. State: stages      *)
(* reached so far with their data and errors; each step applies one junction.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
\* kind[d]: what the junction does: "ok" (marks the tree), "err" (also adds an error), "fatal" (adds a fatal
\* error), "none" (yields None), "data" (marks the tree, but yields something that is not a tree),
\* "raise" (fails with an exception)
RECURSIVE Chain(_, _, _)
\* junctions leading from the sources to stage t, in order; <<"?">> if there are none
Chain(par, S, t) == IF t \in S THEN <<>>
                    ELSE IF t \notin DOMAIN par THEN <<"?">>
                    ELSE LET c == Chain(par, S, par[t]) IN IF c = <<"?">> THEN c ELSE Append(c, t)
Range(q) == {q[i] : i \in 1..Len(q)}
Reachable(par, S, t) == Chain(par, S, t) # <<"?">>
Needed(par, S, Targets) == UNION {Range(Chain(par, S, t)) : t \in Targets}
\* outcome of applying junction d of kind k to the outcome o of its source stage
\* outcomes: [marks : applied junctions, errs : <<junction, code>>.., what : "tree", "none" or "data", fatal, failed]
Outcome0(s) == [marks |-> <<>>, errs |-> <<>>, what |-> "tree", fatal |-> FALSE]
Apply(o, d, k) ==
    IF o.what = "none" THEN o                    \* nothing left to process
    ELSE CASE k = "ok" -> [o EXCEPT !.marks = Append(@, d)]
           [] k = "err" -> [o EXCEPT !.marks = Append(@, d), !.errs = Append(@, <<d, "err">>)]
           [] k = "fatal" -> [o EXCEPT !.marks = Append(@, d), !.errs = Append(@, <<d, "fatal">>), !.fatal = TRUE]
           [] k = "none" -> [o EXCEPT !.what = "none"]
           [] k = "data" -> [o EXCEPT !.marks = Append(@, d), !.what = "data"]
           [] k = "raise" -> [o EXCEPT !.what = "none", !.errs = Append(@, <<d, "crash">>), !.fatal = TRUE]
\* an exception of a junction is passed on unless it may be due to earlier errors
Raises(o, k) == o.what = "tree" /\ k = "raise" /\ o.errs = <<>>
\* junction d can be applied to outcome o: only trees can be processed
NotATree(o) == o.what = "data"
\* final outcome of stage t
RECURSIVE Fold(_, _, _)
Fold(o, c, kind) == IF c = <<>> THEN o ELSE Fold(Apply(o, c[1], kind[c[1]]), Tail(c), kind)
Value(par, kind, S, t) == Fold(Outcome0(t), Chain(par, S, t), kind)

(* --- the design: any order of applications yields the same, each junction    *)
(* is applied at most once and only if it is needed                            *)
CONSTANTS Stages, Kinds
VARIABLES par, kind, src, tgt, out, applied, stopped
vars == <<par, kind, src, tgt, out, applied, stopped>>
None == "-"
\* all forests over the stages in which a parent precedes its children (names are interchangeable)
Order == CHOOSE q \in [1..Cardinality(Stages) -> Stages] : \A i, j \in 1..Cardinality(Stages) : i # j => q[i] # q[j]
Index(s) == CHOOSE i \in 1..Cardinality(Stages) : Order[i] = s
Init == /\ \E p \in [Stages -> Stages \cup {None}] :
             /\ \A d \in Stages : (IF p[d] = None THEN TRUE ELSE Index(p[d]) < Index(d))
             /\ p[Order[1]] = None
             /\ par = [d \in {d \in Stages : p[d] # None} |-> p[d]]
        /\ kind \in [Stages -> Kinds]
        /\ src \in {S \in SUBSET Stages : S # {} /\ Cardinality(S) <= 2 /\ Order[1] \in S}
        /\ tgt \in {T \in SUBSET Stages : T # {} /\ \A t \in T : Reachable(par, src, t)}
        /\ out = [s \in src |-> Outcome0(s)]
        /\ applied = <<>>
        /\ stopped = FALSE
Step(d) == /\ ~stopped
           /\ d \in Needed(par, src, tgt) \ DOMAIN out
           /\ par[d] \in DOMAIN out
           /\ LET o == out[par[d]]
              IN IF NotATree(o) \/ Raises(o, kind[d]) THEN stopped' = TRUE /\ UNCHANGED <<out, applied>>
                 ELSE /\ ~o.fatal
                      /\ out' = [s \in DOMAIN out \cup {d} |-> IF s = d THEN Apply(o, d, kind[d]) ELSE out[s]]
                      /\ applied' = IF o.what = "none" THEN applied ELSE Append(applied, d)
                      /\ UNCHANGED stopped
           /\ UNCHANGED <<par, kind, src, tgt>>
Next == \E d \in Stages : Step(d)
Spec == Init /\ [][Next]_vars
AtMostOnce == \A i, j \in 1..Len(applied) : i # j => applied[i] # applied[j]
OnlyNeeded == Range(applied) \subseteq Needed(par, src, tgt)
Independent == \A s \in DOMAIN out : out[s] = Value(par, kind, src, s)
Complete == (~ENABLED Next /\ ~stopped) => \A t \in tgt : t \in DOMAIN out
                \/ \E i \in 1..Len(Chain(par, src, t)) : Chain(par, src, t)[i] \in DOMAIN out /\ out[Chain(par, src, t)[i]].fatal
=============================================================================
