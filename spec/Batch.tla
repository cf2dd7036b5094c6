------------------------------- MODULE Batch -------------------------------
(* Batch-processing. Files 1..N wait in a queue, workers take files from the  *)
(* queue and finish them in any order; a collector takes over the results in  *)
(* the order of the file names; a request to cancel may arrive at any time.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Kinds == {"none", "note", "warn", "err", "fatal"}
Level == [none |-> 0, note |-> 1, warn |-> 2, err |-> 3, fatal |-> 4]
\* the kind of the file of messages: "" if there are none
Log(level) == IF level = 0 THEN "" ELSE IF level >= 3 THEN "ERRORS" ELSE "WARNINGS"
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

CONSTANTS N, Workers
VARIABLES worst, state, written, i, ret, log, cancel, phase
vars == <<worst, state, written, i, ret, log, cancel, phase>>
Files == 1..N
Init == /\ worst \in [Files -> {0, 2, 3}]
        /\ state = [f \in Files |-> "queued"] /\ written = [f \in Files |-> 0]
        /\ i = 0 /\ ret = <<>> /\ log = <<>> /\ cancel = FALSE /\ phase = "collect"
Start(f) == /\ state[f] = "queued" /\ phase # "returned"
            /\ Cardinality({g \in Files : state[g] = "running"}) < Workers
            /\ \A g \in 1..(f - 1) : state[g] # "queued"        \* first come, first served
            /\ state' = [state EXCEPT ![f] = "running"]
            /\ UNCHANGED <<worst, written, i, ret, log, cancel, phase>>
Finish(f) == /\ state[f] = "running"
             /\ state' = [state EXCEPT ![f] = "done"] /\ written' = [written EXCEPT ![f] = @ + 1]
             /\ UNCHANGED <<worst, i, ret, log, cancel, phase>>
Collect == /\ phase = "collect" /\ i < N /\ state[i + 1] = "done"
           /\ i' = i + 1
           /\ log' = Append(log, <<i + 1, Log(worst[i + 1])>>)
           /\ ret' = IF worst[i + 1] > 0 THEN Append(ret, i + 1) ELSE ret
           /\ UNCHANGED <<worst, state, written, cancel, phase>>
\* the request is noticed before the next result is taken over
Leave == /\ phase = "collect" /\ (cancel \/ i = N)
         /\ phase' = "wait"
         /\ state' = [f \in Files |-> IF state[f] = "queued" THEN "dropped" ELSE state[f]]
         /\ UNCHANGED <<worst, written, i, ret, log, cancel>>
Return == /\ phase = "wait" /\ \A f \in Files : state[f] # "running"
          /\ phase' = "returned" /\ UNCHANGED <<worst, state, written, i, ret, log, cancel>>
Cancel == /\ ~cancel /\ cancel' = TRUE /\ UNCHANGED <<worst, state, written, i, ret, log, phase>>
Next == (\E f \in Files : Start(f) \/ Finish(f)) \/ Collect \/ Leave \/ Return \/ Cancel
Spec == Init /\ [][Next]_vars /\ WF_vars(\E f \in Files : Start(f) \/ Finish(f)) /\ WF_vars(Collect)
        /\ WF_vars(Leave) /\ WF_vars(Return)
WithMessages(k) == SelectSeq([j \in 1..k |-> j], LAMBDA f : worst[f] > 0)
InOrder == ret = WithMessages(i) /\ log = [j \in 1..i |-> <<j, Log(worst[j])>>]
Once == \A f \in Files : written[f] = (IF state[f] = "done" THEN 1 ELSE 0)
NothingRuns == phase = "returned" => \A f \in Files : state[f] \in {"done", "dropped"}
AllDone == (phase = "returned" /\ ~cancel) => i = N /\ \A f \in Files : state[f] = "done"
Collected == \A f \in 1..i : state[f] = "done"
Ends == <>(phase = "returned")

(* --- one file: which stages are run, which messages there are, what is written *)
\* Par[s] the stage s is made from, Branch order irrelevant
Par == [AST |-> "CST", xml |-> "AST", txt |-> "AST", top |-> "xml"]
Stages == {"AST", "xml", "txt", "top"}
RECURSIVE Line(_)
Line(s) == IF s = "CST" THEN {} ELSE {s} \cup Line(Par[s])
Needed(T) == UNION {Line(t) : t \in T}
Range(q) == {q[j] : j \in 1..Len(q)}
\* a file: pre (the preprocessor fails), w words in order [t text, st stage, kd kind, l line, c column]
\* up to the place at (el, ec) where parsing stops (el = 0: nowhere)
Here(f, s) == {j \in 1..Len(f.w) : f.w[j].st = s}
FatalIn(f, s) == \E j \in Here(f, s) : f.w[j].kd = "fatal"
\* stages that may be reached: none of the stages before has failed fatally
Open(f, T) == IF f.pre THEN {} ELSE {s \in Needed(T) : \A p \in Line(s) \ {s} : ~FatalIn(f, p)}
\* the stages that are run, R: all, or - where there are fatal errors - some up to the first fatal error
Runs(f, T) == LET O == Open(f, T)
                  X == {s \in O : FatalIn(f, s)}
              IN IF X = {} THEN {O}
                 ELSE {R \in SUBSET O : Cardinality(R \cap X) = 1 /\ \A s \in R : Line(s) \subseteq R}
Msgs(f, R) == IF f.pre THEN {<<1, 1, "fatal", "pre:fatal">>}
              ELSE {<<f.w[j].l, f.w[j].c, f.w[j].kd, f.w[j].st \o ":" \o f.w[j].kd>> : j \in UNION {Here(f, s) : s \in R}}
                   \cup (IF f.el > 0 THEN {<<f.el, f.ec, "err", "?">>} ELSE {})
Written(f, T, R) == {t \in T \cap R : ~FatalIn(f, t)}
Trees == {"AST", "xml"}
Root == [AST |-> "doc", xml |-> "x"]
Ext(s) == IF s \in {"sxpr", "default", "S-expression"} THEN "sxpr" ELSE IF s = "XML" THEN "xml" ELSE s
\* ser: serializations asked for, per stage; "*" for all other stages
Sers(ser, t) == IF t \in DOMAIN ser THEN Range(ser[t]) ELSE IF "*" \in DOMAIN ser THEN Range(ser["*"]) ELSE {"default"}
Names(f, T, R, ser) == {<<t, "">> : t \in Written(f, T, R) \ Trees}
                       \cup UNION {{<<t, Ext(s)>> : s \in Sers(ser, t)} : t \in Written(f, T, R) \cap Trees}
\* the worst message does not depend on R
Worst(f, T) == LET R == CHOOSE R \in Runs(f, T) : TRUE IN Max({Level[m[3]] : m \in Msgs(f, R)})
=============================================================================
