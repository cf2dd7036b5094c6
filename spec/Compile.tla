------------------------------ MODULE Compile -------------------------------
(* What compiling a tree with a class of compilation methods does: the events  *)
(* (calls of methods with the path of nodes) and the result; what processing a *)
(* tree and compiling a source do in the presence of errors.                   *)
(* Trees: [id, name, kids (sequence), attrs (sequence of names)].              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
N(x) == [t |-> "node", v |-> x]
\* C: the class: [meth : name -> kind of method, wild : BOOLEAN (a method for all other nodes), avis : set of
\*    attributes with visitors, araise : those whose visitors fail, allownone : BOOLEAN]
Kind(C, name) == IF name \in DOMAIN C.meth THEN C.meth[name] ELSE IF C.wild THEN "wild" ELSE "generic"
\* state of a run: [log, fins (stack of node ids), exc, left (calls of compile() until it is cancelled)]
NewNode(n) == [id |-> n.id, name |-> "NEW", kids |-> <<>>, attrs |-> <<>>]
RECURSIVE Visit(_, _, _, _), Kids(_, _, _, _, _, _), AttrVisits(_, _, _, _, _)
AttrVisits(C, n, path, as, s) ==
    IF as = <<>> \/ s.exc # "" THEN s
    ELSE AttrVisits(C, n, path, Tail(as),
                    IF as[1] \in C.avis THEN [s EXCEPT !.log = Append(@, <<"attr", as[1], Append(path, n.id)>>),
                                            !.exc = IF as[1] \in C.araise THEN "Boom" ELSE ""] ELSE s)
\* compile the children ks one after the other; strict: the results have to be nodes (or nothing)
\* result: [s, kids: children (changed in place), rets: what was returned for each of them]
Kids(C, ks, path, s, strict, acc) ==
    IF ks = <<>> \/ s.exc # "" THEN [s |-> s, kids |-> acc.kids \o ks, rets |-> acc.rets]
    ELSE LET x == Visit(C, ks[1], path, s)
             s2 == IF x.s.exc = "" /\ strict /\ x.ret.t = "text" THEN [x.s EXCEPT !.exc = "TypeError"] ELSE x.s
         IN Kids(C, Tail(ks), path, s2, strict, [kids |-> Append(acc.kids, x.self), rets |-> Append(acc.rets, x.ret)])
\* visit node n; result: [s, self : the node as changed in place, ret]
Visit(C, n, path, s) ==
    IF s.left = 0 THEN [s |-> [s EXCEPT !.exc = "Cancel"], self |-> n, ret |-> N(n)]
    ELSE LET s0 == IF s.left > 0 THEN [s EXCEPT !.left = @ - 1] ELSE s
             k == Kind(C, n.name)
             p == Append(path, n.id)
             s1 == IF k = "generic" THEN s0
                   ELSE [s0 EXCEPT !.log = Append(@, <<IF k = "wild" THEN "wildcard" ELSE "on_" \o n.name, "", p>>)]
             fall == LET y == Kids(C, n.kids, p, IF k = "fin" THEN [s1 EXCEPT !.fins = Append(@, n.id)] ELSE s1, TRUE,
                                   [kids |-> <<>>, rets |-> <<>>])
                         kept == SelectSeq(y.rets, LAMBDA r : r.t = "node")
                         n2 == [n EXCEPT !.kids = IF y.s.exc # "" THEN y.kids ELSE [i \in 1..Len(kept) |-> kept[i].v]]
                     IN [s |-> y.s, self |-> n2, ret |-> N(n2)]
             some == LET y == Kids(C, [i \in 1..Len(n.kids) |-> n.kids[Len(n.kids) + 1 - i]], p, s1, FALSE,
                                   [kids |-> <<>>, rets |-> <<>>])
                         n2 == [n EXCEPT !.kids = [i \in 1..Len(n.kids) |-> y.kids[Len(n.kids) + 1 - i]]]
                     IN [s |-> y.s, self |-> n2, ret |-> N(n2)]
             r == CASE k \in {"generic", "wild", "fallback", "fin"} -> fall
                    [] k = "kids" -> some
                    [] k = "self" -> [s |-> s1, self |-> n, ret |-> N(n)]
                    [] k = "new" -> [s |-> s1, self |-> n, ret |-> N(NewNode(n))]
                    [] k = "empty" -> [s |-> s1, self |-> n, ret |-> [t |-> "empty"]]
                    [] k = "none" -> [s |-> s1, self |-> n, ret |-> [t |-> "none"]]
                    [] k = "text" -> [s |-> s1, self |-> n, ret |-> [t |-> "text"]]
                    [] k = "raise" -> [s |-> [s1 EXCEPT !.exc = "Boom"], self |-> n, ret |-> N(n)]
             s3 == IF r.s.exc # "" THEN r.s ELSE AttrVisits(C, n, path, n.attrs, r.s)
             s4 == IF s3.exc = "" /\ r.ret.t = "none" /\ ~C.allownone THEN [s3 EXCEPT !.exc = "CompilerError"] ELSE s3
         IN [s |-> s4, self |-> r.self, ret |-> r.ret]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
\* one call of a compiler object: preparation, visits, finalizers (last in, first out), finalization
Run(C, tree, cancel) ==
    LET x == Visit(C, tree, <<>>, [log |-> <<<<"prepare", "", <<>>>>>>, fins |-> <<>>, exc |-> "", left |-> cancel])
        f == Rev(x.s.fins)
    IN IF x.s.exc = "Cancel" THEN [log |-> x.s.log, exc |-> "", ret |-> [t |-> "none"], cancelled |-> TRUE]
       ELSE IF x.s.exc # "" THEN [log |-> x.s.log, exc |-> x.s.exc, ret |-> [t |-> "none"], cancelled |-> FALSE]
       ELSE [log |-> x.s.log \o [i \in 1..Len(f) |-> <<"fin", "", <<f[i]>>>>] \o <<<<"finalize", "", <<>>>>>>,
             exc |-> "", ret |-> x.ret, cancelled |-> FALSE]

\* --- Node.evaluate: nested tuples <<name of the action, arguments>>
RECURSIVE Eval(_, _)
Args(T, n) == IF n.kids = <<>> THEN <<<<"text", n.text>>>> ELSE [i \in 1..Len(n.kids) |-> Eval(T, n.kids[i])]
Eval(T, n) == <<IF n.name \in T THEN n.name ELSE "*", Args(T, n)>>
RECURSIVE Names(_)
Names(n) == {n.name} \cup UNION {Names(n.kids[i]) : i \in 1..Len(n.kids)}

\* --- stages of a compilation. flag: highest error level so far: 0 none, 1 warning, 2 error, 3 fatal error
\* a stage: [do : "ok", "raise", "none", add : level of the error it adds (0: none)]
Max(a, b) == IF a > b THEN a ELSE b
\* processing a tree: [ran, exc, result, flag]
Process(flag, st) ==
    IF flag = 3 THEN [ran |-> FALSE, exc |-> FALSE, result |-> FALSE, flag |-> 3]
    ELSE IF st.do = "raise"       \* exceptions may be due to earlier errors
         THEN (IF flag = 2 THEN [ran |-> TRUE, exc |-> FALSE, result |-> FALSE, flag |-> 3]
               ELSE [ran |-> TRUE, exc |-> TRUE, result |-> FALSE, flag |-> Max(flag, st.add)])
    ELSE [ran |-> TRUE, exc |-> FALSE, result |-> st.do = "ok", flag |-> Max(flag, st.add)]
\* compiling a source: pre, parse (only adds errors), trans, comp; keep: preserve the AST; cancel: number of
\* queries that are answered with "no" before one is answered with "yes" (-1: never)
\* result: [ran : sequence of the stages run, exc, result, ast, flag, cancelled]
Source(x) ==
    LET R(ran, exc, res, ast, flag, can) == [ran |-> ran, exc |-> exc, result |-> res, ast |-> ast, flag |-> flag, cancelled |-> can]
        q(i) == x.cancel >= 0 /\ i > x.cancel          \* is the i-th query answered with "yes"?
        f1 == x.pre.add
    IN IF x.pre.do = "raise" THEN R(<<"pre">>, TRUE, FALSE, FALSE, f1, FALSE)
       ELSE IF f1 = 3 THEN R(<<"pre">>, FALSE, FALSE, FALSE, 3, FALSE)
       ELSE LET f2 == Max(f1, x.parse.add)
            IN IF f2 = 3 THEN R(<<"pre", "parse">>, FALSE, FALSE, FALSE, 3, FALSE)
               ELSE IF q(1) THEN R(<<"pre", "parse">>, FALSE, FALSE, FALSE, 3, TRUE)
               ELSE LET t == Process(f2, x.trans)
                    IN IF t.exc THEN R(<<"pre", "parse", "trans">>, TRUE, FALSE, FALSE, t.flag, FALSE)
                       ELSE IF t.flag = 3 THEN R(<<"pre", "parse", "trans">>, FALSE, FALSE, FALSE, 3, FALSE)
                       ELSE IF q(2) THEN R(<<"pre", "parse", "trans">>, FALSE, FALSE, FALSE, 3, TRUE)
                       ELSE LET c == Process(t.flag, x.comp)
                            IN R(<<"pre", "parse", "trans", "comp">>, c.exc, c.result, x.keep, c.flag, FALSE)

(* --- the design: what the result of compiling a source tells, for all stages *)
VARIABLE sc
Stage(D) == [do : D, add : 0..3]
Init == sc \in [pre : Stage({"ok"}), parse : Stage({"ok"}), trans : Stage({"ok", "raise"}),
               comp : Stage({"ok", "raise", "none"}), keep : BOOLEAN, cancel : {-1, 0, 1}]
Next == UNCHANGED sc
NoSilentFailure == LET r == Source(sc) IN (~r.exc /\ ~r.result) => r.flag = 3 \/ sc.comp.do = "none"
FatalStops == LET r == Source(sc) IN r.flag = 3 /\ Len(r.ran) < 4 => ~r.result
NotAfterFatal == LET r == Source(sc) IN \A i \in 1..Len(r.ran) :
                    LET before == CASE i = 1 -> 0 [] i = 2 -> sc.pre.add [] i = 3 -> Max(sc.pre.add, sc.parse.add)
                                    [] i = 4 -> Max(Max(sc.pre.add, sc.parse.add), sc.trans.add)
                    IN before < 3
=============================================================================
