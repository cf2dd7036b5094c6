----------------------------- MODULE GrammarTest -----------------------------
(* Grammar tests (DHParser/testing.py): what the cases of a test-unit demand,    *)
(* and which of them must be reported.  The language under test is fixed:        *)
(*   doc = { item ";" }+   item = word [num]   look = word &num                  *)
(*   nlook = word !num     mlook = word §&num  mand = "(" §word ")"              *)
(* A text is a sequence of tokens.  Some words stand for faults of later stages: *)
(* "err" an error of the AST-transformation, "warn" only a warning, "domerr" an  *)
(* error of the next stage, "boom" an exception there.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Words, Nums, Cases, MaxCases
VARIABLES todo, done, errata, config, phase
vars == <<todo, done, errata, config, phase>>

W(x) == x \in Words
N(x) == x \in Nums
Known == {"doc", "item", "word", "num", "look", "nlook", "mlook", "mand"}
Ahead == {"look", "nlook", "mlook"}
W1(t) == Len(t) = 1 /\ W(t[1])
WN(t) == Len(t) = 2 /\ W(t[1]) /\ N(t[2])
RECURSIVE DocOk(_)
DocOk(t) == IF t = <<>> THEN TRUE
            ELSE IF Len(t) >= 2 /\ W(t[1]) /\ t[2] = ";" THEN DocOk(SubSeq(t, 3, Len(t)))
            ELSE IF Len(t) >= 3 /\ W(t[1]) /\ N(t[2]) /\ t[3] = ";" THEN DocOk(SubSeq(t, 4, Len(t)))
            ELSE FALSE
\* la: symbols are allowed to end where only a lookahead goes on
Matches(s, t, la) ==
    CASE s = "word" -> W1(t)
      [] s = "num" -> Len(t) = 1 /\ N(t[1])
      [] s = "item" -> W1(t) \/ WN(t)
      [] s = "doc" -> t # <<>> /\ DocOk(t)
      [] s = "mand" -> Len(t) = 3 /\ t[1] = "(" /\ W(t[2]) /\ t[3] = ")"
      [] s = "look" -> la /\ WN(t)
      [] s = "mlook" -> la /\ (W1(t) \/ WN(t))
      [] s = "nlook" -> W1(t)
      [] OTHER -> FALSE
\* texts for which the promised heuristics leave no doubt
Sure(s, t) == \/ s \notin Ahead
              \/ s = "look" /\ (WN(t) \/ (t # <<>> /\ ~W(t[1])))
              \/ s = "mlook" /\ (W1(t) \/ WN(t) \/ (t # <<>> /\ ~W(t[1])) \/ (Len(t) = 2 /\ t[2] = ";"))
              \/ s = "nlook" /\ (W1(t) \/ (t # <<>> /\ ~W(t[1])))

\* trees: name, children, text, (an attribute of the root)
Leaf(n, x) == [n |-> n, k |-> <<>>, x |-> x, a |-> ""]
Br(n, k) == [n |-> n, k |-> k, x |-> "", a |-> ""]
Wn(t) == IF WN(t) THEN <<Leaf("word", t[1]), Leaf("num", t[2])>> ELSE <<Leaf("word", t[1])>>
RECURSIVE DocKids(_)
DocKids(t) == IF t = <<>> THEN <<>>
              ELSE LET j == IF t[2] = ";" THEN 2 ELSE 3
                   IN <<Br("item", Wn(SubSeq(t, 1, j - 1))), Leaf(":Text", ";")>> \o DocKids(SubSeq(t, j + 1, Len(t)))
Cst(s, t) == CASE s \in {"word", "num"} -> Leaf(s, t[1])
               [] s = "item" -> Br("item", Wn(t))
               [] s = "doc" -> Br("doc", DocKids(t))
               [] s = "mand" -> Br("mand", <<Leaf(":Text", "("), Leaf("word", t[2]), Leaf(":Text", ")")>>)
               [] OTHER -> Leaf("", "")
\* the AST: anonymous nodes are left out, an item without number becomes a name
RECURSIVE Tidy(_)
Tidy(nd) == IF nd.k = <<>> THEN nd
            ELSE IF nd.n = "item" /\ Len(nd.k) = 1 THEN Leaf("name", nd.k[1].x)
            ELSE LET q == SelectSeq(nd.k, LAMBDA c : c.n # ":Text")
                 IN [nd EXCEPT !.k = [j \in DOMAIN q |-> Tidy(q[j])]]
Ast(s, t) == Tidy(Cst(s, t))
Digit(n) == <<"1", "2", "3", "4", "5", "6", "7", "8", "9">>[n]
Dom(s, t) == LET a == Ast(s, t) IN [n |-> "DOM", k |-> <<a>>, x |-> "", a |-> Digit(Len(t))]
RECURSIVE Flat(_), FlatAll(_)
FlatAll(k) == IF k = <<>> THEN "" ELSE Flat(Head(k)) \o FlatAll(Tail(k))
Flat(nd) == IF nd.k = <<>> THEN nd.x ELSE FlatAll(nd.k)
Txt(s, t) == "[" \o Flat(Ast(s, t)) \o "]"

\* what is expected: nothing, a tree, the flat text, or something that cannot be read
Holds(e, nd) == CASE e.kind = "none" -> TRUE
                  [] e.kind = "tree" -> e.t = nd
                  [] e.kind = "flat" -> e.x = Flat(nd)
                  [] OTHER -> FALSE
In(x, q) == \E j \in DOMAIN q : q[j] = x

\* c: s symbol, typ, t tokens, ws blanks at the end, cst, ast, dom, txt expectations
\* env: la, ast (is the AST made?), stages (later stages that are tested or shown)
MustReport(c, env) ==
    IF c.typ = "fail" THEN c.s \notin Known \/ (Matches(c.s, c.t, env.la) /\ ~c.ws)
    ELSE \/ ~Matches(c.s, c.t, env.la)
         \/ env.ast /\ In("err", c.t)
         \/ env.stages # {} /\ In("boom", c.t)
         \/ env.stages # {} /\ In("domerr", c.t)
         \/ ~Holds(c.cst, Cst(c.s, c.t))
         \/ ~Holds(c.ast, Ast(c.s, c.t))
         \/ ~Holds(c.dom, Dom(c.s, c.t))
         \/ c.txt.kind # "none" /\ c.txt.x # Txt(c.s, c.t)
Judged(c, env) == /\ c.s \notin Known \/ Sure(c.s, c.t)
                  /\ ~(c.s \in Ahead /\ c.ws)
                  /\ ~(c.s \in Ahead /\ In("boom", c.t) /\ env.stages # {})
                  /\ c.typ = "fail" => ~(env.ast /\ In("err", c.t))

------------------------------------------------------------------------------
(* The run of a unit: case after case, the first failing demand is reported and  *)
(* the following ones are left out; configuration values apply to the unit only. *)
None == [kind |-> "none", t |-> Leaf("", ""), x |-> ""]
Env == [la |-> config = "on", ast |-> TRUE, stages |-> {"dom"}]
Init == /\ todo \in UNION {[1..k -> Cases] : k \in 0..MaxCases}
        /\ done = <<>> /\ errata = <<>> /\ phase = "start" /\ config = "on"
Setup == phase = "start" /\ phase' = "run" /\ config' \in {"on", "off"} /\ UNCHANGED <<todo, done, errata>>
\* the steps of one case, in the order of the stages; the first objection ends it
Steps(c) == <<~Matches(c.s, c.t, Env.la), Env.ast /\ In("err", c.t), In("boom", c.t) \/ In("domerr", c.t),
              Matches(c.s, c.t, Env.la) /\ ~Holds(c.cst, Cst(c.s, c.t)), Matches(c.s, c.t, Env.la) /\ ~Holds(c.ast, Ast(c.s, c.t)),
              Matches(c.s, c.t, Env.la) /\ ~Holds(c.dom, Dom(c.s, c.t))>>
Case == /\ phase = "run" /\ todo # <<>>
        /\ LET c == Head(todo)
               bad == IF c.typ = "fail" THEN Matches(c.s, c.t, Env.la) /\ ~c.ws ELSE In(TRUE, Steps(c))
           IN errata' = IF bad THEN Append(errata, Len(done) + 1) ELSE errata
        /\ done' = Append(done, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<config, phase>>
Finish == phase = "run" /\ todo = <<>> /\ phase' = "end" /\ config' = "on" /\ UNCHANGED <<todo, done, errata>>
Next == Setup \/ Case \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* a case is reported exactly if its demands are not met, and once
Exact == \A j \in DOMAIN done : phase = "run" =>
             (Cardinality({k \in DOMAIN errata : errata[k] = j}) = IF MustReport(done[j], Env) THEN 1 ELSE 0)
\* a text cannot satisfy a match- and a fail-test alike
Opposed == \A j, k \in DOMAIN done : phase = "run" /\ done[j].typ = "match" /\ done[k].typ = "fail" /\ done[j].s = done[k].s
             /\ done[j].t = done[k].t /\ ~done[j].ws /\ ~done[k].ws => In(j, errata) \/ In(k, errata)
Restored == phase = "end" => config = "on"
All == phase = "end" => todo = <<>>
Ends == <>(phase = "end")
MkCase(s, typ, t, ws, e) == [s |-> s, typ |-> typ, t |-> t, ws |-> ws, cst |-> IF e = "cst" THEN [None EXCEPT !.kind = "flat", !.x = "ab"] ELSE None,
                   ast |-> IF e = "ast" THEN [None EXCEPT !.kind = "tree", !.t = Leaf("name", "ab")] ELSE None,
                   dom |-> IF e = "dom" THEN [None EXCEPT !.kind = "broken"] ELSE None, txt |-> None]
DCases == {MkCase(s, "match", t, FALSE, e) : s \in {"item", "mlook", "mand"}, t \in {<<"ab">>, <<"ab", "1">>, <<"err">>, <<"domerr">>, <<"(", "ab", ")">>}, e \in {"", "ast"}}
          \cup {MkCase(s, "fail", t, ws, "") : s \in {"item", "mlook"}, t \in {<<"ab">>, <<"1">>}, ws \in BOOLEAN}
          \cup {MkCase("word", "match", <<"ab">>, FALSE, e) : e \in {"cst", "dom"}}
===============================================================================
