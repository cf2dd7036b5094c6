------------------------------ MODULE Traverse ------------------------------
(* Traversal of a tree with a transformation table. nd: sequence of nodes      *)
(* [n : name, k : sequence of ids]; node 1 is the root. The table: sequence of *)
(* <<keys, items>>, an item: [f : "BC" | "BL" | "BA" (filters) | "fn",         *)
(* l : label, e : what the function does to the tree, to : new name].          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Anon(n) == n \in {"", ":d", ":Whitespace"}
Elems(q) == {q[i] : i \in 1..Len(q)}
Concat(qs) == LET f[i \in 0..Len(qs)] == IF i = 0 THEN <<>> ELSE f[i-1] \o qs[i] IN f[Len(qs)]
\* --- the table
Norm1(key) == IF key = "~" THEN ":Whitespace" ELSE key
Has(tab, key) == \E i \in 1..Len(tab) : \E j \in 1..Len(tab[i][1]) : Norm1(tab[i][1][j]) = key
Get(tab, key) == IF ~Has(tab, key) THEN <<>>
                 ELSE tab[CHOOSE i \in 1..Len(tab) : \E j \in 1..Len(tab[i][1]) : Norm1(tab[i][1][j]) = key][2]
AllKeys(tab) == Concat([i \in 1..Len(tab) |-> tab[i][1]])
Faulty(tab) == LET ks == AllKeys(tab)
               IN (IF \E i, j \in 1..Len(ks) : i < j /\ ks[i] = ks[j] THEN {"KeyError"} ELSE {})
                  \cup (IF "+" \in Elems(ks) \/ {"~", ":Whitespace"} \subseteq Elems(ks) THEN {"AssertionError"} ELSE {})
Filters(items) == SelectSeq(items, LAMBDA x : x.f # "fn")
Funs(items) == SelectSeq(items, LAMBDA x : x.f = "fn")
\* the entry for the name, lacking one that for "*"
Entry(tab, key) == IF Has(tab, key) THEN Get(tab, key) ELSE Get(tab, "*")
Blocks(tab, key) == {x.f : x \in Elems(Filters(Get(tab, "<")) \o Filters(Entry(tab, key)))}
Todo(tab, key) == Funs(Get(tab, "<")) \o Funs(Entry(tab, key)) \o Funs(Get(tab, ">"))
Visible(nd, ks, B) == IF "BC" \in B THEN <<>>
                      ELSE SelectSeq(ks, LAMBDA c : nd[c].k # <<>> \/ ~("BL" \in B \/ ("BA" \in B /\ Anon(nd[c].n))))
\* the key is the name of the node or (custom key function) one for its kind
Key(kf, nd, x) == CASE kf = "name" -> nd[x].n
                    [] kf = "kind" -> IF nd[x].k = <<>> THEN "leaf" ELSE "branch"
\* --- what functions do
Index(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
Effect(nd, path, it) ==
    LET x == path[Len(path)]
        p == IF Len(path) > 1 THEN path[Len(path)-1] ELSE 0
        inp == p # 0 /\ x \in Elems(nd[p].k)
        i == Index(nd[p].k, x)
        K == nd[p].k
    IN CASE it.e = "none" -> nd
         [] it.e = "rename" -> [nd EXCEPT ![x].n = it.to]
         [] it.e = "renext" -> IF inp /\ i < Len(K) THEN [nd EXCEPT ![K[i+1]].n = it.to] ELSE nd
         [] it.e = "dropnext" -> IF inp /\ i < Len(K) THEN [nd EXCEPT ![p].k = SelectSeq(K, LAMBDA c : c # K[i+1])] ELSE nd
         [] it.e = "empty" -> IF p # 0 THEN [nd EXCEPT ![p].k = <<>>] ELSE nd
         [] it.e = "drop" -> IF inp THEN [nd EXCEPT ![p].k = SelectSeq(K, LAMBDA c : c # x)] ELSE nd
         [] it.e = "unwrap" -> IF inp /\ nd[x].k # <<>>
                               THEN [nd EXCEPT ![p].k = SubSeq(K, 1, i-1) \o nd[x].k \o SubSeq(K, i+1, Len(K))] ELSE nd
         [] it.e = "clear" -> [nd EXCEPT ![x].k = <<>>]
         [] it.e = "wrap" -> IF nd[x].k = <<>> THEN nd
                             ELSE Append([nd EXCEPT ![x].k = <<Len(nd) + 1>>], [n |-> it.to, k |-> nd[x].k])
         [] it.e = "raise" -> nd
\* --- the traversal as a function: what has been called, with which path
RECURSIVE Visit(_, _, _, _), Each(_, _, _, _, _), Apply(_, _, _)
Apply(st, path, its) ==
    IF its = <<>> \/ st.exc # "" THEN st
    ELSE Apply([nd |-> Effect(st.nd, path, its[1]), log |-> Append(st.log, <<its[1].l, path>>),
                exc |-> IF its[1].e = "raise" THEN "AssertionError" ELSE ""], path, Tail(its))
Each(tab, kf, st, path, ks) == IF ks = <<>> \/ st.exc # "" THEN st
                               ELSE Each(tab, kf, Visit(tab, kf, st, Append(path, ks[1])), path, Tail(ks))
Visit(tab, kf, st, path) ==
    LET x == path[Len(path)]
        key == Key(kf, st.nd, x)
    IN Apply(Each(tab, kf, st, path, Visible(st.nd, st.nd[x].k, Blocks(tab, key))), path, Todo(tab, key))
Run(tab, kf, nd) ==
    IF Faulty(tab) # {} THEN [nd |-> nd, log |-> <<>>, exc |-> CHOOSE e \in Faulty(tab) : TRUE]
    ELSE LET s1 == Apply([nd |-> nd, log |-> <<>>, exc |-> ""], <<1>>, Get(tab, "<<<"))
             s2 == IF s1.exc # "" THEN s1 ELSE Visit(tab, kf, s1, <<1>>)
         IN Apply(s2, <<1>>, Get(tab, ">>>"))
Reach(nd) == LET RECURSIVE R(_) R(S) == LET T == S \cup UNION {Elems(nd[x].k) : x \in S} IN IF T = S THEN S ELSE R(T) IN R({1})

(* --- the design: the traversal as a machine with a stack of frames           *)
(* [p : path, kids : children still to be visited, todo : functions to apply]  *)
Shapes == {<< <<>> >>, << <<2>>, <<>> >>, << <<2, 3>>, <<>>, <<>> >>, << <<2>>, <<3>>, <<>> >>,
           << <<2, 3>>, <<4>>, <<>>, <<>> >>, << <<2, 3>>, <<>>, <<4>>, <<>> >>}
Fn(l, e) == [f |-> "fn", l |-> l, e |-> e, to |-> "b"]
Flt(f) == [f |-> f, l |-> "", e |-> "none", to |-> ""]
Effects == {"none", "rename", "renext", "drop", "empty", "unwrap", "clear", "wrap", "raise"}
Tabs == {<< <<keys, q1>>, << <<"b">>, q2>>, << <<"<">>, <<Fn("pre", e)>> >>, << <<">">>, <<Fn("post", "none")>> >> >> :
            keys \in {<<"a">>, <<"a", "*">>}, e \in {"none", "drop"},
            q1 \in {<<Fn("a1", x)>> : x \in Effects} \cup {<<Flt(g), Fn("a1", "none")>> : g \in {"BC", "BL", "BA"}},
            q2 \in {<<Fn("b1", "none"), Fn("b2", x)>> : x \in {"none", "renext", "unwrap", "dropnext"}}}
VARIABLES tab, start, nd, stack, log, exc
vars == <<tab, start, nd, stack, log, exc>>
Frame(nds, path) == LET key == nds[path[Len(path)]].n
                    IN [p |-> path, kids |-> Visible(nds, nds[path[Len(path)]].k, Blocks(tab, key)), todo |-> Todo(tab, key)]
Init == /\ tab \in Tabs
        /\ \E s \in Shapes : \E ns \in [1..Len(s) -> {"a", "b", ":d"}] : start = [i \in 1..Len(s) |-> [n |-> ns[i], k |-> s[i]]]
        /\ nd = start /\ log = <<>> /\ exc = "" /\ stack = <<Frame(start, <<1>>)>>
Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
Descend == /\ stack # <<>> /\ exc = "" /\ Top.kids # <<>>
           /\ stack' = Below \o <<[Top EXCEPT !.kids = Tail(@)], Frame(nd, Append(Top.p, Top.kids[1]))>>
           /\ UNCHANGED <<tab, start, nd, log, exc>>
Call == /\ stack # <<>> /\ exc = "" /\ Top.kids = <<>> /\ Top.todo # <<>>
        /\ nd' = Effect(nd, Top.p, Top.todo[1])
        /\ log' = Append(log, <<Top.todo[1].l, Top.p>>)
        /\ exc' = IF Top.todo[1].e = "raise" THEN "AssertionError" ELSE ""
        /\ stack' = Below \o <<[Top EXCEPT !.todo = Tail(@)]>>
        /\ UNCHANGED <<tab, start>>
Leave == /\ stack # <<>> /\ exc = "" /\ Top.kids = <<>> /\ Top.todo = <<>>
         /\ stack' = Below
         /\ UNCHANGED <<tab, start, nd, log, exc>>
Next == Descend \/ Call \/ Leave
Over == stack = <<>> \/ exc # ""
Same == Over => Run(tab, "name", start) = [nd |-> nd, log |-> log, exc |-> exc]
\* no function is called twice for the same node
Once == \A i, j \in 1..Len(log) : i # j => ~(log[i][1] = log[j][1] /\ log[i][2] = log[j][2])
Last(q) == q[Len(q)]
\* nothing is called for a node before its descendants are finished; the calls for one node are not interrupted
PostOrder == \A i, j \in 1..Len(log) : i < j =>
                /\ ~(Len(log[i][2]) < Len(log[j][2]) /\ SubSeq(log[j][2], 1, Len(log[i][2])) = log[i][2])
                /\ (Last(log[i][2]) = Last(log[j][2]) => \A m \in i..j : Last(log[m][2]) = Last(log[i][2]))
\* every node of the tree is visited, if nothing is blocked (and nothing raises), whatever the functions do
NoFilters == \A i \in 1..Len(tab) : Filters(tab[i][2]) = <<>>
Everybody == stack = <<>> /\ NoFilters => \A x \in Reach(start) : <<"pre", "post">> =
                LET q == SelectSeq(log, LAMBDA c : Last(c[2]) = x) IN <<q[1][1], Last(q)[1]>>
=============================================================================
