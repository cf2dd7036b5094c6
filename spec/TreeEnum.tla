------------------------------ MODULE TreeEnum ------------------------------
(* Enumerates every tree of at most MAXN nodes: a state is a tree, a step     *)
(* appends a leaf as last child of a node on the rightmost branch, so that    *)
(* every tree is reached on exactly one path.  Every tree is printed.         *)
EXTENDS Tree, TLC, Json, IOUtils
MAXN == atoi(IOEnv.MAXN)
NAMES == IF IOEnv.NAMES = "1" THEN {"a"} ELSE IF IOEnv.NAMES = "2" THEN {"a", "b"} ELSE {"a", "b", ":c"}
TEXTS == IF IOEnv.TEXTS = "1" THEN {<<"x">>} ELSE IF IOEnv.TEXTS = "2" THEN {<<>>, <<"x">>}
         ELSE {<<>>, <<"x">>, <<"x", "y">>}
VARIABLE t
Leaf(n, x) == [n |-> n, l |-> TRUE, t |-> x, c |-> <<>>, a |-> <<>>]
RECURSIVE Rightmost(_)
Rightmost(s) == {<<>>} \cup (IF s.c = <<>> THEN {} ELSE {<<Len(s.c)>> \o p : p \in Rightmost(s.c[Len(s.c)])})
Init == t \in {Leaf(n, x) : n \in NAMES, x \in TEXTS} /\ PrintT(<<"GEN", ToJson(t)>>)
Add(s, p, lf) == LET u == Sub(s, p)
                 IN Put(s, p, [u EXCEPT !.c = Append(@, lf), !.l = FALSE])
Empty == IF IOEnv.TEXTS = "1" THEN <<"x">> ELSE <<>>
Next == /\ Len(Addrs(t)) < MAXN
        /\ \E p \in Rightmost(t), n \in NAMES, x \in TEXTS :
              /\ Sub(t, p).l => Sub(t, p).t = Empty   \* a branch has no text of its own
              /\ t' = LET s == IF Sub(t, p).l THEN Put(t, p, [Sub(t, p) EXCEPT !.t = <<>>]) ELSE t
                      IN Add(s, p, Leaf(n, x))
        /\ PrintT(<<"GEN", ToJson(t')>>)
=============================================================================
