----------------------------- MODULE Transform ------------------------------
(* Transformations of trees, as values. A node: [n : name, t : text (sequence  *)
(* of characters; <<>> for branches), k : children, a : attributes (sequence   *)
(* of <<key, value>>)].                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
AnonNames == {"", ":a", ":b", ":Text", ":Whitespace", ":RegExp", ":Series"}
LeafNames == {":Text", ":Whitespace", ":RegExp"}
Anon(name) == name \in AnonNames
Blank(ch) == ch \in {" ", "\n", "\t"}
Leaf(x) == x.k = <<>>
RECURSIVE Text(_), Texts(_)
Texts(ks) == IF ks = <<>> THEN <<>> ELSE Text(ks[1]) \o Texts(Tail(ks))
Text(x) == IF Leaf(x) THEN x.t ELSE Texts(x.k)
Elems(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Norm(_)
\* trees are equal, if they are the same up to the order of attributes
Norm(x) == [n |-> x.n, t |-> x.t, k |-> [i \in 1..Len(x.k) |-> Norm(x.k[i])], a |-> Elems(x.a)]
\* --- attributes
Keys(a) == {a[i][1] : i \in 1..Len(a)}
Val(a, key) == (CHOOSE p \in Elems(a) : p[1] = key)[2]
Override(a, b) == SelectSeq(a, LAMBDA p : p[1] \notin Keys(b)) \o b            \* b takes precedence
Conflict(a, b) == \E key \in Keys(a) \cap Keys(b) : Val(a, key) # Val(b, key)
Update(a, b) == a \o SelectSeq(b, LAMBDA p : p[1] \notin Keys(a))
RECURSIVE UpdateAll(_, _)
UpdateAll(a, ks) == IF ks = <<>> THEN a ELSE UpdateAll(Update(a, ks[1].a), Tail(ks))
\* --- conditions on a node (x), given as data
RECURSIVE Cond(_, _)
AllIn(t, S) == \A i \in 1..Len(t) : t[i] \in S
CMatch(p, t) ==      \* does the regular expression p match the whole text?
    CASE p = "a+" -> t # <<>> /\ AllIn(t, {"a"})
      [] p = "[ab]*" -> AllIn(t, {"a", "b"})
      [] p = "a|b" -> t \in {<<"a">>, <<"b">>}
      [] p = "\\s*" -> \A i \in 1..Len(t) : Blank(t[i])
      [] p = ".*b$" -> t # <<>> /\ t[Len(t)] = "b" /\ \A i \in 1..Len(t) : t[i] # "\n"
Cond(c, x) ==
    CASE c.c = "anon" -> Anon(x.n)
      [] c.c = "named" -> ~Anon(x.n)
      [] c.c = "anonleaf" -> Leaf(x) /\ Anon(x.n)
      [] c.c = "ws" -> \A i \in 1..Len(Text(x)) : Blank(Text(x)[i])
      [] c.c = "empty" -> Leaf(x) /\ x.t = <<>>
      [] c.c = "oneof" -> x.n \in Elems(c.s)
      [] c.c = "notoneof" -> x.n \notin Elems(c.s)
      [] c.c = "isa" -> x.n = c.s[1]
      [] c.c = "nota" -> x.n # c.s[1]
      [] c.c = "token" -> x.n = ":Text" /\ (c.s = <<>> \/ Text(x) \in Elems(c.s))
      [] c.c = "content" -> Text(x) = c.s
      [] c.c = "cmatch" -> CMatch(c.s, Text(x))
      [] c.c = "attr" -> IF c.s[1] = "" THEN x.a # <<>>
                         ELSE c.s[1] \in Keys(x.a) /\ (c.s[2] = "" \/ Val(x.a, c.s[1]) = c.s[2])
      [] c.c = "always" -> TRUE
      [] c.c = "never" -> FALSE
      [] c.c = "haschildren" -> ~Leaf(x)
      [] c.c = "neg" -> ~Cond(c.s, x)
      [] c.c = "any" -> \E d \in Elems(c.s) : Cond(d, x)
      [] c.c = "all" -> \A d \in Elems(c.s) : Cond(d, x)
\* --- conditions on a path (sequence of nodes, the last one is the one in question)
RECURSIVE Deep(_, _)
Deep(x, g) == UNION {{x.k[i].n} \cup (IF g = 1 THEN {} ELSE Deep(x.k[i], g - 1)) : i \in 1..Len(x.k)}   \* names below x
RECURSIVE DeepUntil(_, _, _, _)
\* (whether the children of the nodes where the search stops are considered is left open: more)
DeepUntil(x, g, U, more) ==
    UNION {{x.k[i].n} \cup (IF g = 1 THEN {} ELSE IF x.k[i].n \in U THEN (IF more THEN Deep(x.k[i], 1) ELSE {})
                            ELSE DeepUntil(x.k[i], g - 1, U, more)) : i \in 1..Len(x.k)}
PCond(c, p, idx, more) ==      \* idx: index of the last node among its siblings
    LET L == Len(p)
        x == p[L]
        S == Elems(c.s)
    IN CASE c.c = "ancestor" ->
              (LET stops == {i \in 1..(L-1) : p[i].n \in Elems(c.u)}
                   first == IF stops = {} THEN 1 ELSE CHOOSE i \in stops : \A j \in stops : j <= i
               IN \E i \in first..(L-1) : p[i].n \in S /\ (c.g <= 0 \/ L - i <= c.g))
         [] c.c = "parent" -> L > 1 /\ p[L-1].n \in S
         [] c.c = "descendant" -> S \cap DeepUntil(x, c.g, Elems(c.u), more) # {}
         [] c.c = "child" -> S \cap Deep(x, 1) # {}
         [] c.c = "sibling" -> L > 1 /\ \E i \in 1..Len(p[L-1].k) : i # idx /\ p[L-1].k[i].n \in S
         [] c.c = "single" -> L > 1 /\ Len(p[L-1].k) = 1
         [] OTHER -> Cond(c, x)
\* --- restructuring
ReplaceBy(x, c) == [x EXCEPT !.n = IF Anon(x.n) \/ ~Anon(c.n) THEN c.n ELSE @, !.t = c.t, !.k = c.k, !.a = Update(@, c.a)]
Reduce(x, c) == [x EXCEPT !.t = c.t, !.k = c.k, !.a = Update(@, c.a)]
Branch(x, ks) == [x EXCEPT !.k = ks, !.t = <<>>]
RECURSIVE Flatten(_, _, _), FlatKids(_, _, _, _, _)
FlatKids(ks, c, rec, acc, attrs) ==
    IF ks = <<>> THEN [k |-> acc, a |-> attrs]
    ELSE IF ~Leaf(ks[1]) /\ Cond(c, ks[1])
         THEN LET y == IF rec THEN Flatten(ks[1], c, rec) ELSE ks[1]
              IN FlatKids(Tail(ks), c, rec, acc \o y.k, Update(attrs, y.a))
         ELSE FlatKids(Tail(ks), c, rec, Append(acc, ks[1]), attrs)
Flatten(x, c, rec) == IF Leaf(x) THEN x ELSE LET f == FlatKids(x.k, c, rec, <<>>, x.a) IN [x EXCEPT !.k = f.k, !.a = f.a]
RECURSIVE AllAttrs(_), AttrsOf(_)
AttrsOf(ks) == IF ks = <<>> THEN <<>> ELSE Override(Override(ks[1].a, AllAttrs(ks[1])), AttrsOf(Tail(ks)))
AllAttrs(x) == AttrsOf(x.k)            \* attributes of all descendants, later ones take precedence
Collapse(x) == [x EXCEPT !.a = Override(@, AllAttrs(x)), !.t = Text(x), !.k = <<>>]
\* --- merging of neighbours
Longest(ks) == LET M == {i \in 1..Len(ks) : \A j \in 1..Len(ks) : Len(Text(ks[j])) < Len(Text(ks[i]))
                                                \/ (Len(Text(ks[j])) = Len(Text(ks[i])) /\ i <= j)}
               IN Text(ks[CHOOSE i \in M : TRUE])
RECURSIVE PackAttrs(_)
PackAttrs(ks) == IF ks = <<>> THEN <<>> ELSE Override(ks[1].a, PackAttrs(Tail(ks)))
Pack(ks, name, rule) == IF ks = <<>> THEN <<>>
                        ELSE <<[n |-> name, k |-> <<>>, a |-> PackAttrs(ks),
                                t |-> CASE rule = "join" -> Texts(ks) [] rule = "longest" -> Longest(ks)
                                        [] rule = "fix" -> <<"F">>]>>
\* wide: do the last of the collapsed children of a child count as adjacent to the next child?
RECURSIVE CollapseIf(_, _, _, _, _), CIKids(_, _, _, _, _, _, _), CISub(_, _, _, _, _, _)
CISub(ks, c, name, rule, pkg, acc) ==
    IF ks = <<>> THEN [pkg |-> pkg, acc |-> acc]
    ELSE IF Cond(c, ks[1]) THEN CISub(Tail(ks), c, name, rule, Append(pkg, ks[1]), acc)
    ELSE CISub(Tail(ks), c, name, rule, <<>>, Append(acc \o Pack(pkg, name, rule), ks[1]))
CIKids(ks, c, name, rule, wide, pkg, acc) ==
    IF ks = <<>> THEN acc \o Pack(pkg, name, rule)
    ELSE IF ~Cond(c, ks[1]) THEN CIKids(Tail(ks), c, name, rule, wide, <<>>, Append(acc \o Pack(pkg, name, rule), ks[1]))
    ELSE IF Leaf(ks[1]) THEN CIKids(Tail(ks), c, name, rule, wide, Append(pkg, ks[1]), acc)
    ELSE LET s == CISub(CollapseIf(ks[1], c, name, rule, wide).k, c, name, rule, pkg, acc)
         IN IF wide THEN CIKids(Tail(ks), c, name, rule, wide, s.pkg, s.acc)
            ELSE CIKids(Tail(ks), c, name, rule, wide, <<>>, s.acc \o Pack(s.pkg, name, rule))
CollapseIf(x, c, name, rule, wide) == IF Leaf(x) THEN x ELSE Branch(x, CIKids(x.k, c, name, rule, wide, <<>>, <<>>))
\* anonymous leaves next to each other are fused
RECURSIVE FuseLeaves(_)
FuseLeaves(ks) ==
    IF Len(ks) < 2 THEN ks
    ELSE IF Leaf(ks[1]) /\ Anon(ks[1].n) /\ Leaf(ks[2]) /\ Anon(ks[2].n) /\ ks[1].n # "" /\ ks[2].n # ""
         THEN FuseLeaves(<<[ks[1] EXCEPT !.t = @ \o ks[2].t]>> \o SubSeq(ks, 3, Len(ks)))
         ELSE <<ks[1]>> \o FuseLeaves(Tail(ks))
Token(t) == [n |-> ":Text", t |-> t, k |-> <<>>, a |-> <<>>]
NoCond == [c |-> "never"]
RECURSIVE Spliced(_)
Spliced(ks) == IF ks = <<>> THEN <<>> ELSE (IF Leaf(ks[1]) THEN <<Token(ks[1].t)>> ELSE ks[1].k) \o Spliced(Tail(ks))
\* the merged result of several nodes; nodes to be swallowed (condition w) are kept as a whole
Fuse(x, ks, w) == LET S == [i \in 1..Len(ks) |-> IF Cond(w, ks[i]) THEN [n |-> ":Swallowed", t |-> <<>>, k |-> <<ks[i]>>, a |-> <<>>]
                                                 ELSE ks[i]]
                  IN IF \A i \in 1..Len(S) : Leaf(S[i]) THEN [x EXCEPT !.t = Texts(S), !.k = <<>>]
                     ELSE [x EXCEPT !.t = <<>>, !.k = FuseLeaves(Spliced(S))]
Merged(ks, name, always, w) ==
    LET h == ks[1]
        head == IF Cond(w, h) THEN [n |-> IF name = "" THEN h.n ELSE name, t |-> <<>>, k |-> <<>>, a |-> <<>>]
                ELSE IF name # "" /\ (always \/ Len(ks) > 1) THEN [h EXCEPT !.n = name] ELSE h
        f == Fuse(head, ks, w)
    IN [f EXCEPT !.a = UpdateAll(@, SelectSeq(Tail(ks), LAMBDA y : ~Cond(w, y)))]
\* end of the run of nodes that fulfil c, starting at i
RECURSIVE RunEnd(_, _, _)
RunEnd(ks, i, c) == IF i <= Len(ks) /\ Cond(c, ks[i]) THEN RunEnd(ks, i+1, c) ELSE i - 1
RECURSIVE MergeKids(_, _, _, _, _)
MergeKids(ks, i, c, name, w) ==
    IF i > Len(ks) THEN <<>>
    ELSE IF Cond(c, ks[i]) THEN LET e == RunEnd(ks, i, c)
                                IN <<Merged(SubSeq(ks, i, e), name, FALSE, w)>> \o MergeKids(ks, e+1, c, name, w)
    ELSE <<ks[i]>> \o MergeKids(ks, i+1, c, name, w)
MergeAdjacent(x, c, name, w) == IF Leaf(x) THEN x ELSE Branch(x, MergeKids(x.k, 1, c, name, w))
\* content nodes and the delimiters between them (those at the fringe have been merged before)
RECURSIVE ConnectKids(_, _, _, _, _, _)
ConnectKids(ks, i, c, d, name, w) ==
    IF i > Len(ks) THEN <<>>
    ELSE IF Cond(c, ks[i])
         THEN LET e == RunEnd(ks, i, [c |-> "any", s |-> <<c, d>>])
                  f == IF Cond(d, ks[e]) THEN e - 1 ELSE e
              IN <<Merged(SubSeq(ks, i, f), name, TRUE, w)>> \o ConnectKids(ks, f+1, c, d, name, w)
    ELSE <<ks[i]>> \o ConnectKids(ks, i+1, c, d, name, w)
MergeConnected(x, c, d, cname, dname, w) ==
    LET y == MergeAdjacent(x, [c |-> "all", s |-> <<d, [c |-> "neg", s |-> w]>>], dname, NoCond)
    IN IF Leaf(y) THEN y ELSE Branch(y, ConnectKids(y.k, 1, c, d, cname, w))
\* --- fringes of the i-th child of p that fulfil c move up to p
MergeResults(dest, ks) == IF \A i \in 1..Len(ks) : ~Leaf(ks[i])
                          THEN <<[dest EXCEPT !.k = FuseLeaves(LET f[i \in 0..Len(ks)] == IF i = 0 THEN <<>> ELSE f[i-1] \o ks[i].k
                                                               IN f[Len(ks)]), !.t = <<>>, !.a = UpdateAll(@, ks)]>>
                          ELSE IF \A i \in 1..Len(ks) : Leaf(ks[i]) THEN <<[dest EXCEPT !.t = Texts(ks), !.a = UpdateAll(@, ks)]>>
                          ELSE ks                    \* leaves and branches cannot be merged
RECURSIVE Lead(_, _), Trail(_, _)
Lead(ks, c) == IF ks # <<>> /\ Cond(c, ks[1]) THEN 1 + Lead(Tail(ks), c) ELSE 0
Trail(ks, c) == IF ks # <<>> /\ Cond(c, ks[Len(ks)]) THEN 1 + Trail(SubSeq(ks, 1, Len(ks)-1), c) ELSE 0
MoveFringes(p, i, c, side, merge) ==
    LET x == p.k[i]
        K == Len(x.k)
        l == IF side = "right" THEN 0 ELSE Lead(x.k, c)
        r == IF side = "left" \/ l = K THEN 0 ELSE Trail(x.k, c)
        before == SubSeq(x.k, 1, l)
        after == SubSeq(x.k, K-r+1, K)
        prev == SubSeq(p.k, 1, i-1)
        next == SubSeq(p.k, i+1, Len(p.k))
        a == IF merge THEN Trail(prev, c) ELSE 0
        b == IF merge THEN Lead(next, c) ELSE 0
        pn == SubSeq(prev, Len(prev)-a+1, Len(prev))
        nn == SubSeq(next, 1, b)
        bb == IF merge /\ l + a > 1 THEN MergeResults(IF l > 0 THEN before[l] ELSE pn[1], pn \o before) ELSE pn \o before
        aa == IF merge /\ r + b > 1 THEN MergeResults(IF r > 0 THEN after[1] ELSE nn[b], after \o nn) ELSE after \o nn
        y == Branch(x, SubSeq(x.k, l+1, K-r))
    IN IF l = 0 /\ r = 0 THEN p
       ELSE Branch(p, SubSeq(prev, 1, Len(prev)-a) \o bb \o <<y>> \o aa \o SubSeq(next, b+1, Len(next)))
\* --- operators
RECURSIVE LeftAssoc(_, _)
LeftAssoc(l, rest) == IF rest = <<>> THEN l
                      ELSE LeftAssoc([n |-> rest[1].n, t |-> <<>>, k |-> <<l, rest[2]>>, a |-> <<>>], SubSeq(rest, 3, Len(rest)))
\* right leaning trees of operators (all of the same precedence) become left leaning
RECURSIVE Spine(_, _), Lean(_, _)
IsOp(x, O) == x.n \in O /\ Len(x.k) = 2
Spine(x, O) == IF IsOp(x, O) THEN <<[x EXCEPT !.k = <<>>], Lean(x.k[1], O)>> \o Spine(x.k[2], O) ELSE <<Lean(x, O)>>
Lean(x, O) ==
    IF ~IsOp(x, O) THEN [x EXCEPT !.k = [i \in 1..Len(x.k) |-> Lean(x.k[i], O)]]
    ELSE LET s == Spine(x, O)        \* op1 a op2 b .. opn y z
             m == (Len(s) - 1) \div 2
             f[i \in 0..m] == IF i = 0 THEN s[2]
                              ELSE [s[2*i-1] EXCEPT !.k = <<f[i-1], IF i = m THEN s[Len(s)] ELSE s[2*i+2]>>]
         IN f[m]
\* --- removing
RECURSIVE LStrip(_, _), RStrip(_, _)
LStrip(x, c) == IF Leaf(x) THEN x
                ELSE LET ks == <<LStrip(x.k[1], c)>> \o Tail(x.k)
                         i == Lead(ks, c)
                     IN IF i = 0 THEN Branch(x, ks) ELSE LStrip(Branch(x, SubSeq(ks, i+1, Len(ks))), c)
RStrip(x, c) == IF Leaf(x) THEN x
                ELSE LET ks == SubSeq(x.k, 1, Len(x.k)-1) \o <<RStrip(x.k[Len(x.k)], c)>>
                         i == Trail(ks, c)
                     IN IF i = 0 THEN Branch(x, ks) ELSE RStrip(Branch(x, SubSeq(ks, 1, Len(ks)-i)), c)
Keep(x, c) == IF Leaf(x) THEN x ELSE Branch(x, SelectSeq(x.k, LAMBDA y : Cond(c, y)))
Bracket(x) == x.n \in LeafNames \/ (x.n = ":Series" /\ \A i \in 1..Len(x.k) : x.k[i].n \in LeafNames)
RECURSIVE LeadB(_), TrailB(_)
LeadB(ks) == IF ks # <<>> /\ Bracket(ks[1]) THEN 1 + LeadB(Tail(ks)) ELSE 0
TrailB(ks) == IF ks # <<>> /\ Bracket(ks[Len(ks)]) THEN 1 + TrailB(SubSeq(ks, 1, Len(ks)-1)) ELSE 0
RemoveBrackets(x) == LET l == LeadB(x.k)
                         rest == SubSeq(x.k, l+1, Len(x.k))
                     IN Branch(x, SubSeq(rest, 1, Len(rest) - TrailB(rest)))
\* slices from..to (Python), NoEnd: open; steps are positive
NoEnd == 99
At(i, L) == IF i < 0 THEN (IF i + L < 0 THEN 0 ELSE i + L) ELSE IF i > L THEN L ELSE i
Slice(ks, from, to, step) ==
    LET L == Len(ks)
        a == At(from, L)
        b == IF to = NoEnd THEN L ELSE At(to, L)
        m == IF b <= a THEN 0 ELSE (b - a + step - 1) \div step
    IN [i \in 1..m |-> ks[a + (i-1) * step + 1]]
\* --- text and attributes
RECURSIVE Squeeze(_)
Squeeze(t) == IF t = <<>> THEN <<>>
              ELSE IF Blank(t[1]) THEN (IF Len(t) > 1 /\ Blank(t[2]) THEN Squeeze(Tail(t)) ELSE <<" ">> \o Squeeze(Tail(t)))
              ELSE <<t[1]>> \o Squeeze(Tail(t))
\* --- inserting

\* insert node d before the children at positions ps (counted from 0; every entry counts once)
InsertAt(ks, ps, d) ==
    LET L == Len(ks)
        N(i) == Cardinality({j \in 1..Len(ps) : (LET q == IF ps[j] < 0 THEN ps[j] + L ELSE ps[j] IN IF q > L THEN L ELSE q) = i})
        f[i \in 0..L] == (IF i = 0 THEN <<>> ELSE f[i-1] \o <<ks[i]>>) \o [j \in 1..N(i) |-> d]
    IN f[L]
\* branches that have only anonymous leaves become leaves
RECURSIVE MergeTops(_)
MergeTops(x) == IF Leaf(x) THEN x
                ELSE IF \A i \in 1..Len(x.k) : Leaf(x.k[i]) /\ Anon(x.k[i].n) THEN [x EXCEPT !.t = Text(x), !.k = <<>>]
                ELSE Branch(x, [i \in 1..Len(x.k) |-> MergeTops(x.k[i])])
\* --- one transformation o, applied to a node x; result: [p : sequence of what replaces it in its parent]
RECURSIVE OnNode(_, _), Seq1(_, _)
Seq1(os, x) == IF os = <<>> THEN x ELSE Seq1(Tail(os), OnNode(os[1], x))
OnNode(o, x) ==
    CASE o.op = "replace_by_single_child" -> IF Len(x.k) = 1 THEN ReplaceBy(x, x.k[1]) ELSE x
      [] o.op = "reduce_single_child" -> IF Len(x.k) = 1 THEN Reduce(x, x.k[1]) ELSE x
      [] o.op = "replace_or_reduce" ->
            IF Len(x.k) # 1 THEN x
            ELSE IF Cond(o.c, x.k[1]) THEN ReplaceBy(x, x.k[1])
            ELSE IF "no" \in DOMAIN o /\ ~Cond(o.no, x.k[1]) THEN x ELSE Reduce(x, x.k[1])
      [] o.op = "swap_nested_nodes" -> IF Len(x.k) = 1 THEN [x EXCEPT !.n = x.k[1].n, !.a = x.k[1].a,
                                                                   !.k = <<[x.k[1] EXCEPT !.n = x.n, !.a = x.a]>>] ELSE x
      [] o.op = "change_name" -> [x EXCEPT !.n = o.name]
      [] o.op = "replace_child_names" -> [x EXCEPT !.k = [i \in 1..Len(@) |-> IF @[i].n \in Keys(o.m)
                                                          THEN [@[i] EXCEPT !.n = Val(o.m, @)] ELSE @[i]]]
      [] o.op = "flatten" -> Flatten(x, o.c, o.rec)
      [] o.op = "collapse" -> Collapse(x)
      [] o.op = "collapse_children_if" -> CollapseIf(x, o.c, o.name, o.rule, FALSE)
      [] o.op = "merge_adjacent" -> MergeAdjacent(x, o.c, o.name, o.w)
      [] o.op = "merge_leaves" -> MergeAdjacent(x, [c |-> "anonleaf"], "", NoCond)
      [] o.op = "merge_connected" -> MergeConnected(x, o.c, o.d, o.name, o.dname, o.w)
      [] o.op = "left_associative" -> IF Len(x.k) >= 3 THEN Branch(x, <<LeftAssoc(x.k[1], Tail(x.k))>>) ELSE x
      [] o.op = "merge_treetops" -> MergeTops(x)
      [] o.op = "lean" -> Lean(x, Elems(o.s))
      [] o.op = "lstrip" -> LStrip(x, o.c)
      [] o.op = "rstrip" -> RStrip(x, o.c)
      [] o.op = "strip" -> RStrip(LStrip(x, o.c), o.c)
      [] o.op = "keep_children" -> IF Leaf(x) THEN x ELSE Branch(x, Slice(x.k, o.from, o.to, o.step))
      [] o.op = "keep_children_if" -> Keep(x, o.c)
      [] o.op = "remove_children_if" -> Keep(x, [c |-> "neg", s |-> o.c])
      [] o.op = "remove_brackets" -> IF Leaf(x) THEN x ELSE RemoveBrackets(x)
      [] o.op = "replace_content_with" -> [x EXCEPT !.t = o.t, !.k = <<>>]
      [] o.op = "transform_result" -> [x EXCEPT !.t = IF Leaf(x) THEN o.t \o @ ELSE <<>>, !.k = [i \in 1..Len(@) |-> @[Len(@)+1-i]]]
      [] o.op = "normalize_whitespace" -> IF ~Leaf(x) THEN x ELSE IF x.n = ":Whitespace" THEN [x EXCEPT !.t = IF @ = <<>> THEN <<>> ELSE <<" ">>]
                                          ELSE [x EXCEPT !.t = Squeeze(@)]
      [] o.op = "add_attributes" -> [x EXCEPT !.a = Override(@, o.m)]
      [] o.op = "del_attributes" -> [x EXCEPT !.a = IF o.s = <<>> THEN <<>> ELSE SelectSeq(@, LAMBDA p : p[1] \notin Elems(o.s))]
      [] o.op = "insert" -> IF o.ps = <<>> THEN x ELSE Branch(x, InsertAt(x.k, o.ps, o.d))
      [] o.op = "insert_at_names" ->
            LET P == SelectSeq([i \in 1..Len(x.k) |-> i-1], LAMBDA i : x.k[i+1].n \in Elems(o.s))
            IN IF P = <<>> THEN x ELSE Branch(x, InsertAt(x.k, P, o.d))
      [] o.op = "delimit_children" -> IF Len(x.k) < 2 THEN x ELSE Branch(x, InsertAt(x.k, [i \in 1..(Len(x.k)-1) |-> i], o.d))
      [] o.op = "apply_if" -> IF Cond(o.c, x) THEN Seq1(o.os, x) ELSE x
      [] o.op = "apply_unless" -> IF Cond(o.c, x) THEN x ELSE Seq1(o.os, x)
      [] o.op = "apply_ifelse" -> IF Cond(o.c, x) THEN Seq1(o.os, x) ELSE Seq1(o.es, x)
\* transformations that change the parent p of the i-th child
OnParent(o, p, i) ==
    LET x == p.k[i]
        Put(q) == Branch(p, SubSeq(p.k, 1, i-1) \o q \o SubSeq(p.k, i+1, Len(p.k)))
    IN CASE o.op = "replace_by_children" -> IF Leaf(x) THEN p ELSE Put(x.k)
         [] o.op = "remove" -> Put(<<>>)
         [] o.op = "remove_if" -> IF Cond(o.c, x) THEN Put(<<>>) ELSE p
         [] o.op = "move_fringes" -> IF Leaf(x) THEN p ELSE MoveFringes(p, i, o.c, o.side, o.merge)
         [] OTHER -> Put(<<OnNode(o, x)>>)
OnRoot(o, x) == CASE o.op = "replace_by_children" -> IF Len(x.k) = 1 THEN ReplaceBy(x, x.k[1]) ELSE x
                  [] o.op \in {"remove", "remove_if", "move_fringes"} -> x
                  [] OTHER -> OnNode(o, x)
\* path: indices of children
RECURSIVE AtPath(_, _, _)
AtPath(o, x, path) == IF path = <<>> THEN OnRoot(o, x)
                      ELSE IF Len(path) = 1 THEN OnParent(o, x, path[1])
                      ELSE [x EXCEPT !.k[path[1]] = AtPath(o, @, Tail(path))]

(* --- the design: the restructuring transformations never change the text     *)
VARIABLE tree
Lv == [n : {"a", ":Text"}, t : {<<>>, <<"x">>, <<" ">>}, k : {<<>>}, a : {<<>>}]
Br(S) == [n : {"a", ":a"}, t : {<<>>}, a : {<<>>}, k : {<<x>> : x \in S} \cup {<<x, y>> : x, y \in S}]
Small == Lv \cup Br(Lv)
Init == tree \in Br(Small)
Next == UNCHANGED tree
C1 == [c |-> "anon"]
C2 == [c |-> "ws"]
Rearranging == {[op |-> "replace_by_single_child"], [op |-> "reduce_single_child"], [op |-> "replace_or_reduce", c |-> [c |-> "named"]],
                [op |-> "swap_nested_nodes"], [op |-> "flatten", c |-> C1, rec |-> TRUE], [op |-> "flatten", c |-> C2, rec |-> FALSE],
                [op |-> "collapse"], [op |-> "merge_treetops"], [op |-> "collapse_children_if", c |-> C1, name |-> "z", rule |-> "join"],
                [op |-> "merge_adjacent", c |-> C1, name |-> "", w |-> NoCond], [op |-> "merge_leaves"],
                [op |-> "merge_adjacent", c |-> C1, name |-> "z", w |-> C2],
                [op |-> "merge_connected", c |-> [c |-> "named"], d |-> C1, name |-> "a", dname |-> ":b", w |-> NoCond]}
SameText == \A o \in Rearranging : Text(OnNode(o, tree)) = Text(tree)
SameTextAbove == \A i \in 1..Len(tree.k) :
    /\ Text(OnParent([op |-> "replace_by_children"], tree, i)) = Text(tree)
    /\ \A s \in {"left", "right", "both"}, m \in BOOLEAN : Text(MoveFringes(tree, i, C2, s, m)) = Text(tree)
Idempotent == LET f == [op |-> "flatten", c |-> C1, rec |-> TRUE]
                  s == [op |-> "strip", c |-> C2]
              IN OnNode(f, OnNode(f, tree)) = OnNode(f, tree) /\ OnNode(s, OnNode(s, tree)) = OnNode(s, tree)
Stripped == LET y == OnNode([op |-> "strip", c |-> C2], tree)
            IN Leaf(y) \/ (~Cond(C2, y.k[1]) /\ ~Cond(C2, y.k[Len(y.k)]))
=============================================================================
