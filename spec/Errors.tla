------------------------------- MODULE Errors -------------------------------
(* Places in a text (line, column) and the bookkeeping of errors at the root   *)
(* of a tree.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
\* --- line and column of a position (both count from one; a line-break belongs to the line it ends)
Breaks(text, pos) == {i \in 1..pos : text[i] = "\n"}           \* line-breaks before pos
LineCol(text, pos) ==
    IF pos < 0 \/ pos > Len(text) THEN <<0, 0>>
    ELSE LET B == Breaks(text, pos)
         IN <<Cardinality(B) + 1, pos - (IF B = {} THEN 0 ELSE CHOOSE i \in B : \A j \in B : j <= i) + 1>>
\* the position at the given line and column, -1 if there is none
TextPos(text, line, col) ==
    LET P == {p \in 0..Len(text) : LineCol(text, p) = <<line, col>>}
    IN IF P = {} THEN -1 ELSE CHOOSE p \in P : TRUE
Severity(code) == CASE code < 100 -> "Notice" [] code < 1000 -> "Warning" [] code < 10000 -> "Error" [] OTHER -> "Fatal"

\* --- the tree: kids: node -> sequence of nodes, own: node -> length of a leaf's text, pos: node -> position;
\* node 1 is the root
RECURSIVE Below(_, _)
Below(T, n) == {n} \cup UNION {Below(T, T.kids[n][i]) : i \in 1..Len(T.kids[n])}
InTree(T) == Below(T, 1)
RECURSIVE Size(_, _)
Size(T, n) == IF T.kids[n] = <<>> THEN T.own[n]
              ELSE LET f[i \in 0..Len(T.kids[n])] == IF i = 0 THEN 0 ELSE f[i-1] + Size(T, T.kids[n][i])
                   IN f[Len(T.kids[n])]
Covers(T, n, p) == T.pos[n] <= p /\ p < T.pos[n] + Max(Size(T, n), 1)
Remove(T, n) == [T EXCEPT !.kids = [m \in DOMAIN @ |-> SelectSeq(@[m], LAMBDA k : k # n)],
                          !.own = [m \in DOMAIN @ |-> IF \E i \in 1..Len(T.kids[m]) : T.kids[m][i] = n THEN 0 ELSE @[m]]]

\* --- the errors: sequence of [code, pos, len, att, known, notice], att: node the error is attached to,
\* known: whether it has to be found at that node; notice: "further errors suppressed" has been appended
Same(e, code, pos) == e.code = code /\ e.pos = pos
Has(es, code, pos) == \E i \in 1..Len(es) : Same(es[i], code, pos)
\* leaf in which a position lies (0 if there is none)
LeafAt(T, p) == LET L == {n \in InTree(T) : T.kids[n] = <<>> /\ (n # 1 \/ T.kids[1] = <<>>)
                                            /\ T.pos[n] <= p /\ p < T.pos[n] + T.own[n]}
                IN IF Cardinality(L) = 1 THEN CHOOSE n \in L : TRUE ELSE 0
Add(T, es, n, code, pos, len) ==
    IF Has(es, code, pos) THEN es
    ELSE LET m == IF n = 0 THEN LeafAt(T, pos) ELSE n
         IN Append(es, [code |-> code, pos |-> pos, len |-> len, att |-> m, notice |-> FALSE,
                        known |-> m # 0 /\ Covers(T, m, pos)])
Last(es, code) ==      \* index of the error of this type with the highest position (the latest of these)
    CHOOSE i \in 1..Len(es) : es[i].code = code /\ \A j \in 1..Len(es) : es[j].code = code => es[j].pos <= es[i].pos
New(T, es, n, code, limit) ==
    LET c == Cardinality({i \in 1..Len(es) : es[i].code = code})
    IN IF limit >= 1 /\ c >= limit THEN [es EXCEPT ![Last(es, code)].notice = TRUE]
       ELSE Add(T, es, n, code, T.pos[n], 1)
Transfer(T, es, src, dest) ==
    IF src = dest THEN es
    ELSE [i \in 1..Len(es) |-> IF es[i].att = src THEN [es[i] EXCEPT !.att = dest] ELSE es[i]]
Flag(es) == IF es = <<>> THEN 0
            ELSE LET C == {es[i].code : i \in 1..Len(es)} IN CHOOSE c \in C : \A d \in C : d <= c
\* errors that have to / must not be found at node n (the others, e.g. ones at the very end of a node, may be)
Must(T, e, n) == e.known /\ Covers(T, n, e.pos) /\ (e.att = n \/ (e.att \notin InTree(T) /\ T.kids[n] # <<>>))
\* (the errors of a removed node are found together, wherever one of them has to be found)
MustNot(T, es, e, n) == /\ e.att # 0 /\ e.att # n /\ e.known
                        /\ \/ e.att \in InTree(T) \/ T.kids[n] = <<>>
                           \/ \A i \in 1..Len(es) : es[i].att = e.att => ~Covers(T, n, es[i].pos)
\* errors in the order of their positions (stable)
RECURSIVE Sorted(_)
Sorted(es) == IF es = <<>> THEN <<>>
              ELSE LET i == CHOOSE i \in 1..Len(es) :
                              (\A j \in 1..Len(es) : es[i].pos <= es[j].pos) /\ (\A j \in 1..(i-1) : es[j].pos > es[i].pos)
                   IN <<es[i]>> \o Sorted(SubSeq(es, 1, i-1) \o SubSeq(es, i+1, Len(es)))

(* --- the design: all short histories on one small tree                       *)
CONSTANTS Codes, MaxErrors
VARIABLES tree, errs
vars == <<tree, errs>>
T0 == [kids |-> <<<<2, 3>>, <<4, 5>>, <<>>, <<>>, <<>>>>, own |-> <<0, 0, 1, 1, 2>>, pos |-> <<0, 0, 3, 0, 1>>]
Init == tree = T0 /\ errs = <<>>
Next == \/ /\ Len(errs) < MaxErrors
           /\ \E n \in 1..5, code \in Codes : \E p \in T0.pos[n]..4 : errs' = Add(tree, errs, n, code, p, 1)
           /\ UNCHANGED tree
        \/ /\ Len(errs) < MaxErrors
           /\ \E n \in 1..5, code \in Codes : errs' = New(tree, errs, n, code, 1)
           /\ UNCHANGED tree
        \/ \E s, d \in 1..5 : errs' = Transfer(tree, errs, s, d) /\ UNCHANGED tree
        \/ \E n \in InTree(tree) \ {1} : tree' = Remove(tree, n) /\ UNCHANGED errs
Once == \A i, j \in 1..Len(errs) : Same(errs[i], errs[j].code, errs[j].pos) => i = j
InOrder == LET s == Sorted(errs) IN Len(s) = Len(errs) /\ \A i \in 1..(Len(s)-1) : s[i].pos <= s[i+1].pos
FlagMax == \A i \in 1..Len(errs) : errs[i].code <= Flag(errs)
Consistent == \A i \in 1..Len(errs), n \in InTree(tree) : ~(Must(tree, errs[i], n) /\ MustNot(tree, errs, errs[i], n))
\* an error within the text of the tree is found somewhere unless it has been moved to a place that does not cover it
Found == \A i \in 1..Len(errs) :
           (errs[i].known /\ Covers(tree, 1, errs[i].pos) /\ errs[i].att \notin InTree(tree) /\ tree.kids[1] # <<>>)
           => Must(tree, errs[i], 1)
Inverse == LET text == <<"a", "\n", "\n", "b">>
           IN \A p \in 0..4 : TextPos(text, LineCol(text, p)[1], LineCol(text, p)[2]) = p
=============================================================================
