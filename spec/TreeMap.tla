------------------------------ MODULE TreeMap -------------------------------
(* Content mappings: the text of the selected leaves of a tree, and the       *)
(* translation of its positions into paths and back.                          *)
(* sel, ign: criteria [k, names]; see Selected.                               *)
EXTENDS Tree, TLC

InSet(x, s) == \E i \in 1..Len(s) : s[i] = x
\* does the criterion hold for the path that leads to p
Holds(t, p, c) ==
    CASE c.k = "none" -> FALSE
      [] c.k = "leaf" -> Len(Sub(t, p).c) = 0
      [] c.k = "name" -> InSet(Sub(t, p).n, c.names)
      [] c.k = "leafname" -> Len(Sub(t, p).c) = 0 /\ InSet(Sub(t, p).n, c.names)
      [] c.k = "below" -> Len(Sub(t, p).c) = 0        \* leaf_paths(names)
                          /\ \E i \in 0..Len(p) : InSet(Sub(t, SubSeq(p, 1, i)).n, c.names)
Selected(t, sel, ign) ==
    SelectSeq(Leaves(t, <<>>), LAMBDA p : /\ Holds(t, p, sel)
                                         /\ \A i \in 0..Len(p) : ~Holds(t, SubSeq(p, 1, i), ign))
\* a branch must not be selected
Misselects(t, sel, ign) ==
    \E p \in AddrSet(t) : /\ Len(Sub(t, p).c) > 0 /\ Holds(t, p, sel)
                          /\ \A i \in 0..(Len(p)-1) : ~Holds(t, SubSeq(p, 1, i), ign)
                          /\ ~Holds(t, <<>>, ign)
Text(t, ls) == Cat([i \in 1..Len(ls) |-> Sub(t, ls[i]).t])
RECURSIVE Offsets(_, _, _)
Offsets(t, ls, k) == IF ls = <<>> THEN <<>>
                     ELSE <<k>> \o Offsets(t, Tail(ls), k + Len(Sub(t, Head(ls)).t))
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
\* index (from 1) of the leaf at position pos; 0 <= pos <= length of the text
IndexAt(offs, pos, left) ==
    LET S == {i \in 1..Len(offs) : IF left THEN offs[i] < pos ELSE offs[i] <= pos}
    IN IF S = {} THEN 1 ELSE Max(S)
Range(a, b) == IF a <= b THEN [i \in 1..(b - a + 1) |-> a + i - 1]
               ELSE [i \in 1..(a - b + 1) |-> a - i + 1]
\* the nodes found when going through the leaves one by one: from every path the
\* innermost match; paths that contain the node found last are passed over
RECURSIVE Found(_, _, _, _, _, _)
Found(t, ls, i, last, rev, M) ==
    IF i < 1 \/ i > Len(ls) THEN <<>>
    ELSE LET p == ls[i]
             S == {k \in 0..Len(p) : SubSeq(p, 1, k) \in M}
             j == IF rev THEN i - 1 ELSE i + 1
         IN IF last # <<>> /\ IsPrefix(last[1], p) THEN Found(t, ls, j, last, rev, M)
            ELSE IF S = {} THEN Found(t, ls, j, <<>>, rev, M)
            ELSE LET q == SubSeq(p, 1, Max(S))
                 IN <<<<q, <<i - 1>>>>>> \o Found(t, ls, j, <<q>>, rev, M)
=============================================================================
