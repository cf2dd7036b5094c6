------------------------------- MODULE Tree ---------------------------------
(* Document trees.  A tree is a record                                        *)
(*   n: name, l: is it a leaf, t: text of a leaf (sequence of characters),    *)
(*   c: children (sequence of trees), a: attributes (sequence of key, value)  *)
(* A node is identified by its address: the sequence of child indices that    *)
(* leads to it from the root, <<>> being the root.                            *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Sub(_, _)
Sub(t, p) == IF p = <<>> THEN t ELSE Sub(t.c[Head(p)], Tail(p))

RECURSIVE Put(_, _, _)          \* t with the subtree at p replaced by s
Put(t, p, s) == IF p = <<>> THEN s
                ELSE [t EXCEPT !.c = [@ EXCEPT ![Head(p)] = Put(t.c[Head(p)], Tail(p), s)]]

RECURSIVE CatN(_, _)
CatN(s, k) == IF k = 0 THEN <<>> ELSE CatN(s, k-1) \o s[k]
Cat(s) == CatN(s, Len(s))

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

RECURSIVE Content(_)
Content(t) == IF t.l THEN t.t ELSE Cat([i \in 1..Len(t.c) |-> Content(t.c[i])])

RECURSIVE AddrsAt(_, _)         \* all addresses in document order
AddrsAt(t, p) == <<p>> \o Cat([i \in 1..Len(t.c) |-> AddrsAt(t.c[i], Append(p, i))])
Addrs(t) == AddrsAt(t, <<>>)
AddrSet(t) == LET s == Addrs(t) IN {s[i] : i \in 1..Len(s)}

Parent(p) == SubSeq(p, 1, Len(p) - 1)
Last(p) == p[Len(p)]
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
\* position of node p among its siblings, counted from the left
Siblings(t, p) == Len(Sub(t, Parent(p)).c)

AttrSet(t) == {t.a[i] : i \in 1..Len(t.a)}
RECURSIVE Equal(_, _)           \* equality regardless of the order of attributes
Equal(s, t) == /\ s.n = t.n
               /\ AttrSet(s) = AttrSet(t)
               /\ IF Len(s.c) = 0 \/ Len(t.c) = 0
                  THEN Len(s.c) = Len(t.c) /\ s.t = t.t
                  ELSE Len(s.c) = Len(t.c) /\ \A i \in 1..Len(s.c) : Equal(s.c[i], t.c[i])

RECURSIVE Leaves(_, _)          \* addresses of the leaves in document order
Leaves(t, p) == IF Len(t.c) = 0 THEN <<p>>
                ELSE Cat([i \in 1..Len(t.c) |-> Leaves(t.c[i], Append(p, i))])

\* the leaf and offset that hold character number k (counted from 0) of the content
RECURSIVE LeafAt(_, _, _)
LeafAt(t, ls, k) == IF ls = <<>> THEN <<>>
                    ELSE LET n == Len(Sub(t, Head(ls)).t)
                         IN IF k < n THEN <<<<Head(ls), k>>>> ELSE LeafAt(t, Tail(ls), k - n)
Filter(s, Ok(_)) == SelectSeq(s, Ok)
=============================================================================
