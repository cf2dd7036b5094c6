------------------------------ MODULE NodeEdit ------------------------------
(* Editing trees through the node interface (C16).  A node is a record        *)
(*   u: identity, n: name, t: text, c: children, a: attributes in order of    *)
(*   insertion (pairs), p: source position or -1                              *)
(* Each operation maps a tree to the tree after it and to what is returned.   *)
EXTENDS Integers, Sequences, FiniteSets

Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
RECURSIVE CatN(_, _)
CatN(s, k) == IF k = 0 THEN <<>> ELSE CatN(s, k-1) \o s[k]
Cat(s) == CatN(s, Len(s))
RECURSIVE Sub(_, _)
Sub(t, p) == IF p = <<>> THEN t ELSE Sub(t.c[Head(p)], Tail(p))
RECURSIVE Put(_, _, _)
Put(t, p, s) == IF p = <<>> THEN s
                ELSE [t EXCEPT !.c = [@ EXCEPT ![Head(p)] = Put(t.c[Head(p)], Tail(p), s)]]
RECURSIVE Content(_)
Content(t) == IF t.c = <<>> THEN t.t ELSE Cat([i \in 1..Len(t.c) |-> Content(t.c[i])])
RECURSIVE Uids(_)
Uids(t) == {t.u} \cup UNION {Uids(t.c[i]) : i \in 1..Len(t.c)}

(* --- positions: a node without one gets the place where the leaf before it  *)
(* ends; positions once assigned never change                                *)
RECURSIVE EndPos(_, _)          \* where the last leaf of t ends if t starts at pos
RECURSIVE EndPosOf(_, _)
EndPosOf(c, pos) == IF c = <<>> THEN pos ELSE EndPosOf(Tail(c), EndPos(Head(c), pos))
EndPos(t, pos) == LET q == IF t.p >= 0 THEN t.p ELSE pos
                  IN IF t.c = <<>> THEN q + Len(t.t) ELSE EndPosOf(t.c, q)
RECURSIVE Place(_, _)
RECURSIVE PlaceAll(_, _)
PlaceAll(c, pos) == IF c = <<>> THEN <<>> ELSE <<Place(Head(c), pos)>> \o PlaceAll(Tail(c), EndPos(Head(c), pos))
Place(t, pos) == LET q == IF t.p >= 0 THEN t.p ELSE pos
                 IN [t EXCEPT !.p = q, !.c = PlaceAll(t.c, q)]
\* assigning a new result to a node hands its position on to new descendants
Placed(t) == IF t.p >= 0 THEN Place(t, t.p) ELSE t
WithChildren(t, c) == Placed([t EXCEPT !.c = c, !.t = <<>>])
WithText(t, s) == [t EXCEPT !.c = <<>>, !.t = s]

(* --- attributes: ordered maps *)
Has(a, k) == \E i \in 1..Len(a) : a[i][1] = k
Get(a, k, d) == IF Has(a, k) THEN a[CHOOSE i \in 1..Len(a) : a[i][1] = k][2] ELSE d
Set(a, k, v) == IF Has(a, k) THEN [i \in 1..Len(a) |-> IF a[i][1] = k THEN <<k, v>> ELSE a[i]]
                ELSE Append(a, <<k, v>>)
Del(a, k) == SelectSeq(a, LAMBDA x : x[1] # k)
RECURSIVE Update(_, _)
Update(a, b) == IF b = <<>> THEN a ELSE Update(Set(a, Head(b)[1], Head(b)[2]), Tail(b))
EqAttr(a, b, anyorder) == IF anyorder THEN {a[i] : i \in 1..Len(a)} = {b[i] : i \in 1..Len(b)} ELSE a = b
RECURSIVE Equal(_, _, _)
Equal(s, t, anyorder) == /\ s.n = t.n
                         /\ EqAttr(s.a, t.a, anyorder)
                         /\ Len(s.c) = Len(t.c)
                         /\ s.t = t.t
                         /\ \A i \in 1..Len(s.c) : Equal(s.c[i], t.c[i], anyorder)

(* --- tokens: blank-separated words in an attribute; here sequences of words *)
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
RECURSIVE AddTokens(_, _)
AddTokens(s, w) == IF w = <<>> THEN s
                   ELSE AddTokens(IF InSeq(Head(w), s) THEN s ELSE Append(s, Head(w)), Tail(w))
RemoveTokens(s, w) == SelectSeq(s, LAMBDA x : ~InSeq(x, w))
HasTokens(s, w, all) == w = <<>> \/ IF all THEN \A i \in 1..Len(w) : InSeq(w[i], s)
                                    ELSE \E i \in 1..Len(w) : InSeq(w[i], s)

(* --- indices and slices of a sequence of n items, counted from 0 *)
\* o: optional integer [none |-> BOOLEAN, v |-> Int]
Clip(o, n, d, lo, hi) == IF o.none THEN d ELSE LET i == IF o.v < 0 THEN o.v + n ELSE o.v
                                               IN Max2(lo, Min2(hi, i))
RECURSIVE Steps(_, _, _)
Steps(i, j, s) == IF (s > 0 /\ i >= j) \/ (s < 0 /\ i <= j) THEN <<>> ELSE <<i>> \o Steps(i + s, j, s)
SliceIdx(n, sl) == LET s == IF sl.step.none THEN 1 ELSE sl.step.v
                   IN IF s > 0 THEN Steps(Clip(sl.i, n, 0, 0, n), Clip(sl.j, n, n, 0, n), s)
                      ELSE Steps(Clip(sl.i, n, n-1, -1, n-1), Clip(sl.j, n, -1, -1, n-1), s)
InRange(n, i) == -n <= i /\ i < n
Norm(n, i) == IF i < 0 THEN i + n ELSE i

(* --- criteria: k = name (names), node (u) *)
Matches(k, nd) == CASE k.k = "name" -> InSeq(nd.n, k.names)
                    [] k.k = "node" -> nd.u = k.u
                    [] k.k = "text" -> nd.t = k.t /\ nd.c = <<>> /\ nd.n = k.names[1] /\ nd.a = <<>>
Hits(k, c) == SelectSeq([i \in 1..Len(c) |-> i], LAMBDA i : Matches(k, c[i]))   \* counted from 1

(* --- operations on one node x; the outcome is a record [x, r, exc] *)
Ok(x, r) == [x |-> x, r |-> r, exc |-> ""]
Fail(x, e) == [x |-> x, r |-> <<>>, exc |-> e]
UidsOf(s) == [i \in 1..Len(s) |-> s[i].u]
Full(x) == x.c = <<>> /\ x.t # <<>>      \* a leaf with text has no items

SetSlice(x, q) ==
    LET n == Len(x.c)
        idx == SliceIdx(n, q.sl)
        i0 == Clip(q.sl.i, n, 0, 0, n)
    IN IF q.sl.step.none \/ q.sl.step.v = 1
       THEN Ok(WithChildren(x, SubSeq(x.c, 1, i0) \o q.v \o SubSeq(x.c, i0 + Len(idx) + 1, n)), <<>>)
       ELSE IF Len(idx) # Len(q.v) THEN Fail(x, "ValueError")
       ELSE Ok(WithChildren(x, [i \in 1..n |-> IF InSeq(i-1, idx)
                                               THEN q.v[CHOOSE k \in 1..Len(idx) : idx[k] = i-1] ELSE x.c[i]]), <<>>)
Apply(x, q) ==
    LET n == Len(x.c)
        hits == Hits(q.k, x.c)
        Without(S) == WithChildren(x, Cat([i \in 1..n |-> IF i \in S THEN <<>> ELSE <<x.c[i]>>]))
    IN CASE q.op = "text" -> Ok(WithText(x, q.t), <<>>)
         [] q.op = "children" -> Ok(WithChildren(x, q.v), <<>>)
         [] q.op = "rename" -> Ok([x EXCEPT !.n = q.name], <<>>)
         [] q.op = "set_int" -> IF n = 0 THEN Fail(x, "ValueError")
                                ELSE IF ~InRange(n, q.i) THEN Fail(x, "IndexError")
                                ELSE Ok(WithChildren(x, [x.c EXCEPT ![Norm(n, q.i) + 1] = q.v[1]]), <<>>)
         [] q.op = "set_slice" -> IF n = 0 THEN Fail(x, "ValueError") ELSE SetSlice(x, q)
         [] q.op = "set_crit" -> IF n = 0 THEN Fail(x, "ValueError")
                                 ELSE IF q.single /\ hits = <<>> THEN Fail(x, "KeyError")
                                 ELSE IF Len(hits) # Len(q.v) THEN Fail(x, "ValueError")
                                 ELSE Ok(WithChildren(x, [i \in 1..n |-> IF InSeq(i, hits)
                                            THEN q.v[CHOOSE k \in 1..Len(hits) : hits[k] = i] ELSE x.c[i]]), <<>>)
         [] q.op = "del_int" -> IF Full(x) THEN Fail(x, "ValueError")
                                ELSE IF ~InRange(n, q.i) THEN Fail(x, "IndexError")
                                ELSE Ok(Without({Norm(n, q.i) + 1}), <<>>)
         [] q.op = "del_slice" -> IF Full(x) THEN Fail(x, "ValueError")
                                  ELSE LET idx == SliceIdx(n, q.sl) IN Ok(Without({idx[k] + 1 : k \in 1..Len(idx)}), <<>>)
         [] q.op = "del_crit" -> IF Full(x) THEN Fail(x, "ValueError")
                                 ELSE IF hits = <<>> THEN Fail(x, "KeyError")
                                 ELSE Ok(Without({hits[k] : k \in 1..Len(hits)}), <<>>)
         [] q.op = "insert" -> IF Full(x) THEN Fail(x, "ValueError")
                               ELSE LET i == Max2(0, Min2(n, IF q.i < 0 THEN q.i + n ELSE q.i))
                                    IN Ok(WithChildren(x, SubSeq(x.c, 1, i) \o q.v \o SubSeq(x.c, i+1, n)), <<>>)
         [] q.op = "remove" -> IF hits = <<>> THEN Fail(x, "ValueError")
                               ELSE Ok(Without({hits[k] : k \in 1..Len(hits)}), <<>>)
         [] q.op = "get_int" -> IF Full(x) THEN Fail(x, "ValueError")
                                ELSE IF ~InRange(n, q.i) THEN Fail(x, "IndexError")
                                ELSE Ok(x, <<x.c[Norm(n, q.i) + 1].u>>)
         [] q.op = "get_slice" -> IF Full(x) THEN Fail(x, "ValueError")
                                  ELSE LET idx == SliceIdx(n, q.sl) IN Ok(x, [k \in 1..Len(idx) |-> x.c[idx[k] + 1].u])
         [] q.op = "get_crit" -> IF Full(x) THEN Fail(x, "ValueError")
                                 ELSE IF hits = <<>> THEN Fail(x, "KeyError")
                                 ELSE Ok(x, [k \in 1..Len(hits) |-> x.c[hits[k]].u])
         [] q.op = "get_first" -> Ok(x, IF hits = <<>> THEN <<q.v[1].u>> ELSE <<x.c[hits[1]].u>>)
         [] q.op = "get_all" -> Ok(x, IF hits = <<>> THEN UidsOf(q.v) ELSE [k \in 1..Len(hits) |-> x.c[hits[k]].u])
         [] q.op = "get_at" -> Ok(x, IF InRange(n, q.i) THEN <<x.c[Norm(n, q.i) + 1].u>> ELSE <<q.v[1].u>>)
         [] q.op = "contains" -> Ok(x, IF hits = <<>> THEN <<0>> ELSE <<1>>)
         [] q.op = "indices" -> Ok(x, [k \in 1..Len(hits) |-> hits[k] - 1])
         [] q.op = "index" -> LET h == SelectSeq(hits, LAMBDA i : q.i <= i-1 /\ i-1 < q.stop)
                              IN IF h = <<>> THEN Fail(x, "ValueError") ELSE Ok(x, <<h[1] - 1>>)
         [] q.op = "with_attr" -> Ok([x EXCEPT !.a = Update(x.a, q.a)], <<>>)
         [] q.op = "attr_dict" -> Ok([x EXCEPT !.a = q.a], <<>>)
         [] q.op = "del_attr" -> IF Has(x.a, q.name) THEN Ok([x EXCEPT !.a = Del(x.a, q.name)], <<>>)
                                 ELSE Fail(x, "KeyError")
         [] q.op = "has_attr" -> Ok(x, IF IF q.name = "" THEN x.a # <<>> ELSE Has(x.a, q.name) THEN <<1>> ELSE <<0>>)
         [] q.op = "with_pos" -> IF x.p >= 0 /\ q.i # x.p THEN Fail(x, "AssertionError")
                                 ELSE IF q.i < 0 THEN Ok(x, <<>>) ELSE Ok(Place(x, q.i), <<>>)
         [] q.op = "pos" -> IF x.p < 0 THEN Fail(x, "AssertionError") ELSE Ok(x, <<x.p>>)
         [] q.op = "strlen" -> Ok(x, <<Len(Content(x))>>)
         [] q.op = "equals" -> Ok(x, IF Equal(x, q.v[1], q.single) THEN <<1>> ELSE <<0>>)
         [] q.op = "equal_attr" -> Ok(x, IF EqAttr(x.a, q.v[1].a, q.single) THEN <<1>> ELSE <<0>>)
         \* the node takes over name, result and attributes of the other, which is placed where the node is
         [] q.op = "replace_by" ->
              LET y == q.v[1]
                  y2 == IF y.p < 0 /\ x.p >= 0 THEN Place(y, x.p) ELSE y
                  x2 == [x EXCEPT !.n = y2.n, !.c = y2.c, !.t = y2.t, !.p = IF x.p < 0 THEN y.p ELSE x.p,
                                  !.a = IF q.single THEN Update(x.a, y.a) ELSE y.a]
              IN Ok(Placed(x2), <<>>)
=============================================================================
