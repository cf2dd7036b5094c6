------------------------------ MODULE TreeNav -------------------------------
(* What selecting nodes and navigating paths must yield.  A record of the     *)
(* trace is a tree t and queries qs; a query has an operation op, the address *)
(* p it starts from, criteria crit and skip, flags root and rev, a number k,  *)
(* and what was observed: addresses r, characters s, exception e.             *)
EXTENDS Tree, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

--------------------------------------------------------------------------------
(* criteria *)
InSet(x, s) == \E i \in 1..Len(s) : s[i] = x
Match(t, p, c, base) ==     \* paths begin at base
    LET nd == Sub(t, p)
    IN CASE c.k = "any" -> TRUE
         [] c.k = "none" -> FALSE
         [] c.k \in {"name", "set"} -> InSet(nd.n, c.names)
         [] c.k \in {"node", "id"} -> p = c.p
         [] c.k = "rx" -> LET x == Content(nd) IN Len(x) >= c.min /\ \A i \in 1..Len(x) : InSet(x[i], c.chars)
         [] c.k = "eq" -> Equal(nd, c.t)
         [] c.k = "leaf" -> Len(nd.c) = 0
         [] c.k = "branch" -> Len(nd.c) > 0
         [] c.k = "void" -> Len(nd.c) = 0 /\ nd.t = <<>>
         [] c.k = "parent" -> Len(p) > Len(base) /\ InSet(Sub(t, Parent(p)).n, c.names)
         [] c.k = "not" -> ~InSet(nd.n, c.names)
Sat(t, c, base) == {p \in AddrSet(t) : Match(t, p, c, base)}

--------------------------------------------------------------------------------
(* pre-order walks; a skipped node is visited itself but not entered *)
RECURSIVE Walk(_, _, _, _, _)
Below(t, p, rev, M, S) ==
    LET k == Len(Sub(t, p).c)
    IN Cat([i \in 1..k |-> Walk(t, Append(p, IF rev THEN k + 1 - i ELSE i), rev, M, S)])
Walk(t, p, rev, M, S) == (IF p \in M THEN <<p>> ELSE <<>>)
                         \o (IF p \in S THEN <<>> ELSE Below(t, p, rev, M, S))
Select(t, p, rev, root, M, S) == IF root THEN Walk(t, p, rev, M, S) ELSE Below(t, p, rev, M, S)

(* walking on from a path: what follows it (or precedes it), each ancestor    *)
(* being visited when everything below it has been                            *)
RECURSIVE On(_, _, _, _, _)
On(t, p, rev, M, S) ==
    IF p = <<>> THEN <<>>
    ELSE LET q == Parent(p)
             k == Len(Sub(t, q).c)
             i == Last(p)
             sibs == IF rev THEN [j \in 1..(i-1) |-> Append(q, i - j)]
                     ELSE [j \in 1..(k-i) |-> Append(q, i + j)]
         IN Cat([j \in 1..Len(sibs) |-> Walk(t, sibs[j], rev, M, S)])
            \o (IF q \in M THEN <<q>> ELSE <<>>) \o On(t, q, rev, M, S)
SelectFrom(t, p, rev, root, M, S) == (IF root THEN Walk(t, p, rev, M, S) ELSE <<>>) \o On(t, p, rev, M, S)

First(s) == IF s = <<>> THEN <<>> ELSE <<Head(s)>>
--------------------------------------------------------------------------------
(* siblings, successors, leaves *)
Sibs(t, p, before, rev, M) ==
    LET q == Parent(p)
        k == Len(Sub(t, q).c)
        i == Last(p)
        s == IF before THEN [j \in 1..(i-1) |-> Append(q, j)] ELSE [j \in 1..(k-i) |-> Append(q, i + j)]
        f == SelectSeq(s, LAMBDA x : x \in M)
    IN IF rev THEN Rev(f) ELSE f
RECURSIVE NextP(_, _)
NextP(t, p) == IF p = <<>> THEN <<>>
               ELSE IF Last(p) < Siblings(t, p) THEN <<Append(Parent(p), Last(p) + 1)>>
               ELSE NextP(t, Parent(p))
RECURSIVE PrevP(_, _)
PrevP(t, p) == IF p = <<>> THEN <<>>
               ELSE IF Last(p) > 1 THEN <<Append(Parent(p), Last(p) - 1)>>
               ELSE PrevP(t, Parent(p))
RECURSIVE Zoom(_, _, _, _)
Zoom(t, p, last, k) == LET n == Len(Sub(t, p).c)
                       IN IF n = 0 \/ k = 0 THEN p ELSE Zoom(t, Append(p, IF last THEN n ELSE 1), last, k - 1)
Zoom1(t, s, last, k) == IF s = <<>> THEN <<>> ELSE <<Zoom(t, s[1], last, k)>>
\* leaves after / before the node p in document order (none of its own)
Before(p, q) ==    \* p comes before q and does not contain it
    \E i \in 1..Len(p) : i <= Len(q) /\ SubSeq(p, 1, i-1) = SubSeq(q, 1, i-1) /\ p[i] < q[i]
LeavesAfter(t, p) == SelectSeq(Leaves(t, <<>>), LAMBDA x : Before(p, x))
LeavesBefore(t, p) == SelectSeq(Leaves(t, <<>>), LAMBDA x : Before(x, p))
Texts(t, ls) == Cat([i \in 1..Len(ls) |-> Sub(t, ls[i]).t])
Min(a, b) == IF a < b THEN a ELSE b
LastN(s, k) == IF k < 0 THEN s ELSE SubSeq(s, Len(s) - Min(k, Len(s)) + 1, Len(s))
FirstN(s, k) == IF k < 0 THEN s ELSE SubSeq(s, 1, Min(k, Len(s)))
\* nodes of the path to p, root first
Chain(p) == [i \in 1..(Len(p) + 1) |-> SubSeq(p, 1, i - 1)]
RECURSIVE CommonN(_, _, _)
CommonN(p, q, i) == IF i < Len(p) /\ i < Len(q) /\ p[i+1] = q[i+1] THEN CommonN(p, q, i + 1) ELSE i

--------------------------------------------------------------------------------
R(r) == [r |-> r, s |-> <<>>, e |-> ""]
S(s) == [r |-> <<>>, s |-> s, e |-> ""]
E(e) == [r |-> <<>>, s |-> <<>>, e |-> e]
Expected(t, q) ==
    LET base == IF q.op \in {"select_path", "pick_path"} THEN q.p ELSE <<>>
        M == Sat(t, q.crit, base)
        K == Sat(t, q.skip, base)
        kids == [i \in 1..Len(Sub(t, q.p).c) |-> Append(q.p, i)]
        hits == SelectSeq(kids, LAMBDA x : x \in M)
        at == LeafAt(Sub(t, q.p), Leaves(Sub(t, q.p), <<>>), q.k)
        ch == Chain(q.p)
        from == SelectSeq(ch, LAMBDA x : x \in M)
    IN CASE q.op \in {"select", "select_path"} -> R(Select(t, q.p, q.rev, q.root, M, K))
         [] q.op \in {"pick", "pick_path"} -> R(First(Select(t, q.p, q.rev, q.root, M, K)))
         [] q.op \in {"walk_tree", "walk_tree_paths"} ->
               R(Select(t, q.p, q.rev, q.root, AddrSet(t), {}))
         [] q.op = "select_children" -> R(IF q.rev THEN Rev(hits) ELSE hits)
         [] q.op = "pick_child" -> R(First(IF q.rev THEN Rev(hits) ELSE hits))
         [] q.op = "indices" -> R(<<[i \in 1..Len(hits) |-> Last(hits[i]) - 1]>>)
         [] q.op = "index" -> IF kids = <<>> THEN E("ValueError")
                              ELSE LET h == SelectSeq(hits, LAMBDA x : Last(x) > q.k) IN
                              IF h = <<>> THEN E("ValueError") ELSE R(<<<<Last(h[1]) - 1>>>>)
         [] q.op = "contains" -> R(IF hits = <<>> THEN <<>> ELSE <<q.p>>)
         [] q.op \in {"locate", "locate_path"} -> R(IF at = <<>> THEN <<>> ELSE <<q.p \o at[1][1]>>)
         [] q.op = "find_parent" -> R(IF q.q # q.p /\ IsPrefix(q.p, q.q) THEN <<Parent(q.q)>> ELSE <<>>)
         [] q.op = "reconstruct_path" -> IF IsPrefix(q.p, q.q) THEN R(<<q.q>>) ELSE E("ValueError")
         [] q.op = "from_select" -> R(SelectFrom(t, q.p, q.rev, q.root, M, K))
         [] q.op = "from_pick" -> R(First(SelectFrom(t, q.p, q.rev, q.root, M, K)))
         [] q.op \in {"pred", "succ"} ->
               IF q.p = <<>> THEN E("ValueError") ELSE R(Sibs(t, q.p, q.op = "pred", q.rev, M))
         [] q.op = "prev_sibling" -> IF q.p = <<>> THEN E("ValueError")
               ELSE R(First(Sibs(t, q.p, TRUE, TRUE, AddrSet(t) \ K)))
         [] q.op = "next_sibling" -> IF q.p = <<>> THEN E("ValueError")
               ELSE R(First(Sibs(t, q.p, FALSE, FALSE, AddrSet(t) \ K)))
         [] q.op = "prev_path" -> R(PrevP(t, q.p))
         [] q.op = "next_path" -> R(NextP(t, q.p))
         [] q.op = "zoom_first" -> R(<<Zoom(t, q.p, FALSE, q.k)>>)
         [] q.op = "zoom_last" -> R(<<Zoom(t, q.p, TRUE, q.k)>>)
         [] q.op = "next_leaf_path" -> R(First(LeavesAfter(t, q.p)))
         [] q.op = "prev_leaf_path" -> R(First(Rev(LeavesBefore(t, q.p))))
         [] q.op = "next_leaf" -> R(First(SelectSeq(LeavesAfter(t, q.p), LAMBDA x : x \notin K)))
         [] q.op = "prev_leaf" -> R(First(Rev(SelectSeq(LeavesBefore(t, q.p), LAMBDA x : x \notin K))))
         [] q.op = "foregoing_str" -> S(LastN(Texts(t, LeavesBefore(t, q.p)), q.k))
         [] q.op = "ensuing_str" -> S(FirstN(Texts(t, LeavesAfter(t, q.p)), q.k))
         [] q.op = "select_from_path" -> R(IF q.rev THEN Rev(from) ELSE from)
         [] q.op = "pick_from_path" -> R(First(IF q.rev THEN Rev(from) ELSE from))
         [] q.op = "path_head" -> R(IF from = <<>> THEN <<>>
               ELSE Chain(IF q.rev THEN from[Len(from)] ELSE from[1]))
         [] q.op = "path_tail" -> R(IF from = <<>> THEN <<>>
               ELSE SelectSeq(ch, LAMBDA x : Len(x) >= Len(IF q.rev THEN from[1] ELSE from[Len(from)])))
         [] q.op = "common_ancestor" ->
               LET k == CommonN(q.p, q.q, 0) IN R(<<SubSeq(q.p, 1, k), <<k>>>>)
         [] q.op = "common_ancestor_foreign" -> R(<<>>)
         [] q.op = "sane" -> R(IF q.k = 1 THEN <<q.p>> ELSE <<>>)
Bad(rec) == {i \in 1..Len(rec.qs) : LET x == rec.qs[i] IN [r |-> x.r, s |-> x.s, e |-> x.e] # Expected(rec.t, x)}
TInit == l = 0
TNext == /\ l < Len(Trace)
         /\ l' = l + 1
         /\ LET rec == Trace[l+1]
                b == Bad(rec)
            IN b = {} \/ PrintT(<<"BAD", l+1, {rec.qs[i].op : i \in b},
                                  ToJson([i \in b |-> <<rec.qs[i], Expected(rec.t, rec.qs[i])>>])>>)
=============================================================================
