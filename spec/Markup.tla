------------------------------- MODULE Markup -------------------------------
(* Marking up text.  What a change of the tree by a markup may do is stated   *)
(* as a relation between the tree before (t) and after (u), not as an         *)
(* algorithm.  Every element of t carries a key (attribute "id") that its     *)
(* fragments inherit; the elements added by the step under consideration      *)
(* carry the attribute "new" with the number of the step.                     *)
EXTENDS TreeMap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

RECURSIVE AttrOf(_, _, _)
AttrOf(a, k, i) == IF i > Len(a) THEN "" ELSE IF a[i][1] = k THEN a[i][2] ELSE AttrOf(a, k, i + 1)
Key(nd) == AttrOf(nd.a, "id", 1)       \* "" for text nodes without a name

\* For every character of the content: the keys of the elements around it, outermost first
RECURSIVE Around(_, _)
Around(t, ks) == LET k == Key(t)
                     ks2 == IF k = "" THEN ks ELSE Append(ks, k)
                 IN IF Len(t.c) = 0 THEN [i \in 1..Len(t.t) |-> ks2]
                    ELSE Cat([i \in 1..Len(t.c) |-> Around(t.c[i], ks2)])
Without(ks, k) == SelectSeq(ks, LAMBDA x : x # k)
\* all named elements in document order: key, start, end in the content
RECURSIVE Elems(_, _)
RECURSIVE ElemsOf(_, _)
ElemsOf(c, pos) == IF c = <<>> THEN <<>> ELSE Elems(Head(c), pos) \o ElemsOf(Tail(c), pos + Len(Content(Head(c))))
Elems(t, pos) == (IF Key(t) = "" THEN <<>> ELSE <<[k |-> Key(t), n |-> t.n, s |-> pos, e |-> pos + Len(Content(t)),
                                                  leaf |-> Len(t.c) = 0]>>)
                 \o ElemsOf(t.c, pos)
\* where the characters of the mapping lie in the whole content: mapping position -> content position
RECURSIVE LeafStarts(_, _, _)
LeafStarts(t, ls, pos) == IF ls = <<>> THEN <<>>
                          ELSE <<<<Head(ls), pos>>>> \o LeafStarts(t, Tail(ls), pos + Len(Sub(t, Head(ls)).t))
Places(t, ls) ==       \* content positions of the characters of the mapping's text
    LET all == LeafStarts(t, Leaves(t, <<>>), 0)
        sel == SelectSeq(all, LAMBDA x : \E i \in 1..Len(ls) : ls[i] = x[1])
    IN Cat([i \in 1..Len(sel) |-> [j \in 1..Len(Sub(t, sel[i][1]).t) |-> sel[i][2] + j - 1]])

Fresh(t, sel, ign) == LET ls == Selected(t, sel, ign)
                      IN [text |-> Text(t, ls), offs |-> Offsets(t, ls, 0), paths |-> ls]
Count(s, k) == Cardinality({i \in 1..Len(s) : s[i] = k})
Fragments(es, k) == SelectSeq(es, LAMBDA x : x.k = k)
Divisible(rec, st, n) == InSet(n, st.div)

(* one markup step st = [s, e, name, key, u, exc, text, offs, paths, anc, div] on tree t *)
Verdict(rec, t, st) ==
    LET u == st.u
        before == Fresh(t, rec.sel, rec.ign)
        after == Fresh(u, rec.sel, rec.ign)
        places == Places(t, before.paths)
        marked == {places[i] : i \in (st.s + 1)..st.e}
        at == {places[i] : i \in 1..Len(places)}
        ra == Around(t, <<>>)
        rb == Around(u, <<>>)
        es == Elems(t, 0)
        eu == Elems(u, 0)
        keys == {es[i].k : i \in 1..Len(es)}
        new == Fragments(eu, st.key)
        voids(x) == SelectSeq(x, LAMBDA y : y.leaf /\ y.s = y.e /\ y.k # st.key)
        void(x) == [i \in 1..Len(voids(x)) |-> <<voids(x)[i].k, voids(x)[i].s>>]
    IN IF st.exc # "" THEN {"exception " \o st.exc}
       ELSE IF Content(u) # Content(t) THEN {"content-changed"}
       ELSE
       \* exactly the marked characters of the mapping lie inside the new element(s)
       (IF \E i \in 1..Len(rb) : (i-1) \in at /\ (Count(rb[i], st.key) > 0) # ((i-1) \in marked)
        THEN {"wrong-text-marked"} ELSE {})
       \cup (IF \E i \in 1..Len(rb) : Count(rb[i], st.key) > 1 THEN {"marked-twice"} ELSE {})
       \* all other elements still surround what they surrounded, nested as they were
       \cup (IF \E i \in 1..Len(rb) : Without(rb[i], st.key) # ra[i] THEN {"elements-changed"} ELSE {})
       \* empty elements are still there
       \cup (IF void(es) # void(eu) THEN {"empty-elements-changed"} ELSE {})
       \* no element has been cut that must not be cut; none has got lost; names are unchanged
       \cup (IF \E k \in keys : LET a == Fragments(es, k)
                                    b == Fragments(eu, k)
                                IN \/ Len(b) < Len(a)
                                   \/ Len(b) > Len(a) /\ ~InSet(a[1].n, st.div)
                                   \/ \E i \in 1..Len(b) : b[i].n # a[1].n
             THEN {"element-cut-or-lost"} ELSE {})
       \cup (IF new = <<>> /\ st.s < st.e THEN {"nothing-marked"} ELSE {})
       \cup (IF \E i \in 1..Len(new) : new[i].n # st.name THEN {"wrong-name"} ELSE {})
       \* the mapping describes the changed tree
       \cup (IF st.text # after.text THEN {"mapping-content"} ELSE {})
       \cup (IF st.offs # after.offs THEN {"mapping-positions"} ELSE {})
       \cup (IF st.paths # after.paths THEN {"mapping-paths"} ELSE {})
       \* all new elements lie in (or are) the node that is returned
       \cup (IF \E p \in AddrSet(u) : Key(Sub(u, p)) = st.key /\ ~IsPrefix(st.anc, p) THEN {"returned-ancestor"} ELSE {})
(* inserting a node with text st.ins at position st.s of the mapping *)
InsertVerdict(rec, t, st) ==
    LET u == st.u
        before == Fresh(t, rec.sel, rec.ign)
        after == Fresh(u, rec.sel, rec.ign)
        \* the content without the inserted node
        new == {p \in AddrSet(u) : Key(Sub(u, p)) = st.key}
        eu == Elems(u, 0)
        es == Elems(t, 0)
        nw == Fragments(eu, st.key)
    IN IF st.exc # "" THEN IF st.exc = "ValueError" /\ st.ndiv THEN {} ELSE {"exception " \o st.exc}
       ELSE IF Len(nw) # 1 THEN {"not-inserted-once"}
       ELSE LET a == nw[1].s
                b == nw[1].e
                c == Content(u)
                rb == Around(u, <<>>)
                ra == Around(t, <<>>)
                rest == SubSeq(rb, 1, a) \o SubSeq(rb, b + 1, Len(rb))
                p == CHOOSE q \in new : TRUE
                places == Places(t, before.paths)
            IN (IF SubSeq(c, 1, a) \o SubSeq(c, b + 1, Len(c)) # Content(t) THEN {"content-changed"} ELSE {})
               \cup (IF SubSeq(c, a + 1, b) # st.ins THEN {"wrong-text"} ELSE {})
               \cup (IF \E i \in 1..Len(rest) : i <= Len(ra) /\ rest[i] # ra[i] THEN {"elements-changed"} ELSE {})
               \* between the right characters of the mapping
               \cup (IF \/ st.s < Len(places) /\ a > places[st.s + 1]
                        \/ st.s > 0 /\ a < places[st.s] + 1 THEN {"wrong-place"} ELSE {})
               \cup (IF st.text # after.text THEN {"mapping-content"} ELSE {})
               \cup (IF st.offs # after.offs THEN {"mapping-positions"} ELSE {})
               \cup (IF st.paths # after.paths THEN {"mapping-paths"} ELSE {})
               \cup (IF st.anc # Parent(p) THEN {"returned-parent"} ELSE {})
(* the user has changed the tree and had the mapping rebuilt where the change took place *)
EditVerdict(rec, st) ==
    LET after == Fresh(st.u, rec.sel, rec.ign)
    IN IF st.exc # "" THEN {"exception " \o st.exc}
       ELSE (IF st.text # after.text THEN {"rebuilt-content"} ELSE {})
            \cup (IF st.offs # after.offs THEN {"rebuilt-positions"} ELSE {})
            \cup (IF st.paths # after.paths THEN {"rebuilt-paths"} ELSE {})
(* cutting the node at st.p in two before character st.s of its leaf st.leaf: st.r is the index of the *)
(* first child behind the cut; a full cut leaves the right part as a tree of its own (st.right)        *)
SplitVerdict(rec, t, st) ==
    LET u == st.u
        at == Sub(t, st.p)
        \* characters of node st.p before the cut
        n == Len(Content(at))
        ls == SelectSeq(LeafStarts(t, Leaves(t, <<>>), 0), LAMBDA x : IsPrefix(st.p, x[1]))
        lf == SelectSeq(ls, LAMBDA x : x[1] = st.leaf)
        cut == lf[1][2] - ls[1][2] + st.s
        v == Sub(u, st.p)
        left == Cat([i \in 1..st.r |-> Content(v.c[i])])
        full == IF st.full THEN Content(u) \o Content(st.right) ELSE Content(u)
        around == IF st.full THEN Around(u, <<>>) \o Around(st.right, <<Key(t)>>) ELSE Around(u, <<>>)
    IN IF st.exc # "" THEN {"exception " \o st.exc}
       ELSE IF full # Content(t) THEN {"content-changed"}
       ELSE (IF around # Around(t, <<>>) THEN {"elements-changed"} ELSE {})
            \cup (IF st.full THEN IF Content(u) # SubSeq(Content(at), 1, cut) THEN {"wrong-cut"} ELSE {}
                  ELSE IF st.leaf = st.p THEN IF st.r # st.s THEN {"wrong-index"} ELSE {}
                  ELSE IF st.r > Len(v.c) \/ left # SubSeq(Content(at), 1, cut) THEN {"wrong-cut"} ELSE {})
            \cup (IF ~st.full /\ \E k \in {x.k : x \in {Elems(t, 0)[i] : i \in 1..Len(Elems(t, 0))}} :
                        LET b == Len(Fragments(Elems(u, 0), k))
                            on == \E j \in (Len(st.p)+1)..Len(st.leaf) : Key(Sub(t, SubSeq(st.leaf, 1, j))) = k
                        IN b < 1 \/ b > (IF on THEN 2 ELSE 1)
                  THEN {"element-cut-or-lost"} ELSE {})
            \* nothing empty comes into being at the edge of a text, unless there were empty nodes already
            \* (a full cut at the edge of the text leaves one empty tree, as documented)
            \cup (IF ~st.full /\ \E i \in 1..Len(Elems(u, 0)) :
                         LET x == Elems(u, 0)[i]
                         IN x.leaf /\ x.s = x.e /\ ~\E j \in 1..Len(Elems(t, 0)) :
                               LET y == Elems(t, 0)[j] IN y.k = x.k /\ y.s = y.e
                  THEN {"empty-fragment"} ELSE {})
\* the source positions of all nodes in document order
RECURSIVE Starts(_, _)
RECURSIVE StartsOf(_, _)
StartsOf(c, pos) == IF c = <<>> THEN <<>> ELSE Starts(Head(c), pos) \o StartsOf(Tail(c), pos + Len(Content(Head(c))))
Starts(t, pos) == <<pos>> \o StartsOf(t.c, pos)
PosVerdict(st) == IF st.exc = "" /\ st.pos # <<>> /\ st.pos # Starts(st.u, 0) THEN {"node-positions"} ELSE {}
RECURSIVE Steps(_, _, _)
Steps(rec, t, i) ==
    IF i > Len(rec.steps) THEN {}
    ELSE LET st == rec.steps[i]
             v == (IF st.op = "markup" THEN Verdict(rec, t, st)
                   ELSE IF st.op = "edit" THEN EditVerdict(rec, st)
                   ELSE IF st.op = "insert" THEN InsertVerdict(rec, t, st)
                   ELSE SplitVerdict(rec, t, st)) \cup PosVerdict(st)
         IN IF v # {} THEN v \cup {"step " \o ToString(i)}
            ELSE Steps(rec, IF st.exc = "" THEN st.u ELSE t, i + 1)
TInit == l = 0
TNext == /\ l < Len(Trace)
         /\ l' = l + 1
         /\ LET b == Steps(Trace[l+1], Trace[l+1].t, 1)
            IN b = {} \/ PrintT(<<"BAD", l+1, b>>)
=============================================================================
