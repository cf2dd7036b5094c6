------------------------------- MODULE Peg -------------------------------
(***************************************************************************)
(* Denotational specification of DHParser's parsing-expression semantics:  *)
(* recognition, extent, concrete syntax tree (all four levels of early     *)
(* tree reduction, dropping, hiding), farthest failure, the variable stack *)
(* of Capture/Retrieve/Pop, seed-and-grow left recursion, mandatory items  *)
(* with skip- and resume-rules.                                            *)
(*                                                                         *)
(* It knows nothing of memoization, rollback stacks, history recording or  *)
(* recursion counters: those are implementation mechanisms that must be    *)
(* invisible.  A grammar case g is a record                                *)
(*   x     text, a sequence of one-character strings                       *)
(*   N     sequence of parser records, references are indices into N       *)
(*   lv    level of early tree reduction (0..3)                            *)
(* Every parser record has op, as (argument indices), nm (node name),      *)
(* an (name starts with ":"), dj (disposable), dr (drops content), ...     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

Capitals == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","Ä">>
Smalls ==   <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z","ä">>
Other(xs, ys) == [c \in {xs[j] : j \in DOMAIN xs} |-> ys[CHOOSE j \in DOMAIN xs : xs[j] = c]]
Lower == Other(Capitals, Smalls)
Upper == Other(Smalls, Capitals)
LowerC(c) == IF c \in DOMAIN Lower THEN Lower[c] ELSE c
UpperC(c) == IF c \in DOMAIN Upper THEN Upper[c] ELSE c

---------------------------------------------------------------------------
\* Trees: n name, a anonymous?, c children, t leaf text, p position (-1: not set)
Nd(n, a, c, t) == [n |-> n, a |-> a, c |-> c, t |-> IF c = <<>> THEN t ELSE <<>>, p |-> -1]
Empty == Nd(":EMPTY", TRUE, <<>>, <<>>)
NonEmpty(n) == n.c # <<>> \/ n.t # <<>>
Keep(n) == NonEmpty(n) \/ ~n.a
\* the name of a node that is just passed through is positioned by the innermost match
At(n, i) == IF n.p >= 0 \/ (n.n = ":EMPTY") THEN n ELSE [n EXCEPT !.p = i]

RECURSIVE Content(_)
Content(n) == IF n.c = <<>> THEN n.t
              ELSE FlattenSeq([j \in DOMAIN n.c |-> Content(n.c[j])])

---------------------------------------------------------------------------
\* Construction of a parser's node from the nodes of its parts
Ret1Flat(q, n) ==    \* exactly one result node
    IF q.dj THEN (IF q.dr THEN Empty ELSE n)
    ELSE IF n.a THEN [Nd(q.nm, q.an, n.c, n.t) EXCEPT !.p = -1]
    ELSE Nd(q.nm, q.an, <<n>>, <<>>)
Ret0(q) == IF q.dj THEN Empty ELSE Nd(q.nm, q.an, <<>>, <<>>)
Ret1NoRed(q, n) ==
    IF q.dr THEN Empty
    ELSE IF n.a /\ ~NonEmpty(n) THEN (IF q.dj THEN Empty ELSE Nd(q.nm, q.an, <<>>, <<>>))
    ELSE Nd(q.nm, q.an, <<n>>, <<>>)
Ret1(lv, q, n) == IF lv = 0 THEN Ret1NoRed(q, n) ELSE Ret1Flat(q, n)
RetNone(lv, q) == IF lv = 0 THEN (IF q.dr \/ q.dj THEN Empty ELSE Nd(q.nm, q.an, <<>>, <<>>)) ELSE Ret0(q)

\* anonymous inner nodes are replaced by their children, anonymous empty leaves vanish
Splice(rs) == FlattenSeq([j \in DOMAIN rs |->
                 IF rs[j].a /\ rs[j].c # <<>> THEN rs[j].c
                 ELSE IF Keep(rs[j]) THEN <<rs[j]>> ELSE <<>>])
AnonLeaf(n) == n.a /\ n.c = <<>>
RECURSIVE MergeRuns(_)
MergeRuns(ns) ==   \* merges maximal runs of two or more adjacent anonymous leaves
    IF Len(ns) < 2 THEN ns
    ELSE IF AnonLeaf(ns[1]) /\ AnonLeaf(ns[2])
         THEN MergeRuns(<<[Nd(":Text", TRUE, <<>>, ns[1].t \o ns[2].t) EXCEPT !.p = ns[1].p]>>
                        \o SubSeq(ns, 3, Len(ns)))
         ELSE <<ns[1]>> \o MergeRuns(Tail(ns))
\* an early merged run is again an anonymous leaf, hence the greedy left fold above is complete

RetN(lv, q, rs) ==
    IF lv = 0 THEN (IF q.dr \/ (q.dj /\ rs = <<>>) THEN Empty ELSE Nd(q.nm, q.an, rs, <<>>))
    ELSE IF q.dr THEN Empty
    ELSE IF rs = <<>> THEN Ret0(q)
    ELSE IF Len(rs) = 1 THEN Ret1Flat(q, rs[1])
    ELSE LET nr == Splice(rs) IN
         IF lv = 1 THEN (IF nr # <<>> \/ ~q.dj THEN Nd(q.nm, q.an, nr, <<>>) ELSE Empty)
         ELSE IF nr = <<>> THEN Ret0(q)
         ELSE IF lv = 2 THEN
              (IF \A j \in DOMAIN nr : AnonLeaf(nr[j])
               THEN LET t == FlattenSeq([j \in DOMAIN nr |-> nr[j].t])
                    IN IF t # <<>> \/ ~q.dj THEN Nd(q.nm, q.an, <<>>, t) ELSE Empty
               ELSE Nd(q.nm, q.an, nr, <<>>))
         ELSE LET m == MergeRuns(nr) IN
              IF Len(m) = 1 /\ AnonLeaf(m[1])
              THEN (IF m[1].t # <<>> \/ ~q.dj THEN Nd(q.nm, q.an, <<>>, m[1].t) ELSE Empty)
              ELSE Nd(q.nm, q.an, m, <<>>)

---------------------------------------------------------------------------
\* Parsing state: v variable stacks (name -> seq of captured texts), f farthest failure,
\* e sequence of errors [p, c].   Results: k "ok" | "no" | "ex", i end, n node, s state
\* cx: rec (<<forward, pos>> -> depth), top: index of the start parser
Ok(i, n, s) == [k |-> "ok", i |-> i, n |-> n, s |-> s]
No(i, s, s0) == [k |-> "no", i |-> i, n |-> Empty,
                 s |-> [s EXCEPT !.f = IF i > @ THEN i ELSE @, !.v = s0.v]]
Char(g, i) == g.x[i+1]
Has(g, i, t) == i + Len(t) <= Len(g.x) /\ \A j \in DOMAIN t : g.x[i+j] = t[j]
HasIC(g, i, t) == i + Len(t) <= Len(g.x) /\ \A j \in DOMAIN t : LowerC(g.x[i+j]) = LowerC(t[j])
Seg(g, i, j) == SubSeq(g.x, i+1, j)
InCls(q, c) == (c \in {q.cs[j] : j \in DOMAIN q.cs}) # q.neg

RECURSIVE Run(_, _, _, _)
Run(g, q, i, m) ==  \* end of the longest run of class characters from i (at most m, m<0: unbounded)
    IF m = 0 \/ i >= Len(g.x) \/ ~InCls(q, Char(g, i)) THEN i ELSE Run(g, q, i+1, m-1)

\* whitespace: a run of the characters in cs with comments in between.  A comment begins with the
\* characters ca and extends to the first occurrence of cb behind it (nothing, if there is none)
RECURSIVE SkipWsc(_, _, _), Close(_, _, _)
Close(g, i, t) == IF i + Len(t) > Len(g.x) THEN -1 ELSE IF Has(g, i, t) THEN i + Len(t) ELSE Close(g, i+1, t)
\* the predefined kinds of whitespace: "linefeed" at most one linebreak (and the blanks behind it), but
\* none that is followed by an empty line; "linestart" likewise, without the blanks behind it
BlankOrTab == [cs |-> <<" ", "\t">>, neg |-> FALSE]
WsRun(g, i, q) ==
    IF "lf" \notin DOMAIN q \/ q.lf = "" THEN Run(g, q, i, -1)
    ELSE LET e == Run(g, BlankOrTab, i, -1)
             b == Run(g, BlankOrTab, e + 1, -1)
         IN IF ~Has(g, e, <<"\n">>) \/ Has(g, b, <<"\n">>) THEN e
            ELSE IF q.lf = "linefeed" THEN b ELSE e + 1
SkipWsc(g, i, q) ==
    LET e == WsRun(g, i, q)
        c == IF q.ca # <<>> /\ Has(g, e, q.ca) THEN Close(g, e + Len(q.ca), q.cb) ELSE -1
    IN IF c < 0 THEN e ELSE SkipWsc(g, c, q)

Clos(c) == CASE c = "(" -> ")" [] c = "[" -> "]" [] c = "{" -> "}" [] c = "<" -> ">" [] OTHER -> c

\* counted repetitions and interleaves of parts that match nothing are not specified (parts must not
\* be optional; a recovered mandatory violation may still have length zero)
Open(s) == [s EXCEPT !.o = TRUE]
StackOf(s, v) == IF v \in DOMAIN s.v THEN s.v[v] ELSE <<>>
SetStack(s, v, st) == [s EXCEPT !.v = [k \in (DOMAIN s.v) \cup {v} |-> IF k = v THEN st ELSE s.v[k]]]

\* the pieces of a "smart" regular expression: capturing groups become nodes
RECURSIVE Pieces(_, _, _, _, _)
Pieces(g, q, j, i, acc) ==
    IF j > Len(q.gr) THEN [ok |-> TRUE, i |-> i, ns |-> acc, any |-> \E m \in DOMAIN acc : acc[m].t # <<>>]
    ELSE LET r == q.gr[j]
             e == IF r.lit THEN (IF Has(g, i, r.cs) THEN i + Len(r.cs) ELSE -1)
                  ELSE LET z == Run(g, r, i, r.max) IN IF z - i >= r.min THEN z ELSE -1
         IN IF e < 0 THEN [ok |-> FALSE, i |-> i, ns |-> <<>>, any |-> FALSE]
            ELSE IF r.cap THEN Pieces(g, q, j+1, e,
                     Append(acc, [Nd(r.nm, r.an, <<>>, Seg(g, i, e)) EXCEPT !.p = i]))
                 ELSE Pieces(g, q, j+1, e, acc)

RECURSIVE Ev(_, _, _, _, _), Ev0(_, _, _, _, _), SeqEv(_, _, _, _, _, _, _, _, _),
          RepEv(_, _, _, _, _, _, _, _), AltEv(_, _, _, _, _, _), InterEv(_, _, _, _, _, _, _),
          InterPick(_, _, _, _, _, _, _), Grow(_, _, _, _, _, _)

\* first position at or after i where t occurs, -1 if none
RECURSIVE Find(_, _, _)
Find(g, i, t) == IF i + Len(t) > Len(g.x) THEN -1 ELSE IF Has(g, i, t) THEN i ELSE Find(g, i+1, t)
RECURSIVE FindIC(_, _, _)
FindIC(g, i, t) == IF i + Len(t) > Len(g.x) THEN -1 ELSE IF HasIC(g, i, t) THEN i ELSE FindIC(g, i+1, t)
\* end of the first occurrence at or after i of what a rule describes, -1 if none.  Rules: "s" a
\* string, "i" a string in capital or small letters, "r" a run of characters, "a" the place before a string, "p" see RuleP
RECURSIVE FindRule(_, _, _)
FindRule(g, i, r) ==
    IF r.k = "s" THEN (LET k == Find(g, i, r.cs) IN IF k < 0 THEN -1 ELSE k + Len(r.cs))
    ELSE IF r.k = "i" THEN (LET k == FindIC(g, i, r.cs) IN IF k < 0 THEN -1 ELSE k + Len(r.cs))
    ELSE IF r.k = "a" THEN Find(g, i, r.cs)
    ELSE IF i >= Len(g.x) THEN -1
    ELSE IF InCls(r, Char(g, i)) THEN Run(g, r, i, -1) ELSE FindRule(g, i+1, r)
\* comments look like # ... ; unless a grammar says otherwise (g.wsc)
\* End of the comment that begins in i..e-1 and contains the place e in its inside, -1 if there is none
RECURSIVE CommentAround(_, _, _)
CommentAround(g, i, e) ==
    LET ca == IF "wsc" \in DOMAIN g THEN g.wsc.ca ELSE IF g.comments THEN <<"#">> ELSE <<>>
        cb == IF "wsc" \in DOMAIN g THEN g.wsc.cb ELSE <<";">>
        a == IF ca # <<>> THEN Find(g, i, ca) ELSE -1
        b == IF a < 0 THEN -1 ELSE Close(g, a + Len(ca), cb)
    IN IF a < 0 \/ a >= e \/ b < 0 THEN -1
       ELSE IF e < b THEN b ELSE CommentAround(g, b, e)
\* ... the first one that does not end inside a comment
RECURSIVE FindOut(_, _, _, _)
FindOut(g, i0, i, r) ==
    LET e == FindRule(g, i, r)
        c == IF e < 0 THEN -1 ELSE CommentAround(g, i0, e)
    IN IF c < 0 THEN e ELSE FindOut(g, i0, c, r)
\* re-entry point: the nearest place that one of the rules leads to.  The skipped text becomes a node
\* of its own; a rule that is a parser ("p") is applied just there and contributes its own node.
RECURSIVE ReentryFrom(_, _, _, _, _)
ReentryFrom(g, i, rules, j, best) ==
    IF j > Len(rules) THEN best
    ELSE IF rules[j].k = "p"
    THEN LET r == Ev(g, rules[j].ref, i, [rec |-> <<>>], best.s)
         IN ReentryFrom(g, i, rules, j+1,
              IF r.k = "ok" /\ (best.e < 0 \/ r.i < best.e)
              THEN [e |-> r.i, s |-> r.s,
                    n |-> IF r.n.n = ":EMPTY" THEN [Nd("ZOMBIE__", FALSE, <<>>, Seg(g, i, r.i)) EXCEPT !.p = i]
                          ELSE [r.n EXCEPT !.p = i]]
              ELSE [best EXCEPT !.s = r.s])
    ELSE LET e == FindOut(g, i, i, rules[j])
         IN ReentryFrom(g, i, rules, j+1,
              IF e >= 0 /\ (best.e < 0 \/ e < best.e)
              THEN [best EXCEPT !.e = e, !.n = [Nd("ZOMBIE__", FALSE, <<>>, Seg(g, i, e)) EXCEPT !.p = i]]
              ELSE best)
Reentry(g, i, rules, s) ==
    ReentryFrom(g, i, rules, 1, [e |-> -1, s |-> s, n |-> [Nd("ZOMBIE__", FALSE, <<>>, <<>>) EXCEPT !.p = i]])
\* the code of a mandatory violation: the first customized error that fits the place (their rules
\* have to match right there), 1010 if there is none
RECURSIVE FirstErr(_, _, _)
FirstErr(g, i, es) ==
    IF es = <<>> THEN 1010
    ELSE IF \/ es[1].k = "s" /\ Has(g, i, es[1].cs)
            \/ es[1].k = "i" /\ HasIC(g, i, es[1].cs)
            \/ es[1].k = "r" /\ i < Len(g.x) /\ InCls(es[1], Char(g, i))
         THEN es[1].code ELSE FirstErr(g, i, Tail(es))
ErrCode(g, i, sym) == IF "error" \in DOMAIN g /\ sym \in DOMAIN g.error THEN FirstErr(g, i, g.error[sym]) ELSE 1010
Rules(rs, sym) == IF sym \in DOMAIN rs THEN rs[sym] ELSE <<>>

Zombie(t, i) == [Nd("ZOMBIE__", FALSE, <<>>, t) EXCEPT !.p = i]

\* A mandatory violation propagates upward until a parser that belongs to a symbol with a
\* resume rule that applies (or the start parser) catches it.  x.i location and x.len extent of
\* the text already covered by the error node x.n; x.first: thrown by the parser itself.
Handle(g, p, i, x0) ==
    LET q == g.N[p]
        nxt == x0.i + x0.len
        re == Reentry(g, nxt, Rules(g.resume, q.sym), x0.s)
        x == [x0 EXCEPT !.s = re.s]
        e0 == re.e
        e == IF e0 < 0 THEN nxt ELSE e0
        sk == re.n
        zs == {j \in DOMAIN x.n.c : x.n.c[j].n = "ZOMBIE__"}
        z1 == CHOOSE j \in zs : \A k \in zs : j >= k
        fill == zs # {} /\ ~NonEmpty(x.n.c[z1])
        xn == IF fill THEN [x.n EXCEPT !.c[z1].t = Seg(g, nxt, e), !.c[z1].n = sk.n, !.c[z1].a = sk.a] ELSE x.n
        tail == IF fill THEN <<>> ELSE <<sk>>
        cut == Zombie(Seg(g, i, x.i), i)
    IN IF e0 >= 0 \/ p = g.start
       THEN [k |-> "ok", i |-> e, s |-> x.s,
             n |-> IF x.first THEN [xn EXCEPT !.c = @ \o tail, !.t = <<>>]
                   ELSE Nd(q.nm, q.an, <<cut, xn>> \o tail, <<>>)]
       ELSE IF x.first THEN [x EXCEPT !.first = FALSE]
       ELSE [x EXCEPT !.i = i, !.len = @ + (x.i - i),
                      !.n = Nd(q.nm, q.an, IF x.i > i THEN <<cut, x.n>> ELSE <<x.n>>, <<>>)]

\* positions the node of a successful match, catches errors
Ev(g, p, i, cx, s) ==
    LET r == Ev0(g, p, i, cx, s)
        r1 == IF r.k = "ex" /\ g.N[p].op \notin {"fwd", "ref"} THEN Handle(g, p, i, r) ELSE r
    IN IF r1.k = "ok" THEN [r1 EXCEPT !.n = At(r1.n, i)] ELSE r1

Leaf(q, i, e, t, s) ==
    IF q.dr THEN Ok(e, Empty, s)
    ELSE IF t # <<>> \/ ~q.dj THEN Ok(e, Nd(q.nm, q.an, <<>>, t), s)
    ELSE Ok(e, Empty, s)

Ev0(g, p, i, cx, s) ==
  LET q == g.N[p] IN
  CASE q.op = "text" ->
         IF Has(g, i, q.cs) THEN Leaf(q, i, i + Len(q.cs), q.cs, s) ELSE No(i, s, s)
    [] q.op = "icase" ->
         IF HasIC(g, i, q.cs) THEN Leaf(q, i, i + Len(q.cs), Seg(g, i, i + Len(q.cs)), s) ELSE No(i, s, s)
    [] q.op = "rx" ->
         LET e == Run(g, q, i, q.max)
         IN IF e - i >= q.min THEN Leaf(q, i, e, Seg(g, i, e), s) ELSE No(i, s, s)
    [] q.op = "wsc" ->      \* insignificant whitespace and comments
         LET e == SkipWsc(g, i, q)
         IN IF q.dr /\ q.keep /\ WsRun(g, i, q) # e      \* comments are kept, though whitespace is dropped
            THEN Ok(e, Nd("comment__", FALSE, <<>>, Seg(g, i, e)), s)
            ELSE Leaf(q, i, e, Seg(g, i, e), s)
    [] q.op = "ref" -> Ev(g, q.as[1], i, cx, s)     \* a symbol that is not recursive
    [] q.op = "any" ->
         IF i < Len(g.x) THEN Leaf(q, i, i+1, Seg(g, i, i+1), s) ELSE No(i, s, s)
    [] q.op = "always" -> Ok(i, IF q.an THEN Empty ELSE Nd(q.nm, q.an, <<>>, <<>>), s)
    [] q.op = "never" -> No(i, s, s)
    [] q.op = "smart" ->
         LET r == Pieces(g, q, 1, i, <<>>)
         IN IF ~r.ok THEN No(i, s, s)
            ELSE IF q.dr \/ (q.dj /\ ~r.any) THEN Ok(r.i, Empty, s)
            ELSE Ok(r.i, RetN(g.lv, q, SelectSeq(r.ns, LAMBDA n : Keep(n))), s)
    [] q.op = "opt" ->
         LET r == Ev(g, q.as[1], i, cx, s)
         IN IF r.k = "ok" THEN Ok(r.i, Ret1(g.lv, q, r.n), r.s)
            ELSE IF r.k = "ex" THEN r
            ELSE Ok(i, RetNone(g.lv, q), r.s)
    [] q.op = "rep" -> RepEv(g, p, i, i, cx, s, s, <<>>)
    [] q.op = "alt" -> AltEv(g, p, 1, i, cx, s)
    [] q.op = "seq" -> SeqEv(g, p, 1, i, i, cx, s, s, <<>>)
    [] q.op = "inter" -> InterEv(g, p, i, i, cx, [st |-> s, s0 |-> s, cnt |-> [j \in DOMAIN q.as |-> 0]], <<>>)
    [] q.op \in {"la", "nla"} ->
         LET r == Ev(g, q.as[1], i, cx, s)
         IN IF r.k = "ex" THEN r
            ELSE IF (r.k = "ok") = (q.op = "la")
            THEN Ok(i, IF q.dj THEN Empty ELSE Nd(q.nm, q.an, <<>>, <<>>), [r.s EXCEPT !.v = s.v])
            ELSE No(i, r.s, s)
    [] q.op \in {"lb", "nlb"} ->  \* looks backward: the argument is matched against the reversed text
         LET a == g.N[q.as[1]]
             m == IF a.op = "text" THEN i >= Len(a.cs) /\ \A j \in DOMAIN a.cs : g.x[i+1-j] = a.cs[j]
                  ELSE a.min = 0 \/ (i >= a.min /\ \A j \in 1..a.min : InCls(a, g.x[i+1-j]))
         IN IF m = (q.op = "lb")
            THEN Ok(i, IF q.dr THEN Empty ELSE Nd(q.nm, q.an, <<>>, <<>>), s)
            ELSE No(i, s, s)
    [] q.op = "syn" ->
         LET r == Ev(g, q.as[1], i, cx, s)
         IN IF r.k = "no" THEN No(i, r.s, s)
            ELSE IF r.k = "ex" THEN r
            ELSE IF q.dr THEN Ok(r.i, Empty, r.s)
            ELSE IF q.dj THEN r
            ELSE IF r.n.a THEN Ok(r.i, Nd(q.nm, q.an, r.n.c, r.n.t), r.s)
            ELSE Ok(r.i, Nd(q.nm, q.an, <<r.n>>, <<>>), r.s)
    [] q.op = "cap" ->
         LET r == Ev(g, q.as[1], i, cx, s)
         IN IF r.k = "no" THEN No(i, r.s, s)
            ELSE IF r.k = "ex" THEN r
            ELSE Ok(r.i, Ret1(g.lv, q, r.n), SetStack(r.s, q.var, Append(StackOf(r.s, q.var), Seg(g, i, r.i))))
    [] q.op \in {"ret", "pop"} ->
         LET \* an empty stack makes Retrieve (not Pop) capture on the spot
             c == IF q.op = "ret" /\ StackOf(s, q.var) = <<>>
                  THEN Ev(g, q.as[1], i, cx, s) ELSE Ok(i, Empty, s)
         IN IF c.k # "ok" THEN No(i, c.s, s)
            ELSE LET st == StackOf(c.s, q.var)
                     v == IF st = <<>> THEN <<>> ELSE
                          IF q.match = "bracket" THEN [j \in DOMAIN Last(st) |-> Clos(Last(st)[j])] ELSE Last(st)
                     hit == st # <<>> /\ Has(g, i, v)
                     v1 == IF hit THEN v ELSE <<>>
                     s1 == IF q.op = "pop" THEN SetStack(c.s, q.var, Front(st)) ELSE c.s
                 IN IF st = <<>> /\ q.match = "bracket"     \* complains about the missing value
                    THEN Ok(i, Nd(q.rnm, FALSE, <<>>, <<>>), [c.s EXCEPT !.e = @ \cup {<<i, 1090>>}])
                    ELSE IF st = <<>> THEN No(i, c.s, s)
                    ELSE IF ~hit /\ q.match # "optional" THEN No(i, c.s, s)
                    ELSE Ok(i + Len(v1), IF q.dr THEN Empty ELSE Nd(q.rnm, FALSE, <<>>, v1), s1)
    [] q.op = "fwd" ->
         IF <<p, i>> \in DOMAIN cx.rec
         THEN LET r == cx.rec[<<p, i>>]     \* recursion at the same place: the match grown so far
              IN IF r.k = "no" THEN [k |-> "no", i |-> i, n |-> Empty, s |-> s]
                 ELSE Ok(r.i, r.n, [s EXCEPT !.v = r.s.v])
         ELSE IF ~g.lr THEN Ev(g, q.as[1], i, cx, s)
         ELSE LET r == Ev(g, q.as[1], i, [cx EXCEPT !.rec = @ @@ (<<p, i>> :> [k |-> "no"])], s)
              IN IF r.k # "ok" THEN r ELSE Grow(g, p, i, cx, s, r)
    [] OTHER -> Assert(FALSE, <<"unknown op", q.op>>)

\* grow the seed of a left-recursive match as long as it gets longer
Grow(g, p, i, cx, s, r) ==
    LET r2 == Ev(g, g.N[p].as[1], i, [cx EXCEPT !.rec = @ @@ (<<p, i>> :> r)],
                 [s EXCEPT !.f = r.s.f, !.e = r.s.e])
    IN IF r2.k = "ex" THEN r2
       ELSE IF r2.k = "no" \/ r2.i <= r.i
       THEN [r EXCEPT !.s = [@ EXCEPT !.f = IF r2.s.f > @ THEN r2.s.f ELSE @, !.e = @ \cup r2.s.e]]
       ELSE Grow(g, p, i, cx, s, r2)

RepEv(g, p, i0, i, cx, s0, s, acc) ==
    LET q == g.N[p]
        r == IF q.hi >= 0 /\ Len(acc) >= q.hi THEN No(-1, s, s) ELSE Ev(g, q.as[1], i, cx, s)
        fin(acc2, e, st) ==
            LET ns == SelectSeq([j \in DOMAIN acc2 |-> acc2[j]], LAMBDA m : Keep(m))
            IN Ok(e, RetN(g.lv, q, ns), st)
    IN IF r.k = "ex" THEN r
       ELSE IF r.k = "no"
       THEN IF Len(acc) >= q.lo THEN fin(acc, i, r.s) ELSE No(i0, r.s, s0)
       ELSE IF r.i <= i     \* no progress: stop
       THEN fin(Append(acc, r.n), r.i, IF q.hi >= 0 THEN Open(r.s) ELSE r.s)
       ELSE RepEv(g, p, i0, r.i, cx, s0, r.s, Append(acc, r.n))

AltEv(g, p, j, i, cx, s) ==
    LET q == g.N[p] IN
    IF j > Len(q.as) THEN No(i, s, s)
    ELSE LET r == Ev(g, q.as[j], i, cx, s)
         IN IF r.k = "ok" THEN Ok(r.i, Ret1(g.lv, q, r.n), r.s)
            ELSE IF r.k = "ex" THEN r
            ELSE AltEv(g, p, j+1, i, cx, r.s)

SeqEv(g, p, j, i0, i, cx, s0, s, acc) ==
    LET q == g.N[p]
        Res(a) == RetN(g.lv, q, SelectSeq(a, LAMBDA n : Keep(n)))
        Err(a) == IF q.dr THEN Nd(q.nm, q.an, SelectSeq(a, LAMBDA n : Keep(n)), <<>>) ELSE Res(a)
    IN
    IF j > Len(q.as) THEN Ok(i, Res(acc), s)
    ELSE LET r == Ev(g, q.as[j], i, cx, s)
         IN IF r.k = "ok" THEN SeqEv(g, p, j+1, i0, r.i, cx, s0, r.s, Append(acc, r.n))
            ELSE IF r.k = "ex" THEN r
            ELSE IF j <= q.mand THEN No(i0, r.s, s0)
            ELSE \* mandatory violation
                 LET rules == Rules(g.skip, q.sym)
                     re == Reentry(g, i, rules, r.s)
                     e == re.e
                     s1 == [re.s EXCEPT !.e = @ \cup {<<i, ErrCode(g, i, q.sym)>>}]
                 IN IF e < 0
                    THEN [k |-> "ex", i |-> i0, len |-> i - i0, first |-> TRUE, s |-> s1,
                          n |-> Err(Append(acc, Zombie(<<>>, i)))]
                    ELSE LET z == re.n
                             r2 == Ev(g, q.as[j], e, cx, s1)
                         IN IF r2.k = "ex" THEN r2
                            ELSE IF r2.k = "ok"
                            THEN SeqEv(g, p, j+1, i0, r2.i, cx, s0, r2.s, acc \o <<z, r2.n>>)
                            ELSE SeqEv(g, p, j+1, i0, e, cx, s0, r2.s, Append(acc, z))

InterEv(g, p, i0, i, cx, st, acc) == InterPick(g, p, 1, i0, i, cx, [x |-> st, a |-> acc])
InterPick(g, p, j, i0, i, cx, z) ==
    LET q == g.N[p]  st == z.x IN
    IF j > Len(q.as)
    THEN LET unmet == {m \in DOMAIN q.as : st.cnt[m] < q.reps[m][1]}
             Res(a) == RetN(g.lv, q, SelectSeq(a, LAMBDA n : Keep(n)))
             Err(a) == IF q.dr THEN Nd(q.nm, q.an, SelectSeq(a, LAMBDA n : Keep(n)), <<>>) ELSE Res(a)
         IN IF unmet = {} THEN Ok(i, Res(z.a), st.st)
            ELSE IF \E m \in unmet : m <= q.mand THEN No(i0, st.st, st.s0)
            ELSE \* mandatory violation; once recovered, only what is still missing is looked for
                 LET rules == Rules(g.skip, q.sym)
                     re == Reentry(g, i, rules, st.st)
                     e == re.e
                     s1 == [re.s EXCEPT !.e = @ \cup {<<i, ErrCode(g, i, q.sym)>>}]
                 IN IF e < 0
                    THEN [k |-> "ex", i |-> i0, len |-> i - i0, first |-> TRUE, s |-> s1,
                          n |-> Err(Append(z.a, Zombie(<<>>, i)))]
                    ELSE IF e = i THEN Ok(i, Res(Append(z.a, re.n)), s1)    \* nothing skipped: ends here
                    ELSE InterEv(g, p, i0, e, cx,
                           [st EXCEPT !.st = s1, !.cnt = [m \in DOMAIN q.as |->
                                          IF m \in unmet THEN @[m] ELSE q.reps[m][2]]],
                           Append(z.a, re.n))
    ELSE IF st.cnt[j] >= q.reps[j][2] THEN InterPick(g, p, j+1, i0, i, cx, z)
    ELSE LET r == Ev(g, q.as[j], i, cx, st.st)
         IN IF r.k = "ex" THEN r
            ELSE IF r.k = "ok"
            THEN IF r.i = i       \* an item that matches without moving forward: left open
                 THEN Ok(i, RetN(g.lv, q, SelectSeq(Append(z.a, r.n), LAMBDA n : Keep(n))), Open(r.s))
                 ELSE InterEv(g, p, i0, r.i, cx, [st EXCEPT !.st = r.s, !.cnt[j] = @ + 1], Append(z.a, r.n))
            ELSE InterPick(g, p, j+1, i0, i, cx, [z EXCEPT !.x.st = r.s])

---------------------------------------------------------------------------
\* What calling a grammar on a text yields: kind "full" (all text matched), "wsp" (all but
\* trailing whitespace), "part" (a proper prefix matched) or "none"; end; tree; errors
S0 == [v |-> <<>>, f |-> -1, e |-> {}, o |-> FALSE]
RECURSIVE AllBlank(_)
AllBlank(t) == t = <<>> \/ (t[1] = " " /\ AllBlank(Tail(t)))
\* a rest of insignificant whitespace (g.wsc, if the grammar defines it) need not be matched
Blank(g, i) == IF "wsc" \in DOMAIN g THEN SkipWsc(g, i, g.wsc) = Len(g.x) ELSE AllBlank(Seg(g, i, Len(g.x)))
ParseAt(g, i) ==
    LET r == Ev(g, g.start, i, [rec |-> <<>>], S0)
    IN IF r.k = "ex" THEN [r EXCEPT !.k = "ok", !.i = r.i + r.len] ELSE r
LeftOver(s) == \E v \in DOMAIN s.v : s.v[v] # <<>>
\* values left on a stack at the end of a complete match are reported (the code distinguishes
\* 1050 and 1055 according to the grammar; both are written as 1050 here)
NotEmptied(g, r) == IF LeftOver(r.s) /\ r.k = "ok" /\ r.i = Len(g.x) THEN {<<0, 1050>>} ELSE {}
WithMark(e, left) == IF left = {} THEN e
                     ELSE [e EXCEPT !.errs = @ \cup left,
                                    !.tree = IF @.c = <<>> THEN @ ELSE [@ EXCEPT !.c = Append(@, [Zombie(<<>>, 0) EXCEPT !.p = -1])]]
Top(g) ==
    LET r == ParseAt(g, 0)
        L == Len(g.x)
        root == IF r.n.n = ":EMPTY" THEN [r.n EXCEPT !.p = 0] ELSE r.n
        rest == [Zombie(Seg(g, r.i, L), r.i) EXCEPT !.p = r.i]
        stop == IF r.s.f >= r.i THEN r.s.f ELSE r.i
        res == IF r.k = "no"
       THEN [kind |-> "none", end |-> 0, errs |-> r.s.e \cup {<<IF r.s.f < 0 THEN 0 ELSE r.s.f, 1040>>},
             tree |-> IF L = 0 THEN Zombie(<<>>, 0)
                      ELSE [Nd("ZOMBIE__", FALSE, <<Zombie(g.x, 0)>>, <<>>) EXCEPT !.p = 0], s |-> r.s]
       ELSE IF r.i = L THEN [kind |-> "full", end |-> L, errs |-> r.s.e, tree |-> root, s |-> r.s]
       ELSE IF Blank(g, r.i)
       THEN [kind |-> "wsp", end |-> r.i, errs |-> r.s.e, tree |-> root, s |-> r.s]
       ELSE [kind |-> "part", end |-> r.i, errs |-> r.s.e \cup {<<stop, 1040>>},
             tree |-> [Nd("ZOMBIE__", FALSE, <<root, rest>>, <<>>) EXCEPT !.p = 0], s |-> r.s]
    IN WithMark(res, NotEmptied(g, r))
===========================================================================
