------------------------------- MODULE Ebnf -------------------------------
(***************************************************************************)
(* What an EBNF text means: from its tokens to definitions, from           *)
(* definitions to the parsing expressions of Peg.                          *)
(*                                                                         *)
(* The tokens abstract from the dialect: "DEF", "OR", "AND", "TIMES" ...   *)
(* are roles, whatever characters they are written with.  A token has      *)
(*   k kind, v word, cs characters, min/max/neg for regular expressions,   *)
(*   n number, p position in the EBNF text                                 *)
(* Precedence, from weak to strong: alternative, sequence (juxtaposition   *)
(* or AND), interleave, difference, prefix and postfix operators.          *)
(*                                                                         *)
(* The directives d of a grammar:                                          *)
(*   ws      characters of insignificant whitespace,                       *)
(*   ca, cb  opening and closing characters of comments (<<>>: none)       *)
(*   lit     sequence of "left", "right": whitespace around literals       *)
(*   ic      ignore case                                                   *)
(*   hide    names of disposable symbols                                   *)
(*   drop    names of dropped symbols and of the classes "strings",        *)
(*           "backticked", "whitespace", "regexps"                         *)
(*   arts    names of symbols that are nothing but rules for errors        *)
(*   skip, resume  symbol -> rules                                         *)
(***************************************************************************)
EXTENDS Peg

INF == 1000000

---------------------------------------------------------------------------
\* Reading.  Every reader yields the tree a and the index i of the next token.
Eof == [k |-> "EOF", v |-> "", cs |-> <<>>, min |-> 0, max |-> 0, neg |-> FALSE, n |-> 0, p |-> -1]
Tok(t, i) == IF i <= Len(t) THEN t[i] ELSE Eof
K(t, i) == Tok(t, i).k
\* tree nodes: o kind, as parts, tk the token (where there is one), m index of the first mandatory part
Nod(o, as, tk) == [o |-> o, as |-> as, tk |-> tk, m |-> 1000, lo |-> 0, hi |-> 0, at |-> tk.p]
Sym(t, i) == K(t, i) = "sym"
StartsDefinition(t, i) == (Sym(t, i) /\ K(t, i+1) = "DEF") \/ K(t, i) \in {"MOD", "EOF"}
Leaves == {"lit", "ptext", "rx", "set", "any", "ws", "sym"}
Flow == {"&", "!", "<-&", "<-!"}
Retr == {":", "::", ":?"}
StartsItem(t, i) == /\ ~StartsDefinition(t, i)
                    /\ K(t, i) \in Leaves \cup Flow \cup Retr \cup {"(", "[", "{", "num"}

RECURSIVE Expr(_, _), ExprTail(_, _, _), Sqn(_, _), SeqTail(_, _, _, _), Inter(_, _), InterTail(_, _, _, _),
          Diff(_, _), Term(_, _), Post(_, _, _), Elem(_, _), Part(_, _)

Expr(t, i) == LET r == Sqn(t, i) IN ExprTail(t, r.i, <<r.a>>)
ExprTail(t, i, acc) ==
    IF K(t, i) = "OR" THEN LET r == Sqn(t, i+1) IN ExprTail(t, r.i, Append(acc, r.a))
    ELSE [a |-> IF Len(acc) = 1 THEN acc[1] ELSE Nod("alt", acc, [Eof EXCEPT !.p = acc[1].at]), i |-> i]

\* the mandatory marker stands before the first part that is mandatory
Sqn(t, i) == SeqTail(t, i, <<>>, -1)
SeqTail(t, i0, acc, m0) ==
    LET i1 == IF acc # <<>> /\ K(t, i0) = "AND" THEN i0 + 1 ELSE i0
        mark == K(t, i1) = "MAND"
        i == IF mark THEN i1 + 1 ELSE i1
        m == IF mark /\ m0 < 0 THEN Len(acc) ELSE m0
    IN IF ~StartsItem(t, i)
       THEN [a |-> IF Len(acc) = 1 /\ m0 < 0 THEN acc[1]
                   ELSE [Nod("seq", acc, [Eof EXCEPT !.p = acc[1].at]) EXCEPT !.m = IF m0 < 0 THEN 1000 ELSE m0], i |-> i0]
       ELSE LET r == IF K(t, i) \in Flow
                     THEN LET q == Part(t, i+1) IN [q EXCEPT !.a = Nod(K(t, i), <<q.a>>, t[i])]
                     ELSE Inter(t, i)
            IN SeqTail(t, r.i, Append(acc, r.a), m)

Inter(t, i) == LET r == Diff(t, i) IN InterTail(t, r.i, <<r.a>>, -1)
InterTail(t, i, acc, m0) ==
    IF K(t, i) = "INTER"
    THEN LET mark == K(t, i+1) = "MAND"
             r == Diff(t, IF mark THEN i+2 ELSE i+1)
         IN InterTail(t, r.i, Append(acc, r.a), IF mark /\ m0 < 0 THEN Len(acc) ELSE m0)
    ELSE [a |-> IF Len(acc) = 1 THEN acc[1]
                ELSE [Nod("inter", acc, [Eof EXCEPT !.p = acc[1].at]) EXCEPT !.m = IF m0 < 0 THEN 1000 ELSE m0], i |-> i]

Diff(t, i) == LET l == Term(t, i)
              IN IF K(t, l.i) # "MINUS" THEN l
                 ELSE LET r == Part(t, l.i + 1)
                      IN [a |-> Nod("diff", <<l.a, r.a>>, [Eof EXCEPT !.p = l.a.at]), i |-> r.i]

\* a multiplier counts repetitions; [..] then means "at most", {..}+ "at least"
Times(a, n) == IF a.o = "opt" THEN [Nod("cnt", a.as, a.tk) EXCEPT !.lo = 0, !.hi = n]
               ELSE IF a.o = "rep1" THEN [Nod("cnt", a.as, a.tk) EXCEPT !.lo = n, !.hi = -1]
               ELSE [Nod("cnt", <<a>>, a.tk) EXCEPT !.lo = n, !.hi = n, !.at = a.at]

Drp(t, r) == IF K(t, r.i) = "ARROW" /\ Tok(t, r.i + 1).k = "DROPWORD"
             THEN [a |-> Nod("drop", <<r.a>>, t[r.i]), i |-> r.i + 2] ELSE r

Term(t, i) ==
    IF K(t, i) = "num"
    THEN LET r == Post(t, Elem(t, i+2), FALSE) IN Drp(t, [r EXCEPT !.a = [Times(r.a, t[i].n) EXCEPT !.at = t[i].p]])
    ELSE Drp(t, Post(t, Elem(t, i), TRUE))
Part(t, i) == LET r == Elem(t, i)
              IN Drp(t, IF K(t, r.i) = "+" THEN [a |-> Nod("rep1", <<r.a>>, t[r.i]), i |-> r.i + 1] ELSE r)

\* postfix operators; counting is possible once, on what has no other suffix than "?"
Post(t, r, count) ==
    LET k == K(t, r.i)
        e == r.a
        s == IF k = "?" THEN [a |-> [Nod("opt", <<e>>, t[r.i]) EXCEPT !.at = e.at], i |-> r.i + 1]
             ELSE IF k = "+" THEN [a |-> [Nod("rep1", <<e>>, t[r.i]) EXCEPT !.at = e.at], i |-> r.i + 1]
             ELSE IF k = "*" THEN [a |-> [Nod("rep0", <<e>>, t[r.i]) EXCEPT !.at = e.at], i |-> r.i + 1]
             ELSE r
    IN IF count /\ K(t, s.i) = "TIMES" THEN [a |-> Times(s.a, t[s.i + 1].n), i |-> s.i + 2]
       ELSE IF count /\ K(t, s.i) = "RNG"
       THEN [a |-> [Nod("cnt", <<s.a>>, t[s.i]) EXCEPT !.lo = t[s.i].min, !.hi = t[s.i].max, !.at = s.a.at], i |-> s.i + 1]
       ELSE s

Elem(t, i) ==
    LET k == K(t, i) IN
    CASE k = "(" -> LET r == Expr(t, i+1) IN [a |-> [Nod("grp", <<r.a>>, t[i]) EXCEPT !.at = t[i].p], i |-> r.i + 1]
      [] k = "[" -> LET r == Expr(t, i+1) IN [a |-> Nod("opt", <<r.a>>, t[i]), i |-> r.i + 1]
      [] k = "{" -> LET r == Expr(t, i+1)
                    IN [a |-> Nod(IF K(t, r.i) = "}+" THEN "rep1" ELSE "rep0", <<r.a>>, t[i]), i |-> r.i + 1]
      [] k \in Retr -> [a |-> [Nod(k, <<>>, t[i+1]) EXCEPT !.at = t[i].p], i |-> i + 2]
      [] OTHER -> [a |-> Nod(k, <<>>, Tok(t, i)), i |-> i + 1]

\* definitions: [modifier] symbol DEF [OR] expression [-> HIDE] [ENDL]
RECURSIVE Defs(_, _, _)
Defs(t, i0, acc) ==
    IF i0 > Len(t) THEN acc
    ELSE LET md == IF K(t, i0) = "MOD" THEN t[i0].v ELSE ""
             i == IF md = "" THEN i0 ELSE i0 + 1
             r == Expr(t, IF K(t, i+2) = "OR" THEN i+3 ELSE i+2)
             hd == K(t, r.i) = "ARROW"
             j == IF hd THEN r.i + 2 ELSE r.i
         IN Defs(t, IF K(t, j) = "ENDL" THEN j + 1 ELSE j,
                 Append(acc, [nm |-> t[i].v, a |-> r.a, p |-> t[i].p, p0 |-> t[i0].p,
                              hide |-> md # "" \/ hd, drop |-> md = "DROP"]))

---------------------------------------------------------------------------
\* names a tree refers to; names it retrieves
RECURSIVE Refs(_), Captured(_)
Refs(a) == (IF a.o \in {"sym"} \cup Retr THEN {a.tk.v} ELSE {}) \cup UNION {Refs(a.as[j]) : j \in DOMAIN a.as}
Captured(a) == (IF a.o \in Retr THEN {a.tk.v} ELSE {}) \cup UNION {Captured(a.as[j]) : j \in DOMAIN a.as}
NamesOf(ds) == {ds[k].nm : k \in DOMAIN ds}
Def(ds, nm) == ds[CHOOSE k \in DOMAIN ds : ds[k].nm = nm /\ \A j \in DOMAIN ds : ds[j].nm = nm => k <= j]
SlotOf(ds, nm) == CHOOSE k \in DOMAIN ds : ds[k].nm = nm
RECURSIVE Closure(_, _, _)
Closure(ds, todo, seen) ==
    LET new == UNION {IF n \in NamesOf(ds) THEN Refs(Def(ds, n).a) ELSE {} : n \in todo} \ seen
    IN IF new = {} THEN seen ELSE Closure(ds, new, seen \cup new)
Reach(ds, nm) == Closure(ds, {nm}, {})
Variables(ds) == UNION {Captured(ds[k].a) : k \in DOMAIN ds}

---------------------------------------------------------------------------
\* From definitions to parsing expressions.
\* c: context [sym, top (definiens itself), d directives, ds definitions]
Kind(op) == CASE op = "text" -> ":Text" [] op = "icase" -> ":IgnoreCase" [] op = "rx" -> ":RegExp"
              [] op = "wsc" -> ":Whitespace" [] op = "any" -> ":AnyChar" [] op = "seq" -> ":Series"
              [] op = "alt" -> ":Alternative" [] op = "opt" -> ":Option" [] op = "inter" -> ":Interleave"
              [] op = "la" -> ":Lookahead" [] op = "nla" -> ":NegativeLookahead" [] op = "lb" -> ":Lookbehind"
              [] op = "nlb" -> ":NegativeLookbehind" [] op = "syn" -> ":Synonym" [] op = "cap" -> ":Capture"
              [] op = "ret" -> ":Retrieve" [] op = "pop" -> ":Pop" [] OTHER -> ":" \o op
RepKind(lo, hi) == IF lo = 0 /\ hi < 0 THEN ":ZeroOrMore" ELSE IF lo = 1 /\ hi < 0 THEN ":OneOrMore" ELSE ":Counted"
Rec(op, as, c) ==
    [op |-> op, as |-> as, nm |-> Kind(op), keep |-> FALSE, lf |-> "", an |-> TRUE, dj |-> TRUE, dr |-> FALSE, sym |-> c.sym,
     cs |-> <<>>, min |-> 0, max |-> 0, neg |-> FALSE, lo |-> 0, hi |-> 0, mand |-> 1000, reps |-> <<>>,
     var |-> "", rnm |-> "", match |-> "last", ca |-> <<>>, cb |-> <<>>, gr |-> <<>>]
Put(N, r) == [N |-> Append(N, r), i |-> Len(N) + 1]
In(x, s) == \E j \in DOMAIN s : s[j] = x
Drops(c, class) == In(class, c.d.drop)
\* x = /.../~ does not become empty, even if regular expressions are dropped
Kept(a, j, c) == /\ c.top /\ Drops(c, "regexps") /\ a.m = 1000
                 /\ a.as[j].o \in {"rx", "set", "ptext"} \/ (a.as[j].o = "lit" /\ c.d.lit = <<>>)
                 /\ \A k \in DOMAIN a.as : k # j => a.as[k].o = "ws"

Wsp(N, c, dropped) == Put(N, [Rec("wsc", <<>>, c) EXCEPT !.cs = c.d.ws, !.ca = c.d.ca, !.cb = c.d.cb, !.dr = dropped, !.lf = c.d.lf,
                                                                     !.keep = Drops(c, "no_comments")])
Sub(c) == [c EXCEPT !.top = FALSE]
\* with ignorecase capital and small letters are the same
Case2(cs) == cs \o [j \in DOMAIN cs |-> UpperC(cs[j])] \o [j \in DOMAIN cs |-> LowerC(cs[j])]
Chars(cs, d) == IF d.ic THEN Case2(cs) ELSE cs

RECURSIVE Comp(_, _, _), CompAll(_, _, _, _)
CompAll(as, N, c, acc) ==
    IF Len(acc) = Len(as) THEN [N |-> N, is |-> acc]
    ELSE LET r == Comp(as[Len(acc) + 1], N, c) IN CompAll(as, r.N, c, Append(acc, r.i))

\* how often an element of an interleave occurs, and the element itself
InterItem(a) ==
    LET IR(it, lo, hi) == [a |-> it, r |-> <<lo, hi>>]
    IN CASE a.o = "rep1" -> IR(a.as[1], 1, INF)
         [] a.o = "rep0" -> IR(a.as[1], 0, INF)
         [] a.o = "opt"  -> IR(a.as[1], 0, 1)
         [] a.o = "cnt"  -> IR(a.as[1], a.lo, IF a.hi < 0 THEN INF ELSE a.hi)
         [] a.o = "grp"  -> LET b == a.as[1] IN
                CASE b.o = "rep0" -> IR([b EXCEPT !.o = "rep1"], 0, 1)
                  [] b.o = "opt" -> IR(b.as[1], 0, 1)
                  [] OTHER -> IR(b, 1, 1)
         [] OTHER -> IR(a, 1, 1)

Comp(a, N, c) ==
    LET d == c.d
        s == Sub(c)
        Un(op) == LET r == Comp(a.as[1], N, s) IN Put(r.N, Rec(op, <<r.i>>, c))
        Count(lo, hi) == LET r == Comp(a.as[1], N, s) IN Put(r.N, [Rec("rep", <<r.i>>, c) EXCEPT !.lo = lo, !.hi = hi, !.nm = RepKind(lo, hi)])
    IN
    CASE a.o = "lit" ->
           LET left == In("left", d.lit)   right == In("right", d.lit)
               dws == Drops(c, "whitespace") \/ Drops(c, "strings") \/ Drops(c, "no_comments")
               t == [Rec(IF d.ic THEN "icase" ELSE "text", <<>>, c)
                        EXCEPT !.cs = a.tk.cs, !.dr = Drops(c, "strings") /\ ~c.top /\ a.m >= 0]
           IN IF ~left /\ ~right THEN Put(N, t)
              ELSE LET l == IF left THEN Wsp(N, c, dws) ELSE [N |-> N, i |-> 0]
                       m == Put(l.N, t)
                       r == IF right THEN Wsp(m.N, c, dws) ELSE [N |-> m.N, i |-> 0]
                   IN Put(r.N, Rec("seq", (IF left THEN <<l.i>> ELSE <<>>) \o <<m.i>> \o (IF right THEN <<r.i>> ELSE <<>>), c))
      [] a.o = "ptext" -> Put(N, [Rec(IF d.ic THEN "icase" ELSE "text", <<>>, c)
                                    EXCEPT !.cs = a.tk.cs, !.dr = Drops(c, "backticked") /\ ~c.top /\ a.m >= 0])
      [] a.o \in {"rx", "set"} ->
           Put(N, [Rec("rx", <<>>, c) EXCEPT !.cs = Chars(a.tk.cs, d), !.min = a.tk.min, !.max = a.tk.max, !.neg = a.tk.neg,
                                             !.dr = Drops(c, "regexps") /\ ~c.top /\ a.m >= 0])
      [] a.o = "any" -> Put(N, Rec("any", <<>>, c))
      [] a.o = "ws" -> Wsp(N, c, (Drops(c, "whitespace") \/ Drops(c, "no_comments")) /\ ~c.top)
      [] a.o = "sym" -> [N |-> N, i |-> SlotOf(c.ds, a.tk.v)]
      [] a.o = "grp" -> Comp(a.as[1], N, c)
      [] a.o = "drop" ->      \* a symbol is dropped here only, anything else as a whole
           IF a.as[1].o = "sym" THEN Put(N, [Rec("syn", <<SlotOf(c.ds, a.as[1].tk.v)>>, c) EXCEPT !.dr = TRUE])
           ELSE LET r == Comp(a.as[1], N, s)
                IN Put(r.N, [Rec("syn", <<r.i>>, c) EXCEPT !.dr = TRUE])
      [] a.o = "alt" -> LET r == CompAll(a.as, N, s, <<>>) IN Put(r.N, Rec("alt", r.is, c))
      [] a.o = "seq" -> LET r == CompAll([j \in DOMAIN a.as |-> [a.as[j] EXCEPT !.m = IF Kept(a, j, c) THEN -1 ELSE @]], N, s, <<>>) IN Put(r.N, [Rec("seq", r.is, c) EXCEPT !.mand = a.m])
      [] a.o = "inter" ->
           LET items == [j \in DOMAIN a.as |-> InterItem(a.as[j])]
               r == CompAll([j \in DOMAIN items |-> items[j].a], N, s, <<>>)
           IN Put(r.N, [Rec("inter", r.is, c) EXCEPT !.mand = a.m, !.reps = [j \in DOMAIN items |-> items[j].r]])
      [] a.o = "diff" ->
           LET l == Comp(a.as[1], N, s)
               r == Comp(a.as[2], l.N, s)
               n == Put(r.N, Rec("nla", <<r.i>>, c))
           IN Put(n.N, Rec("seq", <<n.i, l.i>>, c))
      [] a.o = "&" -> Un("la")
      [] a.o = "!" -> Un("nla")
      [] a.o = "<-&" -> Un("lb")
      [] a.o = "<-!" -> Un("nlb")
      [] a.o = "opt" -> Un("opt")
      [] a.o = "rep0" -> Count(0, -1)
      [] a.o = "rep1" -> Count(1, -1)
      [] a.o = "cnt" -> Count(a.lo, a.hi)
      [] a.o \in Retr ->
           Put(N, [Rec(IF a.o = ":" THEN "ret" ELSE "pop", <<SlotOf(c.ds, a.tk.v)>>, c)
                     EXCEPT !.var = a.tk.v, !.rnm = a.tk.v, !.match = IF a.o = ":?" THEN "optional" ELSE "last"])
      [] OTHER -> Assert(FALSE, <<"unknown construct", a.o>>)

RECURSIVE Atomic(_)
Atomic(a) == IF a.o = "grp" THEN Atomic(a.as[1]) ELSE a.o = "sym"
\* the definitions one by one; slots 1..K are the symbols
RECURSIVE CompDefs(_, _, _, _)
CompDefs(ds, d, k, N) ==
    IF k > Len(ds) THEN N
    ELSE LET df == ds[k]
             hidden == df.hide \/ In(df.nm, d.hide) \/ (df.a.o = "drop" /\ df.a.as[1].o # "sym")
             dropped == df.drop \/ In(df.nm, d.drop)
             c == [sym |-> df.nm, top |-> TRUE, d |-> d, ds |-> ds]
             cap == df.nm \in Variables(ds)
             r0 == Comp(df.a, N, c)
             r1 == IF Atomic(df.a) THEN Put(r0.N, Rec("syn", <<r0.i>>, c)) ELSE r0
             r2 == IF cap THEN Put(r1.N, [Rec("cap", <<r1.i>>, c) EXCEPT !.var = df.nm]) ELSE r1
             M == [r2.N EXCEPT ![r2.i].nm = IF In(df.nm, d.arts) THEN "ZOMBIE__" ELSE IF hidden THEN ":" \o df.nm ELSE df.nm,
                               ![r2.i].an = hidden, ![r2.i].dj = hidden, ![r2.i].dr = dropped,
                               ![r2.i].rnm = IF @ = "" THEN "" ELSE df.nm,
                               ![k].as = <<r2.i>>,
                               ![k].op = IF df.nm \in Reach(ds, df.nm) THEN "fwd" ELSE "ref"]
         IN CompDefs(ds, d, k+1, M)

Grammar(ds, d) ==
    LET N0 == [k \in 1..Len(ds) |-> Rec("ref", <<k>>, [sym |-> ds[k].nm])]
        N == CompDefs(ds, d, 1, N0)
        w == Wsp(<<>>, [sym |-> "", d |-> d], FALSE)
    IN [N |-> N, start |-> IF N[1].op = "fwd" THEN 1 ELSE N[1].as[1], wsc |-> w.N[1]]

---------------------------------------------------------------------------
\* What of a tree does not depend on the way anonymous parts are arranged: text and named nodes
Txt(t) == [n |-> "", t |-> t, c |-> <<>>, p |-> -1]
RECURSIVE Canon(_), Joined(_, _)
Joined(xs, acc) ==
    IF xs = <<>> THEN acc
    ELSE LET x == xs[1] IN
         IF x.n = "" /\ x.t = <<>> THEN Joined(Tail(xs), acc)
         ELSE IF x.n = "" /\ acc # <<>> /\ Last(acc).n = ""
         THEN Joined(Tail(xs), [acc EXCEPT ![Len(acc)].t = @ \o x.t])
         ELSE Joined(Tail(xs), Append(acc, x))
Canon(n) ==
    LET inner == IF n.c = <<>> THEN <<Txt(n.t)>> ELSE FlattenSeq([j \in DOMAIN n.c |-> Canon(n.c[j])])
    IN IF n.a THEN inner ELSE <<[n |-> n.n, t |-> <<>>, c |-> Joined(inner, <<>>), p |-> n.p]>>
Canonical(n) == Joined(Canon(n), <<>>)

===========================================================================
