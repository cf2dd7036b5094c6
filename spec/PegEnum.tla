------------------------------ MODULE PegEnum ------------------------------
(* Exhaustive small scope: every grammar of a bounded shape is a state; for  *)
(* each the expected outcome on every text over {a,b} up to MaxLen is        *)
(* emitted, to be replayed into the real parsers.  Design invariants of the  *)
(* denotation are checked on the way.                                        *)
EXTENDS Peg, Json, IOUtils
CONSTANTS MaxLen
\* this run enumerates every Slices-th grammar, starting with number Slice, at reduction level Lv
Slices == atoi(IOEnv.SLICES)
Slice == atoi(IOEnv.SLICE)
Lv == atoi(IOEnv.LEVEL)

Base(op, nm) == [op |-> op, as |-> <<>>, nm |-> nm, an |-> TRUE, dj |-> TRUE, dr |-> FALSE, sym |-> "root"]
Txt(t) == Base("text", ":Text") @@ [cs |-> t]
Rx(cs, mn, mx) == Base("rx", ":RegExp") @@ [cs |-> cs, neg |-> FALSE, min |-> mn, max |-> mx]
Named(q, n) == [q EXCEPT !.nm = n, !.an = FALSE, !.dj = FALSE]
Leaves == {Txt(<<"a">>), Txt(<<"a","b">>), Rx(<<"b">>, 0, -1), Named(Rx(<<"a","b">>, 1, -1), "x")}

Rep(nm, lo, hi) == Base("rep", nm) @@ [lo |-> lo, hi |-> hi]
Unaries == {Base("opt", ":Option"), Rep(":ZeroOrMore", 0, -1), Rep(":OneOrMore", 1, -1),
            Rep(":Counted", 2, 2), Rep(":Counted", 1, 2), Base("la", ":Lookahead"),
            Base("nla", ":NegativeLookahead"), Named(Base("syn", ":Synonym"), "y")}
Binaries == {Base("alt", ":Alternative"), Base("seq", ":Series") @@ [mand |-> 1000],
             Base("inter", ":Interleave") @@ [reps |-> <<<<1,1>>, <<1,1>>>>, mand |-> 1000],
             Base("inter", ":Interleave") @@ [reps |-> <<<<0,2>>, <<1,1>>>>, mand |-> 1000]}

RECURSIVE Nullable(_)
\* terms: [q, sub]; flattened to node lists below
Term(q, sub) == [q |-> q, sub |-> sub]
Nullable(t) ==
    LET q == t.q IN
    CASE q.op = "text" -> FALSE
      [] q.op = "rx" -> q.min = 0
      [] q.op \in {"opt", "la", "nla"} -> TRUE
      [] q.op = "rep" -> q.lo = 0 \/ Nullable(t.sub[1])
      [] q.op = "alt" -> \E j \in DOMAIN t.sub : Nullable(t.sub[j])
      [] q.op = "seq" -> \A j \in DOMAIN t.sub : Nullable(t.sub[j])
      [] q.op = "inter" -> \A j \in DOMAIN t.sub : q.reps[j][1] = 0 \/ Nullable(t.sub[j])
      [] OTHER -> Nullable(t.sub[1])
RECURSIVE Adm(_)
Adm(t) == /\ \A j \in DOMAIN t.sub : Adm(t.sub[j])
          /\ (t.q.op = "inter" => \A j \in DOMAIN t.sub : ~Nullable(t.sub[j]))
          /\ (t.q.op = "rep" => ~Nullable(t.sub[1]))

T0 == {Term(q, <<>>) : q \in Leaves}
T1 == T0 \cup {Term(u, <<t>>) : u \in Unaries, t \in T0}
T2 == {Term(b, <<s, t>>) : b \in Binaries, s \in T1, t \in T1}
B1 == {Term(b, <<s, t>>) : b \in Binaries, s \in T0, t \in T0}
T3 == {Term(u, <<t>>) : u \in Unaries, t \in B1}
Terms == {t \in T2 \cup T3 : Adm(t)}

RECURSIVE Flat(_, _)
\* node list of a term, numbered from k
Flat(t, k) ==
    IF t.sub = <<>> THEN <<t.q>>
    ELSE IF Len(t.sub) = 1
         THEN <<[t.q EXCEPT !.as = <<k+1>>]>> \o Flat(t.sub[1], k+1)
         ELSE LET f1 == Flat(t.sub[1], k+1)
              IN <<[t.q EXCEPT !.as = <<k+1, k+1+Len(f1)>>]>> \o f1 \o Flat(t.sub[2], k+1+Len(f1))
Nodes(t) == LET f == Flat(t, 1) IN IF f[1].an THEN <<Named(f[1], "root")>> \o Tail(f) ELSE f

Texts == UNION {[1..n -> {"a", "b"}] : n \in 0..MaxLen}
TermSeq == SetToSeq(Terms)
GrammarOf(t, x) == [x |-> x, lv |-> Lv, lr |-> TRUE, start |-> 1, N |-> Nodes(t), skip |-> <<>>, resume |-> <<>>, comments |-> FALSE]

VARIABLE i
Init == i = 0
Next == \/ i = 0 /\ i' = 1 + Slice
        \/ i > 0 /\ i + Slices \in DOMAIN TermSeq /\ i' = i + Slices

TextSeq == SetToSeq(Texts)
Out(x, e) == [x |-> x, kind |-> e.kind, end |-> e.end, tree |-> e.tree, errs |-> SetToSeq(e.errs)]
Emit == i = 0 \/ LET t == TermSeq[i]
                 IN PrintT(<<"GEN", ToJson([N |-> Nodes(t), lv |-> Lv,
                       r |-> [j \in DOMAIN TextSeq |->
                                Out(TextSeq[j], Top(GrammarOf(t, TextSeq[j])))]])>>)

\* Laws of the denotation
Laws ==
  i = 0 \/ LET t == TermSeq[i] IN \A x \in Texts :
     LET g == GrammarOf(t, x)
         e == Top(g)
         r == ParseAt(g, 0) IN
     /\ Content(e.tree) = x                                     \* nothing is lost or invented
     /\ (r.k = "ok" => r.i <= Len(x) /\ r.i >= 0)
     /\ (r.k = "ok" /\ t.q.op # "la" /\ t.q.op # "nla" => (~Nullable(t) => r.i > 0))
     /\ (e.kind = "full" <=> e.errs = {})
     /\ \A m \in e.errs : m[1] <= Len(x) /\ m[1] >= e.end
============================================================================
