----------------------------- MODULE EbnfTrace -----------------------------
(* Judges grammars that were compiled from EBNF texts by the real compiler   *)
(* and run on texts.  A record: t tokens, d directives, lr may be left-      *)
(* recursive, opt compiled with parser optimizations, msgs what the compiler *)
(* reported, runs the texts x with the outcomes o.                           *)
EXTENDS Ebnf, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

RECURSIVE SameC(_, _, _)
SameC(o, e, pos) == /\ Len(o) = Len(e)
                    /\ \A j \in DOMAIN o : /\ o[j].n = e[j].n /\ o[j].t = e[j].t
                                           /\ (pos => o[j].n = "" \/ e[j].p < 0 \/ o[j].p = e[j].p)
                                           /\ SameC(o[j].c, e[j].c, pos)

\* Optimizations replace parts of a grammar by regular expressions, which -- other than parsers --
\* try again.  They are only required to be invisible where there is no other way to match.
\* Ends(g, p, i): all places where a match that tries everything may end.
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Ends(_, _, _, _), EndsSeq(_, _, _, _, _), EndsRep(_, _, _, _, _, _)
EndsSeq(g, as, k, is, n) == IF k > Len(as) THEN is ELSE EndsSeq(g, as, k+1, TLCEval(UNION {Ends(g, as[k], i, n) : i \in is}), n)
EndsRep(g, a, is, all, lo, n) ==
    LET nx == TLCEval(UNION {{e \in Ends(g, a, i, n) : e > i} : i \in is})
    IN IF nx = {} THEN all ELSE EndsRep(g, a, nx, TLCEval(all \cup (IF lo <= 1 THEN nx ELSE {})), lo - 1, n)
Ends(g, p, i, n) ==
    LET q == g.N[p] IN
    IF n = 0 THEN {i, Min2(i + 1, Len(g.x))}
    ELSE CASE q.op \in {"ref", "fwd", "syn"} -> Ends(g, q.as[1], i, n - 1)
      [] q.op = "seq" -> EndsSeq(g, q.as, 1, {i}, n - 1)
      [] q.op = "alt" -> UNION {Ends(g, q.as[j], i, n - 1) : j \in DOMAIN q.as}
      [] q.op = "opt" -> {i} \cup Ends(g, q.as[1], i, n - 1)
      [] q.op = "rep" -> EndsRep(g, q.as[1], {i}, IF q.lo = 0 THEN {i} ELSE {}, q.lo, n - 1)
      [] q.op = "rx" -> {e \in i..Run(g, q, i, q.max) : e - i >= q.min}
      [] q.op = "wsc" -> i..SkipWsc(g, i, q)
      [] q.op \in {"la", "nla"} ->
           LET r == Ev(g, p, i, [rec |-> <<>>], S0) IN IF r.k = "ok" THEN {i} ELSE {}
      [] q.op \in {"text", "icase", "any", "lb", "nlb", "always", "never"} ->
           LET r == Ev0(g, p, i, [rec |-> <<>>], S0) IN IF r.k = "ok" THEN {r.i} ELSE {}
      [] OTHER -> {i, Min2(i + 1, Len(g.x))}
\* no part but the last one of a sequence that could become part of a regular expression matches in more than one way
Single(g, i) == \A p \in DOMAIN g.N : g.N[p].op = "seq" =>
                   \A j \in 1..(Len(g.N[p].as) - 1) : Cardinality(Ends(g, g.N[p].as[j], i, 6)) <= 1
Determined(g) == \A i \in 0..Len(g.x) : Single(g, i)

Errs(o) == {<<o.errs[j][1], o.errs[j][2]>> : j \in DOMAIN o.errs}
Mandatory(es) == {e \in es : e[2] = 1010 \/ e[2] \in 1100..1199}
RECURSIVE Same(_, _)
Same(o, e) == /\ o.n = e.n /\ o.t = e.t /\ Len(o.c) = Len(e.c)
              /\ \A j \in DOMAIN o.c : Same(o.c[j], e.c[j])
\* error messages that the grammar defines are used as they stand
Message(rec, o) == \A j \in DOMAIN o.msgs : \A k \in DOMAIN rec.d.msgs :
                       rec.d.msgs[k].code = o.msgs[j].code => rec.d.msgs[k].msg = o.msgs[j].msg

Verdict(rec, g, x, o) ==
    IF o.exc # "" THEN {"no-exception: " \o o.exc}
    ELSE LET e == Top(g)
             E == {y \in e.errs : y[2] \notin {1050, 1055}}
             O == {y \in Errs(o) : y[2] \notin {1050, 1055}}
             exact == rec.d.drop = <<>> /\ \A k \in DOMAIN g.N : ~g.N[k].dr
         IN IF e.s.o \/ (rec.opt /\ ~Determined(g)) THEN {}
            ELSE {c \in {"match-kind", "match-end", "error-missing", "spurious-error", "mandatory-errors", "tree", "reduced-tree",
                     "error-message"} :
                \/ c = "match-kind" /\ o.kind # e.kind
                \/ c = "match-end" /\ o.kind = e.kind /\ e.kind # "wsp" /\ o.end # e.end /\ (exact \/ o.nl = 0)
                \/ c = "error-missing" /\ E # {} /\ O = {}
                \/ c = "spurious-error" /\ E = {} /\ O # {}
                \/ c = "mandatory-errors" /\ Mandatory(E) # Mandatory(O)
                \/ c = "tree" /\ e.kind = "full" /\ o.kind = "full" /\ e.errs = {} /\ o.errs = <<>>
                              /\ ~SameC(Canonical(o.tree), Canonical(e.tree), exact)
                \/ c = "reduced-tree" /\ rec.exact /\ o.kind = e.kind /\ (e.errs = {} \/ (e.kind = "full" /\ exact /\ g.N[g.start].op # "fwd")) /\ ~Same(o.tree, e.tree)
                \/ c = "error-message" /\ rec.exact /\ ~Message(rec, o)}

\* regular expressions of rules ignore the case as well
Rule(r, ic) == IF ic /\ r.k = "r" THEN [r EXCEPT !.cs = Case2(r.cs)] ELSE IF ic /\ r.k = "s" THEN [r EXCEPT !.k = "i"] ELSE r
\* rules that are parsers: from names to slots
Slots(rec, rs) == LET ds == Defs(rec.t, 1, <<>>) IN
                  [sym \in DOMAIN rs |-> [j \in DOMAIN rs[sym] |->
                       IF rs[sym][j].k = "p" THEN [rs[sym][j] EXCEPT !.ref = SlotOf(ds, rs[sym][j].name)]
                       ELSE Rule(rs[sym][j], rec.d.ic)]]
RuleSeq(rs, ic) == [sym \in DOMAIN rs |-> [j \in DOMAIN rs[sym] |-> Rule(rs[sym][j], ic)]]
Peg(rec, G, x) == [x |-> x, N |-> G.N, lv |-> rec.d.lv, lr |-> rec.lr, start |-> G.start, comments |-> FALSE,
                   skip |-> Slots(rec, rec.d.skip), resume |-> Slots(rec, rec.d.resume), wsc |-> G.wsc, error |-> RuleSeq(rec.d.error, rec.d.ic)]
Gram(rec) == Grammar(Defs(rec.t, 1, <<>>), rec.d)
Case(rec) ==
    LET G == Gram(rec)
    IN [k \in DOMAIN rec.runs |-> Verdict(rec, Peg(rec, G, rec.runs[k].x), rec.runs[k].x, rec.runs[k].o)]
Expect(rec, k) ==
    LET e == Top(Peg(rec, Gram(rec), rec.runs[k].x))
    IN [kind |-> e.kind, end |-> e.end, errs |-> SetToSeq(e.errs), tree |-> IF rec.exact THEN <<e.tree>> ELSE Canonical(e.tree), run |-> k]

VARIABLE l
TInit == l = 0
TNext == /\ l < Len(Trace)
         /\ l' = l + 1
         /\ LET rec == Trace[l+1] IN
            IF rec.exc # "" THEN PrintT(<<"BAD", l+1, {"grammar-compiles: " \o rec.exc}, "">>)
            ELSE LET v == Case(rec)
                     bad == {k \in DOMAIN v : v[k] # {}}
                 IN bad = {} \/ PrintT(<<"BAD", l+1, UNION {v[k] : k \in bad},
                                         ToJson(Expect(rec, CHOOSE k \in bad : \A j \in bad : k <= j))>>)
===========================================================================
