----------------------------- MODULE PegTrace -----------------------------
(* Judges recorded runs of the real parsers against Peg.                   *)
EXTENDS Peg, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Mode == IOEnv.MODE

RECURSIVE SameTree(_, _), PosOK(_, _, _)
SameTree(o, e) == /\ o.n = e.n /\ o.t = e.t /\ Len(o.c) = Len(e.c)
                  /\ \A j \in DOMAIN o.c : SameTree(o.c[j], e.c[j])
\* without dropped content positions are exact
\* (the position of a partial match, -1 in the specification, is left open)
PosOK(o, e, exact) == /\ IF e.p < 0 THEN TRUE ELSE IF exact THEN o.p = e.p ELSE o.p <= e.p
                      /\ \A j \in DOMAIN o.c : PosOK(o.c[j], e.c[j], exact)

\* The report on values left on the capture stack is only specified for complete matches
Mark == {1050, 1055}
ErrSet(o) == {<<IF o.errs[j][2] \in Mark THEN 0 ELSE o.errs[j][1], IF o.errs[j][2] \in Mark THEN 1050 ELSE o.errs[j][2]>> :
                 j \in {k \in DOMAIN o.errs : o.kind = "full" \/ o.errs[k][2] \notin Mark}}
Unmarked(o) == IF o.kind # "full" /\ (\E j \in DOMAIN o.errs : o.errs[j][2] \in Mark) /\ o.tree.c # <<>>
               THEN [o.tree EXCEPT !.c = Front(@)] ELSE o.tree
ExcClause(o) == IF o.exc = "" THEN {} ELSE {"no-exception: " \o o.exc}

Recognition(rec, e) ==
    {c \in {"match-kind", "match-end"} :
        \/ c = "match-kind" /\ rec.o.kind # e.kind
        \/ c = "match-end" /\ rec.o.kind = e.kind /\ e.kind # "wsp" /\ rec.o.end # e.end}
TreeShape(rec, e) ==
    IF ~SameTree(Unmarked(rec.o), e.tree) THEN {"tree"}
    ELSE IF ~PosOK(Unmarked(rec.o), e.tree, rec.exactpos) THEN {"positions"} ELSE {}
Errors(rec, e) ==
    {c \in {"errors-missing-or-misplaced", "error-on-matching-text", "no-error-on-mismatch"} :
        \/ c = "errors-missing-or-misplaced" /\ rec.exacterr /\ ErrSet(rec.o) # e.errs
        \/ c = "error-on-matching-text" /\ e.kind \in {"full", "wsp"} /\ e.errs = {} /\ rec.o.errs # <<>>
        \/ c = "no-error-on-mismatch" /\ e.errs # {} /\ rec.o.errs = <<>>}

\* nothing lost, duplicated or invented; every leaf is where it says it is.  Needs no denotation,
\* so it is also applied to runs far too large for Top.
RECURSIVE LeafOK(_, _)
LeafOK(o, x) == IF o.c # <<>> THEN \A j \in DOMAIN o.c : LeafOK(o.c[j], x)
                ELSE o.t = <<>> \/ (/\ o.p >= 0 /\ o.p + Len(o.t) <= Len(x)
                                    /\ SubSeq(x, o.p + 1, o.p + Len(o.t)) = o.t)
\* blanks at the end that the grammar does not match are left out (with a warning)
Covered(rec) == LET n == Len(rec.o.content)
                IN IF rec.o.kind = "wsp" /\ n < Len(rec.g.x) /\ AllBlank(Seg(rec.g, n, Len(rec.g.x))) THEN Seg(rec.g, 0, n) ELSE rec.g.x
Fidelity(rec) ==
    {c \in {"content-differs-from-source", "root-content", "leaf-not-at-its-position"} :
        \/ c = "content-differs-from-source" /\ Content(rec.o.tree) # Covered(rec)
        \/ c = "root-content" /\ rec.o.content # Covered(rec)
        \/ c = "leaf-not-at-its-position" /\ ~LeafOK(rec.o.tree, rec.g.x)}

Verdict(rec) ==
    IF rec.o.exc # "" THEN ExcClause(rec.o)
    ELSE IF Mode = "fidelity" THEN Fidelity(rec)
    ELSE LET e == Top(rec.g) IN
         IF e.s.o THEN {} ELSE
         CASE Mode = "recognition" -> Recognition(rec, e)
           [] Mode = "tree" -> TreeShape(rec, e)
           [] Mode = "errors" -> Errors(rec, e)
           [] OTHER -> Recognition(rec, e) \cup TreeShape(rec, e) \cup Errors(rec, e)

Expected(g) == LET e == Top(g) IN [kind |-> e.kind, end |-> e.end, errs |-> SetToSeq(e.errs), tree |-> e.tree]

VARIABLE l
Init == l = 0
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET v == Verdict(Trace[l+1])
               rec == Trace[l+1]
           IN v = {} \/ PrintT(<<"BAD", l+1, v, IF rec.o.exc # "" \/ Mode = "fidelity" THEN "" ELSE ToJson(Expected(rec.g))>>)
===========================================================================
