----------------------------- MODULE ReuseTrace -----------------------------
(* Judges recorded histories of grammar objects.  A record has a grammar g   *)
(* and events h; a parse event carries its text x, start symbol (index into  *)
(* g.N), outcome o and whether the object was being traced.  The state of    *)
(* the judge is the map from (start, text) to the outcome first seen; the    *)
(* first one must be the one that Peg denotes.                               *)
EXTENDS PegTrace

\* While tracing, a mismatch at the end of the text that is due to a lookahead only
\* is reported with codes (and a position) of its own.
LookCode == {1030, 1031, 1045, 1046}
Norm(r) == [exc |-> r.o.exc, kind |-> r.o.kind, end |-> r.o.end, tree |-> r.o.tree, errs |-> ErrSet(r.o)]
Denoted(rec, r) ==
    LET g == [rec.g EXCEPT !.x = r.x, !.start = r.start]
        rc == [g |-> g, o |-> r.o, exactpos |-> rec.exactpos, exacterr |-> rec.exacterr /\ ~r.look]
    IN Verdict(rc)
RECURSIVE Walk(_, _, _)
Walk(rec, j, seen) ==
    IF j > Len(rec.h) THEN {}
    ELSE LET r == rec.h[j]
             key == <<r.start, r.x>>
             same == {k \in 1..(j-1) : rec.h[k].op = "parse" /\ <<rec.h[k].start, rec.h[k].x>> = key
                                          /\ rec.h[k].look = r.look}
         IN IF r.op # "parse" THEN Walk(rec, j+1, seen)
            ELSE IF \E k \in same : Norm(rec.h[k]) # Norm(r)
            THEN {"outcome-depends-on-history at " \o ToString(j)}
            ELSE LET v == IF same = {} THEN Denoted(rec, r) ELSE {}
                 IN IF v # {} THEN v \cup {"at " \o ToString(j)} ELSE Walk(rec, j+1, seen)
VARIABLE dummy
RInit == l = 0 /\ dummy = 0
RNext == /\ l < Len(Trace)
         /\ l' = l + 1
         /\ UNCHANGED dummy
         /\ LET v == Walk(Trace[l+1], 1, {})
            IN v = {} \/ PrintT(<<"BAD", l+1, v>>)
=============================================================================
