--------------------------- MODULE NodeEditTrace ----------------------------
(* Judges recorded histories of edits: rec.t tree before, rec.qs the steps.   *)
(* A step applies q.op to the node at q.p; afterwards the tree is q.after.    *)
EXTENDS NodeEdit, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* dropping a leaf and all parents that would become empty; the root remains
RECURSIVE DropPath(_, _)
DropPath(t, p) == IF p = <<>> THEN <<>> ELSE IF Len(Sub(t, SubSeq(p, 1, Len(p)-1)).c) > 1 THEN p
                  ELSE DropPath(t, SubSeq(p, 1, Len(p)-1))
Dropped(t, p) == LET d == DropPath(t, p)
                     m == SubSeq(d, 1, Len(d)-1)
                     k == d[Len(d)]
                     x == Sub(t, m)
                 IN IF d = <<>> THEN WithText(t, <<>>)
                    ELSE Put(t, m, WithChildren(x, SubSeq(x.c, 1, k-1) \o SubSeq(x.c, k+1, Len(x.c))))
\* equal up to identity: what a copy has to look like
RECURSIVE Same(_, _)
Same(s, t) == s.n = t.n /\ s.t = t.t /\ s.a = t.a /\ s.p = t.p /\ Len(s.c) = Len(t.c)
              /\ \A i \in 1..Len(s.c) : Same(s.c[i], t.c[i])
StepVerdict(t, q) ==
    IF q.op = "drop_leaf"
    THEN IF q.exc # "" THEN {"exception " \o q.exc} ELSE IF q.after # Dropped(t, q.p) THEN {"drop_leaf"} ELSE {}
    ELSE IF q.op = "copy"
    THEN IF q.exc # "" THEN {"exception " \o q.exc}
         ELSE (IF ~Same(Sub(t, q.p), q.v[1]) THEN {"copy-differs"} ELSE {})
              \cup (IF Uids(q.v[1]) \cap Uids(t) # {} THEN {"copy-shares-nodes"} ELSE {})
              \cup (IF q.r # <<1>> THEN {"copy-not-equal"} ELSE {})
              \cup (IF q.after # t THEN {"copy-is-not-independent"} ELSE {})
    ELSE LET o == Apply(Sub(t, q.p), q)
         IN (IF q.exc # o.exc THEN {q.op \o " exception " \o q.exc} ELSE {})
            \cup (IF q.exc = "" /\ q.r # o.r THEN {q.op \o " result"} ELSE {})
            \cup (IF q.after # Put(t, q.p, o.x) THEN {q.op \o " tree"} ELSE {})
Before(rec, i) == IF i = 1 THEN rec.t ELSE rec.qs[i-1].after
Verdict(rec) ==
    CASE rec.kind = "edits" -> UNION {StepVerdict(Before(rec, i), rec.qs[i]) : i \in 1..Len(rec.qs)}
      [] rec.kind = "tokens" ->
           (IF rec.added # AddTokens(rec.s, rec.w) THEN {"add_token"} ELSE {})
           \cup (IF rec.removed # RemoveTokens(rec.s, rec.w) THEN {"remove_token"} ELSE {})
           \cup (IF rec.all # HasTokens(rec.s, rec.w, TRUE) THEN {"has_token"} ELSE {})
           \cup (IF rec.any # HasTokens(rec.s, rec.w, FALSE) THEN {"has_token-any"} ELSE {})
           \cup (IF rec.eq # ({rec.s[i] : i \in 1..Len(rec.s)} = {rec.w[i] : i \in 1..Len(rec.w)}) THEN {"eq_tokens"} ELSE {})
           \cup (IF rec.kept # (RemoveTokens(rec.s, rec.w) # <<>>) THEN {"empty-attribute"} ELSE {})
      [] rec.kind = "root" ->      \* the root of a document with everything it keeps about the document
           (IF rec.exc # "" THEN {"exception " \o rec.exc} ELSE {})
           \cup (IF rec.exc = "" /\ rec.copy # rec.orig THEN {"root-copy-differs"} ELSE {})
           \cup (IF rec.exc = "" /\ rec.orig2 # rec.orig THEN {"change-of-the-copy-shows-in-the-original"} ELSE {})
           \cup (IF rec.exc = "" /\ rec.copy3 # rec.copy2 THEN {"change-of-the-original-shows-in-the-copy"} ELSE {})
           \cup (IF rec.exc = "" /\ rec.shared THEN {"root-copy-shares-nodes"} ELSE {})
Details(rec) == IF rec.kind # "edits" THEN <<>>
    ELSE [i \in 1..Len(rec.qs) |->
             IF rec.qs[i].op \in {"drop_leaf", "copy"} \/ StepVerdict(Before(rec, i), rec.qs[i]) = {} THEN <<>>
             ELSE <<Apply(Sub(Before(rec, i), rec.qs[i].p), rec.qs[i])>>]
TInit == l = 0
TNext == /\ l < Len(Trace)
         /\ l' = l + 1
         /\ LET b == Verdict(Trace[l+1])
            IN b = {} \/ PrintT(<<"BAD", l+1, b, ToJson(Details(Trace[l+1]))>>)
=============================================================================
