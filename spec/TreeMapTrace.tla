---------------------------- MODULE TreeMapTrace ----------------------------
(* Judges content mappings of the real code: mapping m = [text, offs, paths]  *)
(* of tree t under sel and ign, and queries qs on it.                         *)
EXTENDS TreeMap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
First(s) == IF s = <<>> THEN <<>> ELSE <<Head(s)>>
Expected(rec, ls, offs, q) ==
    LET t == rec.t
        n == Len(Text(t, ls))
        at == IndexAt(offs, q.pos, q.left)
        M == {p \in AddrSet(t) : InSet(Sub(t, p).n, q.names)}
        has == {i \in 1..Len(ls) : IsPrefix(q.p, ls[i])}
        idx == IF has = {} THEN 0 ELSE IF q.rev THEN Max(has) ELSE CHOOSE i \in has : \A j \in has : i <= j
        found == Found(t, ls, IF q.start >= 0 THEN q.start + 1 ELSE IF q.rev THEN Len(ls) ELSE 1, <<>>, q.rev, M)
        rng == Range(at, IndexAt(offs, q.pos2, q.left))
    IN CASE q.op = "index" -> <<<<at - 1>>>>
         [] q.op = "location" -> <<<<at - 1>>, ls[at], <<q.pos - offs[at]>>>>
         [] q.op = "path" -> <<ls[at], <<q.pos - offs[at]>>>>
         [] q.op = "node_index" -> <<<<idx - 1>>>>
         [] q.op = "node_position" ->
               <<<<IF idx = 0 THEN -1 ELSE IF q.rev THEN offs[idx] + Len(Sub(t, ls[idx]).t) ELSE offs[idx]>>>>
         [] q.op = "iterate" -> [i \in 1..Len(rng) |-> ls[rng[i]]]
         [] q.op = "select" -> Cat([i \in 1..Len(found) |-> found[i]])
         [] q.op = "pick" -> IF found = <<>> THEN <<<<-1>>>> ELSE found[1]
Verdict(rec) ==
    IF Misselects(rec.t, rec.sel, rec.ign)
    THEN IF rec.exc = "ValueError" THEN {} ELSE {"branch-selected"}
    ELSE IF rec.exc # "" THEN {"exception " \o rec.exc}
    ELSE LET ls == Selected(rec.t, rec.sel, rec.ign)
             offs == Offsets(rec.t, ls, 0)
         IN (IF rec.text # Text(rec.t, ls) THEN {"content"} ELSE {})
            \cup (IF rec.paths # ls THEN {"path_list"} ELSE {})
            \cup (IF rec.offs # offs THEN {"pos_list"} ELSE {})
            \cup {rec.qs[i].op : i \in {i \in 1..Len(rec.qs) :
                     rec.qs[i].exc # "" \/ rec.qs[i].r # Expected(rec, ls, offs, rec.qs[i])}}
Details(rec) == IF rec.exc # "" \/ Misselects(rec.t, rec.sel, rec.ign) THEN <<>>
    ELSE LET ls == Selected(rec.t, rec.sel, rec.ign)
             offs == Offsets(rec.t, ls, 0)
         IN <<ls, offs>> \o [i \in 1..Len(rec.qs) |-> Expected(rec, ls, offs, rec.qs[i])]
TInit == l = 0
TNext == /\ l < Len(Trace)
         /\ l' = l + 1
         /\ LET b == Verdict(Trace[l+1])
            IN b = {} \/ PrintT(<<"BAD", l+1, b, ToJson(Details(Trace[l+1]))>>)
=============================================================================
