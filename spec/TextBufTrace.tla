---------------------------- MODULE TextBufTrace ----------------------------
(* Replays a recorded history of a text buffer: each step of the record must   *)
(* be the step of TextBuf, and what is observed afterwards must be its state.  *)
EXTENDS TextBuf, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
St(t, v, e) == [t |-> t, v |-> v, edited |-> e]
After(s, o) == CASE o.op = "update" ->
        St(Edit(Lf(s.t), o.a[1], o.a[2], o.a[3], o.a[4], o.new), s.v + 1, TRUE)
    [] OTHER -> s
RECURSIVE Edits(_, _, _)
Edits(s, es, ver) == IF es = <<>> THEN (IF ver >= 0 THEN [s EXCEPT !.v = ver] ELSE s)
    ELSE Edits(After(s, Head(es)), Tail(es), ver)
Step(s, o) == IF o.op = "edits" THEN Edits(s, o.es, o.ver) ELSE After(s, o)
Lns(s) == Lines(Lf(s.t))
Shown(s, o) == CASE o.op \in {"update", "edits"} -> s.v
    [] o.op = "str" -> s.t
    [] o.op = "len" -> Len(s.t)
    [] o.op = "lines" -> Len(Lns(s))
    [] o.op = "line" -> Lns(s)[o.i + 1]
    [] o.op = "range" -> SubSeq(Lns(s), o.i + 1, o.j)
    [] o.op = "buffer" -> Lns(s)
    [] o.op = "lf" -> s.t
    [] o.op = "crlf" -> IF s.edited THEN Joined(Lines(s.t), <<CR, LF>>) ELSE o.r
RECURSIVE Bad(_, _, _)
Bad(s, ops, k) == IF k > Len(ops) THEN <<>>
    ELSE LET n == Step(s, ops[k])
         IN IF ToJson(Shown(n, ops[k])) # ToJson(ops[k].r) THEN <<k, Shown(n, ops[k])>> ELSE Bad(n, ops, k+1)
TInit == l = 0 /\ text = <<>> /\ lines = <<>> /\ version = 0
TNext == /\ l < Len(Trace)
         /\ l' = l + 1
         /\ UNCHANGED <<text, lines, version>>
         /\ LET b == Bad(St(Trace[l+1].text, 0, FALSE), Trace[l+1].ops, 1)
            IN b = <<>> \/ PrintT(<<"BAD", l+1, {Trace[l+1].ops[b[1]].op}, ToJson(b)>>)
=============================================================================
