--------------------------- MODULE StrViewTrace ----------------------------
(* Judges recorded results of operations on string views.                     *)
EXTENDS StrView, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Off(i, dflt, n) == IF i = None THEN dflt ELSE Clip(i, n)
Want(s, o) == CASE o.op = "str" -> s
    [] o.op = "len" -> Len(s)
    [] o.op = "bool" -> s # <<>>
    [] o.op = "get" -> LET k == IF o.i < 0 THEN o.i + Len(s) ELSE o.i IN
                       IF k < 0 \/ k >= Len(s) THEN "IndexError" ELSE <<s[k+1]>>
    [] o.op = "slice" -> Slice(s, o.i, o.j)
    [] o.op = "find" -> Find(s, o.x, o.i, o.j)
    [] o.op = "rfind" -> RFind(s, o.x, o.i, o.j)
    [] o.op = "count" -> Count(s, o.x, o.i, o.j)
    [] o.op = "startswith" -> StartsWith(s, o.x, o.i, o.j)
    [] o.op = "endswith" -> EndsWith(s, o.x, o.i, o.j)
    [] o.op = "in" -> Occs(s, o.x, None, None) # {}
    [] o.op = "split" -> IF o.x = <<>> THEN "ValueError" ELSE Split(s, o.x)
    [] o.op = "words" -> Words(s)
    [] o.op = "strip" -> Lead(Trail(s, {o.x[k] : k \in 1..Len(o.x)}), {o.x[k] : k \in 1..Len(o.x)})
    [] o.op = "lstrip" -> Lead(s, {o.x[k] : k \in 1..Len(o.x)})
    [] o.op = "rstrip" -> Trail(s, {o.x[k] : k \in 1..Len(o.x)})
    [] o.op = "replace" -> Replace(s, o.x, o.y)
    [] o.op = "eq" -> s = o.x
    [] o.op = "hash" -> TRUE        \* equal strings have equal hashes
    [] o.op = "add" -> s \o o.x
    [] o.op = "radd" -> o.x \o s
    [] o.op = "iter" -> [k \in 1..Len(s) |-> <<s[k]>>]
    [] o.op = "match" -> LET e == MatchAt(s, o.rx, 0, Len(s)) IN IF e < 0 THEN <<-1, -1>> ELSE <<0, e>>
    [] o.op = "search" -> Search(s, o.rx, Off(o.i, 0, Len(s)), Off(o.j, Len(s), Len(s)))
    [] o.op = "finditer" -> AllMatches(s, o.rx, 0, FALSE)
Bad(rec) == LET s == View(rec.text, rec.chain)
            IN {k \in 1..Len(rec.ops) : ToJson(Want(s, rec.ops[k])) # ToJson(rec.ops[k].r)}
TInit == l = 0
TNext == /\ l < Len(Trace)
         /\ l' = l + 1
         /\ LET b == Bad(Trace[l+1])
                k == Min(b)
            IN b = {} \/ PrintT(<<"BAD", l+1, {Trace[l+1].ops[k].op}, ToJson(<<k, Want(View(Trace[l+1].text, Trace[l+1].chain), Trace[l+1].ops[k])>>)>>)
=============================================================================
