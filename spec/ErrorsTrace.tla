---------------------------- MODULE ErrorsTrace -----------------------------
(* Judges recordings: kind "lc" (lines and columns of a text), "hist" (history *)
(* of a tree root with errors), "msg" (messages of single errors).             *)
EXTENDS Errors, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(b, x) == IF b THEN {x} ELSE {}
\* --- lines and columns; <<0, 0>>: ValueError
LcBad(r) ==
    If(\E i \in 1..Len(r.lc) : r.lc[i][2] # LineCol(r.text, r.lc[i][1]), "line_col")
    \cup If(\E i \in 1..Len(r.tp) : r.tp[i][3] # TextPos(r.text, r.tp[i][1], r.tp[i][2]), "text_pos")
    \cup If(r.breaks # <<-1>> \o SelectSeq([i \in 1..Len(r.text) |-> i-1], LAMBDA i : r.text[i+1] = "\n")
            \o <<Len(r.text)>>, "linebreaks")
\* --- histories
Apply(s, o) ==      \* [T, es, exc]
    CASE o.op = "add" ->
           IF ~Has(s.es, o.code, o.pos) /\ o.n # 0 /\ o.pos < s.T.pos[IF o.n = 0 THEN 1 ELSE o.n] THEN [s EXCEPT !.exc = "AssertionError"]
           ELSE IF ~Has(s.es, o.code, o.pos) /\ s.located /\ o.pos > Len(s.text) THEN [s EXCEPT !.exc = "ValueError"]
           ELSE [s EXCEPT !.es = Add(s.T, s.es, o.n, o.code, o.pos, o.len)]
      [] o.op = "new" -> [s EXCEPT !.es = New(s.T, s.es, o.n, o.code, o.limit)]
      [] o.op = "transfer" -> [s EXCEPT !.es = Transfer(s.T, s.es, o.n, o.m)]
      [] o.op = "remove" -> [s EXCEPT !.T = Remove(s.T, o.n)]
      [] o.op = "swallow" -> [s EXCEPT !.located = TRUE]
      [] o.op = "copy" -> s
Len1(s, e) == Min(e.len, Len(s.text) - e.pos)       \* errors do not reach beyond the end of the text
Place(s, e) == LET a == LineCol(s.text, e.pos)
                   b == LineCol(s.text, e.pos + Len1(s, e))
               IN <<a[1], a[2], b[1], b[2], Len1(s, e), e.pos>>
Pair(e) == <<e.code, e.pos>>
ObsBad(s, o) ==
    LET v == o.obs
        n == Len(s.es)
    IN If(o.exc # s.exc, "exception")
       \cup If([i \in 1..Len(v.errs) |-> v.errs[i].id] # [i \in 1..n |-> Pair(s.es[i])], "errors")
       \cup (IF [i \in 1..Len(v.errs) |-> v.errs[i].id] = [i \in 1..n |-> Pair(s.es[i])]
             THEN If(\E i \in 1..n : v.errs[i].notices # (IF s.es[i].notice THEN 1 ELSE 0), "limit-notice")
                  \cup If(\E i \in 1..n : s.located /\ v.errs[i].place # Place(s, s.es[i]), "location")
                  \cup If(\E i \in 1..n : v.errs[i].severity # Severity(s.es[i].code), "severity")
             ELSE {})
       \cup If(v.sorted # [i \in 1..n |-> Pair(Sorted(s.es)[i])], "errors_sorted")
       \cup If(v.flag # Flag(s.es), "error_flag")
       \cup If(\E i \in 1..Len(v.levels) : v.levels[i][2] # (Flag(s.es) >= v.levels[i][1])
                 \/ v.levels[i][3] # (Flag(s.es) >= v.levels[i][1])
                 \/ v.levels[i][4] # Cardinality({j \in 1..n : s.es[j].code >= v.levels[i][1]}), "levels")
       \cup If(s.located /\ v.match # ~\E i \in 1..n : s.es[i].code = 1040, "did_match")
       \cup If(s.located /\ \E x \in {v.at[i] : i \in 1..Len(v.at)} :
                 \/ \E i \in 1..n : Must(s.T, s.es[i], x.n) /\ ~\E j \in 1..Len(x.ids) : x.ids[j] = Pair(s.es[i]), "error-not-found-at-node")
       \cup If(s.located /\ \E x \in {v.at[i] : i \in 1..Len(v.at)} :
                 \E i \in 1..n : MustNot(s.T, s.es, s.es[i], x.n) /\ \E j \in 1..Len(x.ids) : x.ids[j] = Pair(s.es[i]), "error-found-at-other-node")
       \cup If(s.located /\ \E x \in {v.at[i] : i \in 1..Len(v.at)} :
                 \/ \E j, k \in 1..Len(x.ids) : j # k /\ x.ids[j] = x.ids[k]
                 \/ \E j \in 1..Len(x.ids) : ~\E i \in 1..n : x.ids[j] = Pair(s.es[i]), "node_errors")
RECURSIVE HistBad(_, _, _)
HistBad(s, ops, i) ==
    IF i > Len(ops) THEN [bad |-> {}, i |-> 0, s |-> s]
    ELSE LET n == Apply([s EXCEPT !.exc = ""], ops[i])
             b == ObsBad(n, ops[i])
         IN IF b # {} THEN [bad |-> b, i |-> i, s |-> n] ELSE HistBad(n, ops, i+1)
\* --- messages
Str(r) == r.prefix \o (IF r.line > 0 THEN ToString(r.line) \o ":" \o ToString(r.col) \o ": " ELSE "")
          \o Severity(r.code) \o " (" \o ToString(r.code) \o "): " \o r.msg
LineOf(text, pos) == LET B == Breaks(text, pos)
                         a == IF B = {} THEN 0 ELSE CHOOSE i \in B : \A j \in B : j <= i
                         E == {i \in (pos+1)..Len(text) : text[i] = "\n"}
                         b == IF E = {} THEN Len(text) + 1 ELSE CHOOSE i \in E : \A j \in E : i <= j
                     IN SubSeq(text, a+1, b-1) \o <<"\n">> \o [i \in 1..(pos-a) |-> " "] \o <<"^", "\n">>
MsgBad(r) == LET lc == LineCol(r.text, r.pos)
             IN If(r.str # Str([r EXCEPT !.prefix = r.strprefix]), "str")
                \cup If(r.canon # Str(r), "canonical")
                \cup If(<<r.line, r.col>> # lc, "location")
                \cup If(r.vis # LineOf(r.text, r.pos), "visualize")
                \cup If(r.lsp # <<lc[1]-1, lc[2]-1, LineCol(r.text, Min(r.pos + r.len, Len(r.text)))[1]-1,
                                  LineCol(r.text, Min(r.pos + r.len, Len(r.text)))[2]-1,
                                  IF r.code < 100 THEN 3 ELSE IF r.code < 1000 THEN 2 ELSE 1>>, "diagnostic")
TInit == l = 0 /\ tree = <<>> /\ errs = <<>>
TNext == /\ l < Len(Trace)
         /\ l' = l + 1
         /\ UNCHANGED vars
         /\ LET r == Trace[l+1]
            IN IF r.kind = "lc" THEN LET b == LcBad(r) IN b = {} \/ PrintT(<<"BAD", l+1, b>>)
               ELSE IF r.kind = "msg" THEN LET b == MsgBad(r) IN b = {} \/ PrintT(<<"BAD", l+1, b>>)
               ELSE LET h == HistBad([T |-> r.tree, es |-> <<>>, exc |-> "", text |-> r.text, located |-> r.located], r.ops, 1)
                    IN h.bad = {} \/ PrintT(<<"BAD", l+1, h.bad, ToJson(<<h.i, h.s.es, h.s.T>>)>>)
=============================================================================
