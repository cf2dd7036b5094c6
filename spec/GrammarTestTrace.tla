--------------------------- MODULE GrammarTestTrace ---------------------------
(* Judges runs of grammar_unit and grammar_suite, what readers of test-files     *)
(* return, and the templates for tests that are made for a grammar.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLE l
G == INSTANCE GrammarTest WITH Words <- {"ab", "xyz", "err", "warn", "domerr", "boom"}, Nums <- {"1", "23"}, Cases <- {}, MaxCases <- 0,
                               todo <- l, done <- l, errata <- l, config <- l, phase <- l
Trace == ndJsonDeserialize(IOEnv.TRACE)
In(x, q) == \E j \in DOMAIN q : q[j] = x
Set(q) == {q[j] : j \in DOMAIN q}
Max(a, b) == IF a > b THEN a ELSE b
-----------------------------------------------------------------------------
(* units: syms[j] = [s, cases, tested (stages with tests)]; report, shown, la;   *)
(* flagged <<symbol, name>>, heads: what the report says                         *)
Env(u, y) == LET later == (Set(y.tested) \cup Set(u.shown)) \cap {"dom", "txt"}
             IN [la |-> u.la, ast |-> "AST" \in Set(y.tested) \/ u.report \/ later # {}, stages |-> later]
Wrong(u) == {<<y.s, c.name>> : <<y, c>> \in UNION {{<<u.syms[j], u.syms[j].cases[k]>> : k \in {k \in DOMAIN u.syms[j].cases :
                LET v == u.syms[j] w == v.cases[k] e == Env(u, v)
                IN G!Judged(w, e) /\ (G!MustReport(w, e) # In(<<v.s, w.name>>, u.flagged))}} : j \in DOMAIN u.syms}}
Names(u) == UNION {{<<u.syms[j].s, u.syms[j].cases[k].name>> : k \in DOMAIN u.syms[j].cases} : j \in DOMAIN u.syms}
\* heads: <<symbol, type, name, has error, has CST>> in the order of the file, match-tests first
Part(y, typ) == SelectSeq(y.cases, LAMBDA c : c.typ = typ)
RECURSIVE Expect(_, _)
Expect(u, j) == IF j > Len(u.syms) THEN <<>>
                ELSE LET y == u.syms[j] m == Part(y, "match") f == Part(y, "fail")
                         H(q, typ) == [k \in DOMAIN q |-> <<y.s, typ, q[k].name, In(<<y.s, q[k].name>>, u.flagged)>>]
                     IN H(m, "match") \o H(f, "fail") \o Expect(u, j + 1)
Unit(u) == (IF u.exc # "" THEN {"exception"} ELSE {})
     \cup (IF u.exc = "" /\ Wrong(u) # {} THEN {"verdict"} ELSE {})
     \cup (IF u.exc = "" /\ ~(Set(u.flagged) \subseteq Names(u)) THEN {"stray"} ELSE {})
     \cup (IF u.exc = "" /\ u.report /\ [k \in DOMAIN u.heads |-> SubSeq(u.heads[k], 1, 4)] # Expect(u, 1) THEN {"report"} ELSE {})
     \cup (IF u.exc = "" /\ \E k \in DOMAIN u.heads : u.heads[k][2] = "match" /\ ~u.heads[k][4] /\ u.heads[k][5] # u.heads[k][6] THEN {"report-cst"} ELSE {})
     \cup (IF u.exc = "" /\ (u.after # u.before \/ u.during # u.wanted) THEN {"configuration"} ELSE {})
     \cup (IF u.exc = "" /\ u.again # u.flagged THEN {"repeated"} ELSE {})
-----------------------------------------------------------------------------
(* suites: files[j] = [name, n (errata of the file alone)]; named, total         *)
Suite(r) == LET bad == {j \in DOMAIN r.files : r.files[j].n > 0}
            IN (IF r.exc # "" THEN {"exception"} ELSE {})
          \cup (IF r.exc = "" /\ r.named # SelectSeq([j \in DOMAIN r.files |-> IF r.files[j].n > 0 THEN r.files[j].name ELSE ""], LAMBDA x : x # "") THEN {"suite-files"} ELSE {})
          \cup (IF r.exc = "" /\ r.clean # (bad = {}) THEN {"suite-clean"} ELSE {})
          \cup (IF r.exc = "" /\ r.total # r.sum THEN {"suite-count"} ELSE {})
          \cup (IF ~r.home THEN {"suite-directory"} ELSE {})
-----------------------------------------------------------------------------
(* files: what is read is what is written.  A text is written as lines <<blanks, *)
(* rest>>; all but the first are indented by four blanks more than the text      *)
Cut(raw) == [k \in DOMAIN raw |-> IF k = 1 THEN raw[k] ELSE IF raw[k][2] = "" /\ raw[k][1] < 4 THEN <<0, "">> ELSE <<raw[k][1] - 4, raw[k][2]>>]
Plain(k) == k  \* names of cases are kept as they are, with their asterisk
Stage(x) == IF x \in {"ast", "Ast", "AST"} THEN "AST" ELSE IF x \in {"cst", "CST"} THEN "CST" ELSE x
\* sections[j] = [stage, s, entries: <<[key, bare, how, raw | tree]>>]
Entry(e) == IF e.how = "tree" THEN [key |-> e.key, how |-> "tree", lines |-> <<>>, tree |-> e.tree]
            ELSE [key |-> e.key, how |-> "text", lines |-> Cut(e.raw), tree |-> [n |-> "", k |-> <<>>, x |-> "", a |-> ""]]
RECURSIVE Read(_, _)
\* result: sequence of [s, stage, entries]; sections with the same heading are joined
Read(secs, acc) ==
    IF secs = <<>> THEN acc
    ELSE LET h == Head(secs)
             at == {j \in DOMAIN acc : acc[j].s = h.s /\ acc[j].stage = Stage(h.stage)}
             new == [k \in DOMAIN h.entries |-> Entry(h.entries[k])]
         IN Read(Tail(secs), IF at = {} THEN Append(acc, [s |-> h.s, stage |-> Stage(h.stage), entries |-> new])
                             ELSE LET j == CHOOSE j \in at : TRUE IN [acc EXCEPT ![j].entries = @ \o new])
Unknown(r) == \E j \in DOMAIN r.sections : Stage(r.sections[j].stage) \notin ({"match", "fail", "AST", "CST"} \cup Set(r.more))
\* a name that is used twice, with or without asterisk
Twice(r) == LET Bare(q) == [k \in DOMAIN q |-> [q[k] EXCEPT !.key = q[k].bare]]
                flat == Read([j \in DOMAIN r.sections |-> [r.sections[j] EXCEPT !.entries = Bare(r.sections[j].entries)]], <<>>)
            IN \E j \in DOMAIN flat : \E a, b \in DOMAIN flat[j].entries : a < b /\ flat[j].entries[a].key = flat[j].entries[b].key
File(r) == LET want == IF Unknown(r) \/ Twice(r) THEN "KeyError" ELSE ""
           IN IF r.junk THEN IF r.exc \in {"SyntaxError", "KeyError"} THEN {} ELSE {"read-junk"}
              ELSE IF r.exc # want THEN {"read-exception"}
              ELSE IF want = "" /\ Set(r.got) # Set(Read(r.sections, <<>>)) THEN {"read"}
              ELSE IF want = "" /\ (r.json # "same") THEN {"json"}
              ELSE IF want = "" /\ (r.config # "same") THEN {"written-again"} ELSE {}
-----------------------------------------------------------------------------
(* templates: a history of grammars; for every section of the grammar one file,  *)
(* numbered from the last section to the first; files that exist are kept, but    *)
(* renamed if the number has changed.  fs: set of <<number, section, content>>    *)
Number(secs, k) == Len(secs) + 1 - k
RECURSIVE Make(_, _, _)
Make(fs, secs, k) ==
    IF k = 0 THEN fs
    ELSE LET n == Number(secs, k)
             have == {f \in fs : f[2] = secs[k].name}
         IN Make(IF \E f \in have : f[1] = n THEN fs
                 ELSE IF have # {} THEN LET f == CHOOSE f \in have : TRUE IN (fs \ {f}) \cup {<<n, f[2], f[3]>>}
                 ELSE fs \cup {<<n, secs[k].name, secs[k].syms>>}, secs, k - 1)
RECURSIVE Hist(_, _, _)
Hist(steps, k, fs) ==
    IF k > Len(steps) THEN {}
    ELSE LET p == steps[k]
         IN IF p.op = "edit" THEN Hist(steps, k + 1, {IF f[2] = p.name THEN <<f[1], f[2], p.syms>> ELSE f : f \in fs})
            ELSE LET now == Make(fs, p.secs, Len(p.secs))
                 IN IF p.exc # "" THEN {"exception"}
                    ELSE IF p.symbols # p.secs THEN {"symbols"}
                    ELSE IF Set(p.files) # now THEN {"templates"} ELSE Hist(steps, k + 1, now)
-----------------------------------------------------------------------------
Verdict(r) == CASE r.kind = "unit" -> Unit(r) [] r.kind = "suite" -> Suite(r) [] r.kind = "file" -> File(r) [] OTHER -> Hist(r.steps, 1, {})
TInit == l = 0
TNext == /\ l < Len(Trace) /\ l' = l + 1
         /\ LET v == Verdict(Trace[l']) IN v # {} => PrintT(<<"BAD", l', v>>)
===============================================================================
