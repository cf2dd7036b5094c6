------------------------------ MODULE ScriptTrace ------------------------------
(* Judges histories of a real script (and of directories full of grammars).      *)
(* A step: op with its arguments, and what was seen afterwards: exc, ok, ran,    *)
(* same (not a byte of the script differs), sec (for each section the labels its *)
(* content answers to), exec (can be executed), log (file with messages exists), *)
(* srv and app (content of server and application script: absent, new, user)     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l, g, s, last
S == INSTANCE Script WITH Good <- {"g1", "g2", "g3"}, Warned <- {"w1"}, Faulty <- {"f1", "f2", "f3"}, Texts <- {}, Imports <- {}
Trace == ndJsonDeserialize(IOEnv.TRACE)
In(x, q) == \E j \in DOMAIN q : q[j] = x
Differs(st, sec) == st # S!Absent /\ st.how = "" /\ ~(Len(sec) = 7 /\ \A k \in S!Secs : In(st.sec[k], sec[k]))
Outcome(r, st, o) ==
    CASE o.exc # r.exc -> "exception"
      [] r.exc = "" /\ o.ok # r.ok -> "result"
      [] o.ran # r.ran -> "recompiled"
      [] r.s = st /\ (~r.ran \/ ~r.ok) /\ ~o.same -> "script-touched"
      [] (r.s = S!Absent) # o.absent -> "script-exists"
      [] Differs(r.s, o.sec) -> "sections"
      [] r.ran /\ r.ok /\ r.exc = "" /\ r.s # S!Absent /\ ~o.exec -> "executable"
      [] OTHER -> ""
\* the file with the messages, after recompile_grammar has really compiled
Log(r, gr, o) == IF r.ran /\ r.exc = "" /\ o.log # (gr \in {"w1", "f1", "f2", "f3"}) THEN "messages" ELSE ""
RECURSIVE Play(_, _, _, _, _, _)
\* st the script, gr the grammar, x server- and application-scripts
Play(rec, i, st, gr, x, k) ==
    IF i > Len(rec.steps) THEN <<>>
    ELSE LET p == rec.steps[i]
             o == p.obs
             Go(r, why) == IF why # "" THEN <<why, i, r>> ELSE Play(rec, i+1, r.s, gr, x, k)
         IN CASE p.op = "grammar" -> Play(rec, i+1, st, p.g, x, k)
              [] p.op = "edit" -> Play(rec, i+1, S!Scr([st.sec EXCEPT ![p.k] = p.c], st.how), gr, x, k)
              [] p.op = "damage" -> Play(rec, i+1, [st EXCEPT !.how = p.how], gr, x, k)
              [] p.op = "delete" -> Play(rec, i+1, S!Absent, gr, x, k)
              [] p.op = "compile" -> LET r == S!Compile(st, gr, rec.needs) IN Go(r, Outcome(r, st, o))
              [] p.op = "recompile" -> LET r == S!Recompile(st, gr, rec.needs, p.force)
                                           w == Outcome(r, st, IF p.quiet THEN [o EXCEPT !.ran = r.ran] ELSE o)
                                       IN Go(r, IF w # "" THEN w ELSE Log(r, gr, o))
              [] p.op = "server" -> Play(rec, i+1, st, gr, [x EXCEPT ![p.k] = p.c], k)
              [] OTHER ->       \* create: scripts that exist are kept, unless they are to be overwritten
                   LET r == IF st = S!Absent THEN S!Recompile(st, gr, rec.needs, FALSE) ELSE S!Res(st, "", TRUE, FALSE)
                       y == [j \in 1..2 |-> IF p.which[j] # "none" /\ (x[j] = "absent" \/ p.force) THEN "new" ELSE x[j]]
                       w == Outcome([r EXCEPT !.ok = TRUE], st, [o EXCEPT !.ran = r.ran])
                   IN IF w # "" THEN <<w, i, r>>
                      ELSE IF o.srv # y[1] \/ o.app # y[2] THEN <<"other-scripts", i, y>>
                      ELSE Play(rec, i+1, r.s, gr, y, k)
\* all grammars in a directory: every one of them is compiled
Folder(rec) ==
    LET R(j) == LET f == rec.files[j] IN IF rec.op = "create" /\ f.s # S!Absent THEN S!Res(f.s, "", TRUE, FALSE) ELSE S!Recompile(f.s, f.g, rec.needs, rec.force)
        Seen(j) == [rec.files[j].obs EXCEPT !.ran = R(j).ran, !.ok = R(j).ok]
        bad == {j \in DOMAIN rec.files : Outcome(R(j), rec.files[j].s, Seen(j)) # "" \/ Log(R(j), rec.files[j].g, Seen(j)) # ""
                                            \/ rec.files[j].obs.srv # (IF rec.op = "create" THEN "new" ELSE "absent") \/ rec.files[j].obs.app # rec.files[j].obs.srv}
        ok == \A j \in DOMAIN rec.files : R(j).ok
    IN IF rec.exc # "" THEN <<"exception", 0, rec.exc>>
       ELSE IF rec.extra # <<>> THEN <<"folder-files", 0, rec.extra>>
       ELSE IF bad # {} THEN <<"folder", bad, [j \in DOMAIN rec.files |-> R(j)]>>
       ELSE IF rec.op = "create" THEN <<>>
       ELSE IF rec.calls # Cardinality({j \in DOMAIN rec.files : R(j).ran})THEN <<"folder-calls", 0, rec.calls>>
       ELSE IF rec.ok # ok THEN <<"folder-result", 0, ok>> ELSE <<>>
Verdict(rec) == IF rec.kind = "folder" THEN Folder(rec) ELSE Play(rec, 1, S!Absent, "g1", <<"absent", "absent">>, 0)
TInit == l = 0 /\ g = "" /\ s = <<>> /\ last = ""
TNext == /\ l < Len(Trace)
         /\ l' = l + 1 /\ UNCHANGED <<g, s, last>>
         /\ LET v == Verdict(Trace[l+1]) IN v = <<>> \/ PrintT(<<"BAD", l+1, {v[1]}, ToJson(<<v[2], v[3]>>)>>)
===============================================================================
