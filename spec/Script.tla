-------------------------------- MODULE Script --------------------------------
(* A parser script that is generated from a grammar and edited by its user.     *)
(* The script has seven sections: 1 intro, 2 imports, 3 preprocessor, 4 parser, *)
(* 5 abstract syntax tree, 6 compiler, 7 outro.  The contents are labels:       *)
(*   "blank"                nothing but whitespace                              *)
(*   "new<k>:<g>"           what is generated for section k and grammar g       *)
(*   anything else          texts of the user                                   *)
(* A text of the user in section 2 may have to be completed: without linefeed   *)
(* at its end (label ends with /), without the imports that are needed (?).     *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Good, Warned, Faulty, Texts, Imports
Grammars == Good \cup Warned \cup Faulty
Secs == 1..7
New(k, g) == <<"new", k, g>>
Blank == <<"blank">>
User(x) == <<"user", x>>
Gap(x) == <<"user", x, "newline">>           \* completed import sections
Completed(x) == <<"user", x, "imports">>
Both(x) == <<"user", x, "newline", "imports">>
Absent == <<>>
\* how: "" as it should be, "marker" there is a marker too many or too few, "bytes" no text
Scr(sec, how) == [sec |-> sec, how |-> how]

\* section 2: every label is only completed once
Fix(c, needs) == IF c[1] # "user" \/ Len(c) > 2 THEN c
                 ELSE CASE needs[c[2]] = "" -> c
                        [] needs[c[2]] = "newline" -> Gap(c[2])
                        [] needs[c[2]] = "imports" -> Completed(c[2])
                        [] OTHER -> Both(c[2])

\* generated once more: only the parser is new, and what the user left blank
Renewed(sec, g, needs) == [k \in Secs |-> IF k = 4 \/ sec[k] = Blank THEN New(k, g)
                                          ELSE IF k = 2 THEN Fix(sec[k], needs) ELSE sec[k]]
Fresh(g) == [k \in Secs |-> New(k, g)]

Res(s, exc, ok, ran) == [s |-> s, exc |-> exc, ok |-> ok, ran |-> ran]
Compile(s, g, needs) ==
    IF g \in Faulty THEN Res(s, "", FALSE, TRUE)
    ELSE IF s = Absent THEN Res(Scr(Fresh(g), ""), "", TRUE, TRUE)
    ELSE IF s.how # "" THEN Res(s, IF s.how = "bytes" THEN "UnicodeDecodeError" ELSE "ValueError", FALSE, TRUE)
    ELSE Res(Scr(Renewed(s.sec, g, needs), ""), "", TRUE, TRUE)
\* does the parser in the script belong to another grammar?
Changed(s, g) == s.sec[4] # New(4, g)
Recompile(s, g, needs, force) ==
    IF s # Absent /\ ~force /\ s.how = "bytes" THEN Res(s, "UnicodeDecodeError", FALSE, FALSE)
    ELSE IF s = Absent \/ force \/ Changed(s, g) THEN Compile(s, g, needs)
    ELSE Res(s, "", TRUE, FALSE)
-------------------------------------------------------------------------------
\* the life of a script
VARIABLES g, s, last
vars == <<g, s, last>>
Needs == [x \in Texts \cup Imports |-> IF x \in Texts THEN "" ELSE x]
Init == g \in Grammars /\ s = Absent /\ last = "none"
Change == g' \in Grammars \ {g} /\ last' = "change" /\ UNCHANGED s
\* 3, 5 and 6 are treated like 1 and 7
Edit == /\ s # Absent /\ s.how = ""
        /\ \E k \in {1, 2, 4, 7} : \E c \in {Blank} \cup {User(x) : x \in IF k = 2 THEN Imports ELSE Texts} :
               s' = Scr([s.sec EXCEPT ![k] = c], "")
        /\ last' = "edit" /\ UNCHANGED g
Damage == s # Absent /\ s' = [s EXCEPT !.how = IF @ = "" THEN "marker" ELSE ""] /\ last' = "damage" /\ UNCHANGED g
Delete == s # Absent /\ s' = Absent /\ last' = "delete" /\ UNCHANGED g
Run == s' = Compile(s, g, Needs).s /\ last' = "compile" /\ UNCHANGED g
Again == \E f \in BOOLEAN : s' = Recompile(s, g, Needs, f).s /\ last' = "compile" /\ UNCHANGED g
Next == Change \/ Edit \/ Damage \/ Delete \/ Run \/ Again
Spec == Init /\ [][Next]_vars
\* what the user wrote survives every compilation; faulty grammars and damaged scripts change nothing
Origin(c) == IF c[1] = "user" THEN <<c[1], c[2]>> ELSE c
Preserved == [][last' = "compile" => /\ s # Absent => s' # Absent
                                     /\ s # Absent => \A k \in Secs \ {4} : s.sec[k] # Blank => Origin(s'.sec[k]) = Origin(s.sec[k])
                                     /\ (g \in Faulty \/ (s # Absent /\ s.how # "")) => s' = s]_vars
\* compiled twice is compiled once
Stable == LET r == Compile(s, g, Needs).s IN g \notin Faulty => Compile(r, g, Needs).s = r
\* a script that need not be compiled again would not change
Lazy == g \notin Faulty /\ s # Absent /\ s.how = "" /\ ~Changed(s, g) => Compile(s, g, Needs).s.sec[4] = s.sec[4]
===============================================================================
