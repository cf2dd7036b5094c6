--------------------------- MODULE EbnfStaticTrace ---------------------------
(* What is wrong with a grammar.  From the tokens of an EBNF text (and its      *)
(* directives) follow the mistakes that must be reported, each with its kind    *)
(* and its place, and those that may be reported in addition; every other       *)
(* error is a false alarm.                                                      *)
EXTENDS Ebnf, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
M(code, p) == [code |-> code, p |-> p]
UNDEFINED == 1140
ERR == 1000
REDEF == 1080
NOWHERE == 1100
BADRX == 1585
KEYWORD == 1555
ORDER == 1570
TWICE == 1560
AHEAD == 1520
NESTED == 1530
LOOSE == 670

\* ---- texts that are no grammar: brackets do not match, or something is missing between two tokens
Opening == {"(", "[", "{"}
Closing == {")", "]", "}", "}+"}
Fits(o, c) == (o = "(" /\ c = ")") \/ (o = "[" /\ c = "]") \/ (o = "{" /\ c \in {"}", "}+"})
RECURSIVE Balanced(_, _, _)
Balanced(t, i, stack) ==
    IF i > Len(t) THEN stack = <<>>
    ELSE IF K(t, i) \in Opening THEN Balanced(t, i+1, <<K(t, i)>> \o stack)
    ELSE IF K(t, i) \in Closing THEN stack # <<>> /\ Fits(Head(stack), K(t, i)) /\ Balanced(t, i+1, Tail(stack))
    ELSE Balanced(t, i+1, stack)
NeedsNext == Opening \cup Flow \cup {"DEF", "OR", "MAND", "INTER", "MINUS"}
NoStart == Closing \cup {"OR", "EOF", "ENDL", "INTER"}
Missing(t, i) == \/ K(t, i) \in NeedsNext /\ K(t, i+1) \in NoStart /\ ~(K(t, i) = "DEF" /\ K(t, i+1) = "OR")
                 \/ K(t, i) = "DEF" /\ K(t, i+1) = "DEF"
IllFormed(t) == ~Balanced(t, 1, <<>>) \/ \E i \in 1..Len(t) : Missing(t, i)

\* ---- trees
RECURSIVE Subs(_)
Subs(a) == {a} \cup UNION {Subs(a.as[j]) : j \in DOMAIN a.as}
Usages(ds) == UNION {{x \in Subs(ds[k].a) : x.o \in {"sym"} \cup Retr} : k \in DOMAIN ds}
RECURSIVE Bare(_), Circle(_, _, _)
Bare(a) == IF a.o = "grp" THEN Bare(a.as[1]) ELSE IF a.o = "seq" /\ Len(a.as) = 1 /\ a.m = 1000 THEN Bare(a.as[1]) ELSE IF a.o = "alt" /\ Len(a.as) = 1 THEN Bare(a.as[1]) ELSE a
\* symbols that are nothing but names of each other
Circle(ds, nm, seen) == IF nm \in seen THEN TRUE
                        ELSE /\ nm \in NamesOf(ds)
                             /\ LET b == Bare(Def(ds, nm).a) IN b.o = "sym" /\ Circle(ds, b.tk.v, seen \cup {nm})
Recursive(ds, nm) == nm \in Closure(ds, Refs(Def(ds, nm).a), Refs(Def(ds, nm).a))
\* something that can never fail: for certain
RECURSIVE Never(_, _, _)
Never(ds, a, seen) ==
    CASE a.o \in {"opt", "rep0", "ws"} -> TRUE
      [] a.o = "cnt" -> a.lo = 0
      [] a.o = "grp" -> Never(ds, a.as[1], seen)
      [] a.o = "alt" -> \E j \in DOMAIN a.as : Never(ds, a.as[j], seen)
      [] a.o = "seq" -> \A j \in DOMAIN a.as : Never(ds, a.as[j], seen)
      [] a.o = "sym" -> /\ a.tk.v \in NamesOf(ds) /\ a.tk.v \notin seen \cup Variables(ds) /\ ~Recursive(ds, a.tk.v)
                        /\ Bare(Def(ds, a.tk.v).a).o \in {"opt", "rep0"}
                        /\ Never(ds, Def(ds, a.tk.v).a, seen \cup {a.tk.v})
      [] OTHER -> FALSE
\* ... or possibly
RECURSIVE Perhaps(_, _, _)
Perhaps(ds, a, seen) ==
    CASE a.o \in {"opt", "rep0", "ws"} -> TRUE
      [] a.o = "cnt" -> a.lo = 0
      [] a.o \in {"lit", "ptext", "rx", "set", "any"} \cup Flow -> a.o \in Flow
      [] a.o \in {"grp", "rep1", "-"} -> Perhaps(ds, a.as[1], seen)
      [] a.o = "alt" -> \E j \in DOMAIN a.as : Perhaps(ds, a.as[j], seen)
      [] a.o \in {"seq", "inter"} -> \A j \in DOMAIN a.as : Perhaps(ds, a.as[j], seen)
      [] a.o \in {"sym"} \cup Retr -> a.tk.v \notin NamesOf(ds) \/ (a.tk.v \notin seen /\ Perhaps(ds, Def(ds, a.tk.v).a, seen \cup {a.tk.v})) \/ a.o # "sym"
      [] OTHER -> TRUE
Brackets == {"opt", "rep0", "rep1"}
\* ---- mistakes in the definitions
Names(ds) == {M(UNDEFINED, u.tk.p) : u \in {x \in Usages(ds) : x.tk.v \notin NamesOf(ds)}}
First(ds, k) == \A j \in 1..(k-1) : ds[j].nm # ds[k].nm
Bad(r, nm) == nm \in Range(r.keywords) \cup Range(r.badnames)
Doubled(ds) == {k \in DOMAIN ds : \E j \in DOMAIN ds : j # k /\ ds[j].nm = ds[k].nm}
Twice(r, ds) == {M(ERR, ds[k].p0) : k \in {k \in Doubled(ds) : ~First(ds, k) \/ ~Bad(r, ds[k].nm)}}
BadName(r, ds) == {M(IF ds[k].nm \in Range(r.keywords) THEN KEYWORD ELSE ERR, ds[k].p0) : k \in {k \in DOMAIN ds : First(ds, k) /\ Bad(r, ds[k].nm)}}
BadUse(r, ds) == {M(ERR, u.tk.p) : u \in {x \in Usages(ds) : x.tk.v \in Range(r.badnames)}}
All(ds) == UNION {Subs(ds[k].a) : k \in DOMAIN ds}
Regexes(ds) == {M(BADRX, x.tk.p) : x \in {y \in All(ds) : y.o = "rx" /\ y.tk.v # ""}}
Nesting(ds) == {M(ERR, x.at) : x \in {y \in All(ds) : y.o \in Brackets /\ (y.as[1].o \in Brackets \/ (y.as[1].o = "seq" /\ y.as[1].m = 0))}}
Counts(ds) == {M(ERR, IF x.tk.k = "RNG" THEN x.tk.p ELSE x.at) : x \in {y \in All(ds) : y.o = "cnt" /\ (y.hi = 0 \/ (y.hi >= 0 /\ y.lo > y.hi))}}
RECURSIVE NotBehind(_, _, _)
NotBehind(ds, a, seen) ==
    LET b == Bare(a) IN
    IF b.o = "sym" THEN b.tk.v \in NamesOf(ds) \ seen /\ NotBehind(ds, Def(ds, b.tk.v).a, seen \cup {b.tk.v})
    ELSE b.o \notin {"rx", "set"}
Behind(ds) == IF Doubled(ds) # {} THEN {} ELSE {M(ERR, x.at) : x \in {y \in All(ds) : y.o \in {"<-&", "<-!"} /\ NotBehind(ds, y.as[1], {})}}
Order(ds) == {M(ORDER, x.p) : x \in UNION {{[p |-> y.as[j].at] : j \in {j \in 1..(Len(y.as)-1) : y.as[j].o \in {"opt", "rep0"}}} : y \in {z \in All(ds) : z.o = "alt"}}}
RECURSIVE LitOf(_, _, _)
LitOf(ds, a, seen) == IF a.o \in {"lit", "ptext"} THEN a.tk.cs
                      ELSE IF a.o = "grp" THEN LitOf(ds, a.as[1], seen)
                      ELSE IF a.o = "sym" /\ a.tk.v \in NamesOf(ds) \ seen THEN LitOf(ds, Def(ds, a.tk.v).a, seen \cup {a.tk.v})
                      ELSE <<>>
Lit(ds, a) == LitOf(ds, a, {})
SameText(ds) == IF Doubled(ds) # {} THEN {} ELSE {M(ORDER, y.at) : y \in {z \in All(ds) : z.o = "alt" /\ \E i, j \in DOMAIN z.as : i < j /\ Lit(ds, z.as[i]) # <<>> /\ Lit(ds, z.as[i]) = Lit(ds, z.as[j])}}
\* (a modifier may come too late to be noticed)
Hidden(r, ds) == UNION {{r.dirs[k].args[j].v : j \in DOMAIN r.dirs[k].args} : k \in {k \in DOMAIN r.dirs : r.dirs[k].name \in {"hide", "disposable"} /\ r.dirs[k].args[1].k \notin {"rx", "badrx"}}}
Again(ds) == {M(ERR, y.tk.p) : y \in {z \in All(ds) : z.o \in Retr /\ z.tk.v \in NamesOf(ds) /\ (Doubled(ds) # {} \/ Recursive(ds, z.tk.v))}}
Caught(r, ds) == {M(ERR, y.at) : y \in {z \in All(ds) : z.o \in Retr /\ z.tk.v \in Hidden(r, ds)}}
Direct(r, ds) == Names(ds) \cup Twice(r, ds) \cup BadName(r, ds) \cup Regexes(ds) \cup Nesting(ds) \cup Counts(ds) \cup Behind(ds) \cup Order(ds) \cup SameText(ds) \cup Caught(r, ds)
\* ---- mistakes found when all definitions are put together; reported at the definition
Per(ds, P(_), code) == {M(code, ds[k].p0) : k \in {k \in DOMAIN ds : \E x \in Subs(ds[k].a) : P(x)}}
N(ds, a) == Never(ds, a, {})
Together(ds) ==
    LET Alts(x) == x.o = "alt" /\ \E j \in 1..(Len(x.as)-1) : N(ds, x.as[j])
        Dup(x) == x.o = "alt" /\ \E i, j \in DOMAIN x.as : i < j /\ Bare(x.as[i]).o = "sym" /\ Bare(x.as[j]).o = "sym" /\ Bare(x.as[i]).tk.v = Bare(x.as[j]).tk.v /\ Lit(ds, x.as[i]) = <<>>
        Ahead(x) == x.o \in {"&", "!"} /\ Bare(x.as[1]).o # "ws" /\ N(ds, x.as[1])
        Nest(x) == (x.o = "rep1" \/ (x.o = "cnt" /\ ~(x.lo = 1 /\ x.hi = 1) /\ ~(x.lo = 0 /\ x.hi = 1))) /\ N(ds, x.as[1])
        Cyc == {k \in DOMAIN ds : Circle(ds, ds[k].nm, {})}
    IN Per(ds, Alts, ORDER) \cup Per(ds, Dup, TWICE) \cup Per(ds, Ahead, AHEAD) \cup Per(ds, Nest, NESTED) \cup {M(1020, ds[k].p0) : k \in Cyc}
\* what may be reported, too: mistakes of a kind that is recognised by a heuristic
Allowed(r, ds) ==
    LET Alts(x) == x.o = "alt" /\ ((\E j \in 1..(Len(x.as)-1) : Perhaps(ds, x.as[j], {})) \/ Len(x.as) > 2)
        Ahead(x) == (x.o \in Flow /\ Perhaps(ds, x.as[1], {})) \/ (x.o = "diff" /\ Perhaps(ds, x.as[2], {}))
        Nest(x) == x.o \in {"rep1", "cnt"} /\ Perhaps(ds, x.as[1], {})
        Mix(x) == x.o = "inter" /\ \E j \in DOMAIN x.as : Perhaps(ds, x.as[j], {}) \/ Bare(x.as[j]).o \in Flow
        Deep(x) == x.o \in Brackets /\ Bare(x.as[1]).o \in Brackets
        Lits(x) == x.o = "alt" /\ \E i, j \in DOMAIN x.as : i < j /\ x.as[i].o \in {"lit", "ptext", "sym"} /\ x.as[j].o \in {"lit", "ptext", "sym"}
    IN Again(ds) \cup {M(1020, ds[k].p0) : k \in {k \in DOMAIN ds : Recursive(ds, ds[k].nm)}} \cup {M(ERR, x.at) : x \in {y \in All(ds) : Doubled(ds) # {} /\ y.o \in {"<-&", "<-!"}}} \cup
       {M(ERR, y.at) : y \in {z \in All(ds) : z.o \in Retr /\ z.tk.v \in {ds[k].nm : k \in {k \in DOMAIN ds : ds[k].hide}}}} \cup
       BadUse(r, ds) \cup Per(ds, Alts, ORDER) \cup Per(ds, Ahead, AHEAD) \cup Per(ds, Nest, NESTED) \cup Per(ds, Mix, NESTED)
       \cup {M(ERR, x.at) : x \in {y \in All(ds) : Deep(y)}} \cup {M(ORDER, x.at) : x \in {y \in All(ds) : Lits(y)}}
\* ---- directives: r.dirs sequence of [name, p, args, ...]; args: [k, v, p]
Single == {"comment", "whitespace", "ignorecase", "reduction", "flavor"}
Lists == {"literalws", "drop", "hide", "disposable", "tokens", "preprocessor_tokens", "optimizations"}
Once == {"comment", "whitespace", "ignorecase", "reduction", "flavor", "literalws", "optimizations"}
Suffixed == {"skip", "resume", "error"}
Values(n) == CASE n = "literalws" -> {"left", "right", "both", "none"}
               [] n = "reduction" -> {"none", "flatten", "merge_treetops", "merge_leaves", "merge"}
               [] n = "whitespace" -> {"horizontal", "linefeed", "vertical"}
               [] n = "drop" -> {"whitespace", "strings", "backticked", "Strings"}
               [] n = "optimizations" -> {"literal", "lookahead", "alternative", "sequence", "rearrange_alternative"}
               [] OTHER -> {}
DirBad(r, ds, k) ==
    LET d == r.dirs[k]
        known == d.suf # "" \/ d.name \in Single \cup Lists
        badrx == {M(BADRX, d.args[j].p) : j \in {j \in DOMAIN d.args : d.args[j].k = "badrx"}}
    again == \E j \in 1..(k-1) : r.dirs[j].name = d.name
    IN IF ~known THEN {M(IF again THEN REDEF ELSE ERR, d.p)}
       ELSE IF d.suf # "" THEN IF d.pre THEN {M(IF again THEN REDEF ELSE ERR, d.p)}
                              ELSE IF d.suf # "error" /\ again THEN {M(REDEF, d.p)}
                              ELSE (IF ~again /\ d.sym \notin NamesOf(ds) THEN {M(NOWHERE, d.p)} ELSE {}) \cup badrx
                                   \cup (IF d.suf = "error" /\ (Len(d.args) > 2 \/ d.args[IF Len(d.args) = 1 THEN 1 ELSE 2].k # "lit") THEN {M(ERR, d.p)} ELSE {})
       ELSE IF d.name \in Once /\ again THEN {M(REDEF, d.p)}
       ELSE IF d.name \in Single /\ Len(d.args) > 1 THEN {M(ERR, d.p)}
       ELSE badrx \cup
            CASE d.name = "literalws" -> IF (\E j \in DOMAIN d.args : d.args[j].v \notin Values(d.name)) \/ (Len(d.args) > 1 /\ \E j \in DOMAIN d.args : d.args[j].v = "none") THEN {M(ERR, d.p)} ELSE {}
              [] d.name = "optimizations" -> IF \E j \in DOMAIN d.args : d.args[j].v \notin Values(d.name) \cup (IF Len(d.args) = 1 THEN {"none", "some", "all"} ELSE {}) THEN {M(ERR, d.p)} ELSE {}
              [] d.name = "drop" -> IF \E j \in DOMAIN d.args : d.args[j].v \notin Values(d.name) THEN {M(ERR, d.p)} ELSE {}
              [] d.name = "reduction" -> IF \E j \in DOMAIN d.args : d.args[j].v \notin Values(d.name) THEN {M(ERR, d.p)} ELSE {}
              [] d.name = "whitespace" -> IF badrx # {} THEN {}
                                          ELSE IF d.args[1].k = "word" /\ d.args[1].v \notin Values(d.name) THEN {M(ERR, d.p)}
                                          ELSE IF d.args[1].k = "rx" /\ ~d.args[1].empty THEN {M(ERR, d.p)} ELSE {}
              \* either one regular expression or symbols
              [] d.name \in {"hide", "disposable"} /\ Len(d.args) > 1 /\ d.args[1].k \in {"rx", "badrx"} -> {M(ERR, d.p)}
              [] d.name \in {"hide", "disposable"} /\ Len(d.args) > 1 /\ \E j \in DOMAIN d.args : d.args[j].k # "word" ->
                     {M(ERR, d.args[j].p) : j \in {j \in DOMAIN d.args : d.args[j].k # "word"}} \cup {M(UNDEFINED, d.p) : j \in {j \in DOMAIN d.args : d.args[j].k = "word" /\ d.args[j].v \notin NamesOf(ds)}}
              [] d.name \in {"hide", "disposable"} -> IF \E j \in DOMAIN d.args : d.args[j].k = "rx" /\ d.args[j].empty THEN {M(ERR, d.p)}
                                                      ELSE {M(UNDEFINED, d.p) : j \in {j \in DOMAIN d.args : d.args[j].k = "word" /\ d.args[j].v \notin NamesOf(ds)}}
              [] OTHER -> {}
\* rules for a symbol with several mandatory markers: it is not clear what they are for
Unclear(r, ds) == \E k \in DOMAIN r.dirs : r.dirs[k].suf # "" /\ ~r.dirs[k].pre /\
                     \E j \in DOMAIN ds : ds[j].nm = r.dirs[k].sym /\ Cardinality({x \in Subs(ds[j].a) : x.m < 1000}) > 1
Dirs(r, ds) == UNION {DirBad(r, ds, k) : k \in DOMAIN r.dirs}
\* ---- verdict
Said(r, m) == \E k \in DOMAIN r.msgs : r.msgs[k][1] = m.code /\ r.msgs[k][2] = m.p
Errors(r) == {k \in DOMAIN r.msgs : r.msgs[k][1] >= 1000}
Loose(r, ds) == {M(LOOSE, ds[k].p0) : k \in {k \in DOMAIN ds : k > 1 /\ ds[k].nm # ds[1].nm /\ ds[k].nm \notin Reach(ds, ds[1].nm)}}
Verdict(r) ==
    IF r.crash # "" THEN <<"crash", r.crash>>
    ELSE IF IllFormed(r.ts) THEN (IF Errors(r) = {} THEN <<"ill-formed", "accepted">> ELSE <<>>)
    ELSE IF ~r.sure THEN <<>>       \* not decided here
    ELSE LET ds == Defs(r.ts, 1, <<>>)
             direct == Direct(r, ds) \cup Dirs(r, ds)
             late == Together(ds)
             loose == Loose(r, ds)
             single == Doubled(ds) = {}
             missed == {m \in direct : ~Said(r, m)} \cup (IF direct = {} /\ Again(ds) = {} THEN {m \in late : ~Said(r, m)} ELSE {})
             false == {k \in Errors(r) :
                                   /\ ~\E m \in direct \cup late \cup Allowed(r, ds) : m.code = r.msgs[k][1] /\ m.p = r.msgs[k][2]
                                   /\ ~(r.msgs[k][1] = 1070 /\ Unclear(r, ds))
                                   /\ direct = {} \/ r.msgs[k][1] \notin {1020, ORDER, TWICE, AHEAD, NESTED, 10100}}
             warned == {M(r.msgs[k][1], r.msgs[k][2]) : k \in {k \in DOMAIN r.msgs : r.msgs[k][1] = LOOSE}}
         IN IF missed # {} THEN <<"missed", missed>>
            ELSE IF false # {} THEN <<"false alarm", {r.msgs[k] : k \in false}>>
            ELSE IF single /\ warned # loose THEN <<"unconnected", loose>>
            ELSE IF direct \cup late = {} /\ Errors(r) = {} /\ ~r.parser THEN <<"no parser", "">>
            ELSE <<>>
TInit == l = 0
TNext == /\ l < Len(Trace)
         /\ l' = l + 1
         /\ LET v == Verdict(Trace[l+1]) IN v = <<>> \/ PrintT(<<"BAD", l+1, {v[1]}, ToJson(v[2])>>)
=============================================================================
