-------------------------- MODULE TransformTrace ----------------------------
(* Judges recorded transformations ("op"), conditions evaluated for all nodes  *)
(* of a tree ("cond") and checks that add errors ("err").                      *)
EXTENDS Transform, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(b, x) == IF b THEN {x} ELSE {}
\* two readings of the documentation are accepted: do the collapsed children at the end of a child count as
\* adjacent to the next child?
RECURSIVE NodeAt(_, _)
NodeAt(x, path) == IF path = <<>> THEN x ELSE NodeAt(x.k[path[1]], Tail(path))
OpBad(r) ==
    IF r.exc # "" THEN {"exception"}
    ELSE LET want == AtPath(r.o, r.tree, r.path)
             alt == IF r.o.op = "collapse_children_if"
                    THEN {CollapseIf(NodeAt(r.tree, r.path), r.o.c, r.o.name, r.o.rule, TRUE)} ELSE {}
         IN If(Norm(r.res) # Norm(want) /\ ~\E y \in alt : Norm(NodeAt(r.res, r.path)) = Norm(y), r.o.op)
RECURSIVE PathNodes(_, _)
PathNodes(x, path) == <<x>> \o (IF path = <<>> THEN <<>> ELSE PathNodes(x.k[path[1]], Tail(path)))
CondBad(r) == If(\E i \in 1..Len(r.vals) :
                    LET p == PathNodes(r.tree, r.vals[i][1])
                        idx == IF r.vals[i][1] = <<>> THEN 0 ELSE r.vals[i][1][Len(r.vals[i][1])]
                    IN ~\E b \in BOOLEAN : r.vals[i][2] = PCond(r.c, p, idx, b), r.c.c)
\* which nodes get errors
ErrBad(r) == If(\E i \in 1..Len(r.vals) :
                  LET x == NodeAt(r.tree, r.vals[i][1])
                  IN r.vals[i][2] # (CASE r.o = "error_on" -> Cond(r.c, x)
                                       [] r.o = "assert_content" -> ~CMatch(r.c.s, Text(x))
                                       [] r.o = "require" -> \E j \in 1..Len(x.k) : x.k[j].n \notin Elems(r.c.s)
                                       [] r.o = "forbid" -> \E j \in 1..Len(x.k) : x.k[j].n \in Elems(r.c.s)), r.o)
TInit == l = 0 /\ tree = <<>>
TNext == /\ l < Len(Trace)
         /\ l' = l + 1
         /\ UNCHANGED tree
         /\ LET r == Trace[l+1]
                b == CASE r.kind = "op" -> OpBad(r) [] r.kind = "cond" -> CondBad(r) [] r.kind = "err" -> ErrBad(r)
            IN b = {} \/ PrintT(<<"BAD", l+1, b, ToJson(IF r.kind = "op" /\ r.exc = "" THEN AtPath(r.o, r.tree, r.path) ELSE 0)>>)
=============================================================================
